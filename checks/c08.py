"""C08: SSA sections, formats and styles."""
import core, edits, scale, srt, ssa


def run(c):
    d = 4 if core.THOROUGH else 3
    t = core.mc("MCSSALines", {"Depth": d, "Emitting": "TRUE"}, ["Emit", "EventsResolve"])
    c.spec_states(t)
    c.replay("files enumerated by the model", list(t.json()), ssa.to_case("string", 288, 288), ssa.agree, describe=ssa.describe)
    c.exhaustive.append("four beginnings and every continuation by %d lines of 17 shapes" % d)
    n = 6000 if core.THOROUGH else 600
    cases = [ssa.case(*ssa.document(c.rng, bad=.03), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random files", "TraceSSA", cases, ssa.record, describe=ssa.describe_rec)
    cases = []
    for _ in range(n):
        data, rx, ry = ssa.document(c.rng)
        # (what is observed is in units of the resolution, so that is left alone)
        at = data.rfind(b"PlayRes")
        at = data.find(b"\n", at) + 1 if at >= 0 else 0
        cases.append(ssa.case(data[:at] + srt.perturb(c.rng, data[at:]), rx, ry, c.rng.choice(["string", "file"])))
    c.record("random files with odd lines", "TraceSSA", cases, ssa.record, describe=ssa.describe_rec)
    edits.run(c, "ssa", b"[V4+ Styles]\nFormat: Name, Fontsize, Bold\n; c\nStyle: Default,20,-1\n[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,*Default,a, b\n")
    scale.run(c, "ssa", ["styles", "events", "columns", "columns of a style", "commas in a text", "sections"])
