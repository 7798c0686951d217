"""C11: text STL lines and styles."""
import core, edits, scale, srt, stlt

INV = ["Emit", "CharView", "NoEmptyText"]


def run(c):
    d = 5 if core.THOROUGH else 4
    t = core.mc("MCSTLText", {"Depth": d, "Emitting": "TRUE", "Narrow": "FALSE"}, INV)
    c.spec_states(t)
    c.replay("files enumerated by the model", list(t.json()), stlt.to_case("istream"), stlt.agree, describe=stlt.describe)
    t = core.mc("MCSTLText", {"Depth": 7 if core.THOROUGH else 6, "Emitting": "TRUE", "Narrow": "TRUE"}, INV)
    c.spec_states(t)
    c.replay("longer files enumerated by the model", list(t.json()), stlt.to_case("factory"), stlt.agree, describe=stlt.describe)
    c.exhaustive.append("all files of up to %d chunks of 17 kinds and %d of 6" % (d, 7 if core.THOROUGH else 6))
    n = 8000 if core.THOROUGH else 1000
    cases = [stlt.case(stlt.document(c.rng), c.rng.choice(["istream", "istream", "factory"])) for _ in range(n)]
    c.record("random files", "TraceSTLText", cases, stlt.record, describe=stlt.describe_rec)
    cases = [stlt.case(srt.perturb(c.rng, stlt.document(c.rng)), c.rng.choice(["istream", "factory"])) for _ in range(n)]
    c.record("random files with odd lines", "TraceSTLText", cases, stlt.record, describe=stlt.describe_rec)
    edits.run(c, "stlt", b"$Bold = True\n$FontSize = 42\n// c\n00:00:01:00 , 00:00:02:05 , a^Ib|c\n0:1:2:3,0:1:3:4,^Ud, e\n")
    scale.run(c, "stlt")
