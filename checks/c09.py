"""C09: SSA override tags."""
import edits as small
import core, scale, ssa

INV = ["Emit", "CharView"]


def run(c):
    for alphabet, quick, deep in ("style", 3, 4), ("all", 3, 4):
        d = deep if core.THOROUGH else quick
        t = core.mc("MCSSAText", {"Depth": d, "Emitting": "TRUE", "Alphabet": '"%s"' % alphabet, "Alignments": "{2, 5}" if alphabet == "all" else "{2}", "Margins": "{2}"}, INV)
        c.spec_states(t)
        c.replay("texts enumerated by the model (%s)" % alphabet, list(t.json()), ssa.to_case("string", 640, 480), ssa.agree, describe=ssa.describe)
        c.exhaustive.append("all texts of up to %d chunks of the alphabet %s" % (d, alphabet))
    size, edits = (4, 1) if core.THOROUGH else (3, 1)
    t = core.mc("MCTags", {"MaxLen": size, "Edits": edits, "Emitting": "TRUE"}, ["Emit", "C09"])
    c.spec_states(t)
    c.replay("tags enumerated by the model", list(t.json()), ssa.to_case("string", 640, 480), ssa.agree, describe=ssa.describe)
    c.exhaustive.append("all tags of up to %d characters of an alphabet of 25, and all tags one edit away from 15 known ones" % size)
    n = 6000 if core.THOROUGH else 600
    cases = [ssa.case(*ssa.document(c.rng), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random files", "TraceSSA", cases, ssa.record, describe=ssa.describe_rec)
    small.run(c, "ssa", b"[Events]\nFormat: Start, End, Text\nDialogue: 0:00:01.00,0:00:02.00,a{\\i1}b{\\b1\\fs20}c\\Nd{\\c&H102030&}e{\\fnX Y}f{\\r}g\n")
    scale.run(c, "ssa", ["tags in a text", "tags in a block"])
