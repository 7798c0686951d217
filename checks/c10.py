"""C10: SSA positions."""
import core, scale, ssa

INV = ["Emit", "CharView", "LastLineOnMargin"]


def run(c):
    d = 5 if core.THOROUGH else 4
    t = core.mc("MCSSAText", {"Depth": d, "Emitting": "TRUE", "Alphabet": '"position"', "Alignments": "{1, 2, 3, 4, 5, 6, 7, 8, 9}", "Margins": "{1, 2, 3}" if core.THOROUGH else "{2}"}, INV)
    c.spec_states(t)
    c.replay("texts enumerated by the model", list(t.json()), ssa.to_case("string", 640, 480), ssa.agree, describe=ssa.describe)
    t = core.mc("MCSSAText", {"Depth": 2, "Emitting": "TRUE", "Alphabet": '"position"', "Alignments": "{1, 2, 3, 4, 5, 6, 7, 8, 9}", "Margins": "{1, 2, 3}"}, INV)
    c.spec_states(t)
    c.replay("margins enumerated by the model", list(t.json()), ssa.to_case("string", 640, 480), ssa.agree, describe=ssa.describe)
    c.exhaustive.append("all texts of up to %d chunks (text, breaks, sizes, alignments, position) under every alignment" % d)
    n = 6000 if core.THOROUGH else 600
    cases = [ssa.case(*ssa.document(c.rng), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random files", "TraceSSA", cases, ssa.record, describe=ssa.describe_rec)
    scale.run(c, "ssa", ["breaks in a text"])
