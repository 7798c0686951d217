"""C04: SubRip cue structure."""
import core, edits, scale, srt

INV = ["Emit", "CuesAreRows", "CuesStartPlain", "NoEmptyText"]


def run(c):
    t = core.mc("MCSubRipLines", {"Depth": 5 if core.THOROUGH else 4, "Emitting": "TRUE", "Narrow": "FALSE"}, INV)
    c.spec_states(t)
    c.replay("files enumerated by the model", list(t.json()), srt.to_case("string"), srt.agree, describe=srt.describe)
    t = core.mc("MCSubRipLines", {"Depth": 10 if core.THOROUGH else 8, "Emitting": "TRUE", "Narrow": "TRUE"}, INV)
    c.spec_states(t)
    c.replay("longer files enumerated by the model", list(t.json()), srt.to_case("file"), srt.agree, describe=srt.describe)
    c.exhaustive.append("all files of up to %d lines over 12 line shapes" % (5 if core.THOROUGH else 4))

    n = 6000 if core.THOROUGH else 600
    cases = [srt.case(srt.document(c.rng, rich=c.rng.random() < .4), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random files", "TraceSubRip", cases, srt.record, describe=srt.describe_rec)
    cases = [srt.case(srt.perturb(c.rng, srt.document(c.rng)), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random files with odd lines", "TraceSubRip", cases, srt.record, describe=srt.describe_rec)
    edits.run(c, "srt", b"1\n00:00:01,000 --> 00:00:02,500\na\nb c\n\n2\n0:1:2,3 --> 0:1:3,4  X1:1 X2:2 Y1:3 Y2:4\nd\n")
    scale.run(c, "srt", ["cues", "rows in a cue", "blank lines", "separators in a row", "right-to-left marks"])
