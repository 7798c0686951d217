"""C07: WebVTT cues."""
import core, edits, scale, srt, vtt

INV = ["Emit", "CuesAreRows", "ErrorsAreLocated"]


def run(c):
    t = core.mc("MCWebVTT", {"Depth": 5 if core.THOROUGH else 4, "Emitting": "TRUE", "Narrow": "FALSE"}, INV)
    c.spec_states(t)
    c.replay("files enumerated by the model", list(t.json()), vtt.to_case("string"), vtt.agree, describe=vtt.describe)
    t = core.mc("MCWebVTT", {"Depth": 9 if core.THOROUGH else 7, "Emitting": "TRUE", "Narrow": "TRUE"}, INV)
    c.spec_states(t)
    c.replay("longer files enumerated by the model", list(t.json()), vtt.to_case("file"), vtt.agree, describe=vtt.describe)
    c.exhaustive.append("all files of up to %d lines over 15 line shapes" % (5 if core.THOROUGH else 4))

    n = 6000 if core.THOROUGH else 600
    cases = [vtt.case(vtt.document(c.rng, rich=c.rng.random() < .4), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random files", "TraceWebVTT", cases, vtt.record, describe=vtt.describe_rec)
    cases = [vtt.case(srt.perturb(c.rng, vtt.document(c.rng)), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random files with odd lines", "TraceWebVTT", cases, vtt.record, describe=vtt.describe_rec)
    edits.run(c, "vtt", b"WEBVTT x\n\nNOTE y\n\nid\n00:00:01.000 --> 00:00:02.500\na\nb\xe2\x80\xa8c\n\n0:1:2.3 --> 0:1:3.4\n<b>d</b>\n")
    scale.run(c, "vtt", ["cues", "notes", "lines in a note", "rows in a cue", "metadata"])
