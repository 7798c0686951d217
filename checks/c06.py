"""C06: malformed SubRip and WebVTT."""
import core, scale, srt, vtt

INV = ["Emit", "ErrorsAreLocated", "CuesAreRows"]
TIMING = ["RightOnesAreReadAndWrongOnesQuoted"]


def timing_lines(c):
    """Timing lines an edit or two away from right ones."""
    for web in (False, True):
        for edits, few in ([(2, "FALSE")] if core.THOROUGH else [(1, "FALSE"), (2, "TRUE")]):
            t = core.mc("MCTimingLines", {"Edits": edits, "Web": "TRUE" if web else "FALSE", "Few": few}, TIMING)
            c.spec_states(t)
            xs = list(t.json())
            name = "%s timing lines %d edit%s from right" % ("WebVTT" if web else "SubRip", edits, "s"[:edits - 1])
            c.exhaustive.append("%s: %d" % (name, len(xs)))
            c.replay(name, xs, (vtt if web else srt).to_case("string"), srt.agree, describe=srt.describe)


def run(c):
    t = core.mc("MCSubRipLines", {"Depth": 5 if core.THOROUGH else 4, "Emitting": "TRUE", "Narrow": "FALSE"}, INV)
    c.spec_states(t)
    c.replay("SubRip files enumerated by the model", list(t.json()), srt.to_case("file"), srt.agree, describe=srt.describe)
    t = core.mc("MCWebVTT", {"Depth": 5 if core.THOROUGH else 4, "Emitting": "TRUE", "Narrow": "FALSE"}, INV)
    c.spec_states(t)
    c.replay("WebVTT files enumerated by the model", list(t.json()), vtt.to_case("file"), vtt.agree, describe=srt.describe)
    timing_lines(c)

    n = 5000 if core.THOROUGH else 500
    cases = [srt.case(srt.document(c.rng, bad=.85), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random SubRip files with a fault", "TraceSubRip", cases, srt.record, describe=srt.describe_rec)
    cases = [vtt.case(vtt.document(c.rng, bad=.85), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random WebVTT files with a fault", "TraceWebVTT", cases, srt.record, describe=srt.describe_rec)
    scale.run(c, "bad")
    scale.run(c, "vtt", ["a bad time after many cues"])
