"""C14: what is written is what is read back."""
import core, stlw, c13


def run(c):
    js = c13.jobs(c, "back")
    c.record("jobs enumerated by the model", "TraceSTLWrite", [stlw.case(j, "back") for j in js], stlw.record, describe=stlw.describe, constants={"What": '"back"'})
    n = 4000 if core.THOROUGH else 500
    cases = [stlw.case(stlw.job(c.rng), "back") for _ in range(n)]
    c.record("random jobs", "TraceSTLWrite", cases, stlw.record, describe=stlw.describe, constants={"What": '"back"'})
    n = 3000 if core.THOROUGH else 400
    obs = c.record("files of other formats, collected and written", "TraceSTLWrite", [stlw.chain(c.rng) for _ in range(n)], stlw.record, describe=stlw.describe, constants={"What": '"back"'})
    c.count("subtitles written from other formats", sum(len(o.get("col", [])) for o in obs))
    # as much as there is room for, in a subtitle and in a header
    big = [stlw.case(stlw.big(c.rng, k, 0), "back", alarm=60) for k in ((2, 3, 64, 127, 128, 129, 200, 240, 241, 241) if core.THOROUGH else (3, 129, 241))]
    big += [stlw.case(stlw.job(c.rng, k), "back") for k in ((100, 256, 257, 1000) if core.THOROUGH else (100,))]
    c.record("large jobs", "TraceSTLWrite", big, stlw.record, describe=stlw.describe, constants={"What": '"back"'})
