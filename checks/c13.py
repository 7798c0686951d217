"""C13: files that are written are well formed."""
import core, stlw

INV = ["Emit", "WrittenWell", "ReadsBack"]


def jobs(c, what):
    """Jobs enumerated by the model, checked there with the specified writer and reader"""
    th = core.THOROUGH
    out = []
    for alphabet, depth in (("all", 4 if th else 3), ("style", 6 if th else 4), ("long", 5 if th else 3)):
        t = core.mc("MCSTLBWrite", {"Depth": depth, "Alphabet": '"%s"' % alphabet}, INV)
        c.spec_states(t)
        js = list(t.json())
        c.exhaustive.append("all lists of subtitles of up to %d chunks (%s): %d" % (depth, alphabet, len(js)))
        out += js
    return out


def run(c):
    js = jobs(c, "file")
    c.record("jobs enumerated by the model", "TraceSTLWrite", [stlw.case(j, "file", twice=i % 4 == 0) for i, j in enumerate(js)], stlw.record, describe=stlw.describe, constants={"What": '"file"'})
    n = 3000 if core.THOROUGH else 500
    cases = [stlw.case(stlw.job(c.rng), "file", twice=1) for _ in range(n)]
    cases += [stlw.case(stlw.job(c.rng, k), "file") for k in ([40, 99, 100, 101] if not core.THOROUGH else [40, 99, 100, 101, 255, 256, 257, 300, 999, 1000, 1001])]
    c.record("random jobs", "TraceSTLWrite", cases, stlw.record, describe=stlw.describe, constants={"What": '"file"'})
    # what there is room for, and no more
    big = [(n, o) for n in ((241, 128, 129, 64, 2) if core.THOROUGH else (241,)) for o in (0, 1)] + [(240, 0), (130, 0)] + [(242, 0)] + ([(300, 5), (500, 0), (241, -1)] if core.THOROUGH else [])
    cases = [stlw.case(stlw.big(c.rng, n, o), "file") for n, o in big]
    def times(n, small):
        j = stlw.job(c.rng, 1)
        if small:
            j["subs"] = [{"f": stlw.time(c.rng), "o": stlw.time(c.rng), "l": [{"h": [1, 0], "v": [2, [5], [], []], "b": [{"t": [65], "s": [0, 0, 0]}]}]}]
        return stlw.case(j, "file", n=n, alarm=120)
    for n in (2, 10, 255, 256, 999, 1000, 9999, 10000, 65536):
        cases.append(times(n, n > 10000))
    cases += [times(99999, 1), times(100000, 1)] + ([times(100001, 1), times(131072, 1), times(200000, 1)] if core.THOROUGH else [])
    # several blocks each
    j = stlw.big(c.rng, 9, 0)
    j["subs"] = [s for s in j["subs"] if sum(len(b["t"]) for l in s["l"] for b in l["b"]) > 900]
    cases += [stlw.case(j, "file", n=n, alarm=120) for n in (11111, 11112)]
    c.record("the format's limits", "TraceSTLWrite", cases, stlw.record, describe=stlw.describe, constants={"What": '"file"'})
    c.exhaustive.append("subtitles of 241 blocks and of one byte more; files of 99999 blocks and of one more")
