"""C03: accessors, conversions and arithmetic of times."""
import core, times


def cases_for(r, n):
    out = []
    for _ in range(n):
        k = r.randrange(9)
        if k == 0:
            a = times.time(r, plain=.2, limit=600 * 3600)
            out.append({"op": "time", "what": "acc", "a": a})
        elif k == 1:
            x = [r.choice([0, 1, 23, 24, 99, 100, 500]), r.randrange(60), r.randrange(60), r.randrange(1000)]
            out.append({"op": "time", "what": "hms", "x": x})
        elif k == 2:
            rate = r.choice(times.RATES + [(0, 0)])
            x = [r.choice([0, 1, 23, 24, 99, 100, 500]), r.randrange(60), r.randrange(60), times.frames(r, rate) if rate[0] else r.randrange(99), rate[0], rate[1]]
            out.append({"op": "time", "what": "hmsf", "x": x})
        elif k in (3, 4):
            a = times.time(r, plain=.05)
            out.append({"op": "time", "what": "at", "a": a, "r": list(r.choice(times.RATES))})
        elif k == 5:
            rate = r.choice(times.INT_RATES)
            out.append({"op": "time", "what": "frames", "n": r.choice([0, 1, rate[0] // rate[1] - 1, rate[0] // rate[1], r.randrange(1, 200000), r.randrange(1, 2000000000)]), "r": list(rate)})
        elif k in (6, 7):
            a = times.time(r)
            b = times.time(r, rates=times.INT_RATES)
            if (a[2] % a[3]) and a[2] / a[3] >= b[2] / b[3]:
                a = times.time(r, rates=times.INT_RATES)
            if r.random() < .5:
                a, b = b, a
            if r.random() < .3 and b[2] % b[3] == 0:
                # close to a whole second
                b[1] = max(0, b[2] // b[3] - 1 - (a[1] if a[2] == b[2] else 0))
            out.append({"op": "time", "what": "add", "a": a, "b": b})
        else:
            a = times.time(r, rates=times.INT_RATES, limit=100000)
            q = r.choice([1, 2, 4, 8, 16, 32, 64])
            p = r.choice([0, 1, q, q - 1, q + 1, r.randrange(1, 2 * q + 1), r.randrange(1, 2 * q + 1)])
            out.append({"op": "time", "what": "scale", "a": a, "f": [max(0, p), q]})
    return out


def run(c):
    # every frame of every second at every rate: conversion to every other rate, and scaling
    cases = [{"op": "time", "what": "zero"}]
    for ra in times.RATES:
        fs = range(times.top(ra) + 1)
        if not core.THOROUGH and len(fs) > 100:
            fs = sorted(c.rng.sample(list(fs), 100))
        for f in fs:
            for rb in (times.RATES if core.THOROUGH else c.rng.sample(times.RATES, 4)):
                cases.append({"op": "time", "what": "at", "a": [3723, f, ra[0], ra[1]], "r": list(rb)})
            if ra in times.INT_RATES:
                cases.append({"op": "time", "what": "scale", "a": [1, f, ra[0], ra[1]], "f": c.rng.choice([[1, 2], [3, 4], [31, 32], [33, 32], [2, 1]])})
                rb = c.rng.choice(times.INT_RATES)
                cases.append({"op": "time", "what": "add", "a": [1, f, ra[0], ra[1]], "b": [2, times.frames(c.rng, rb), rb[0], rb[1]]})
    c.record("every frame of a second", "TraceSubTime", cases, times.record)
    c.record("random operations", "TraceSubTime", cases_for(c.rng, 60000 if core.THOROUGH else 8000), times.record)
