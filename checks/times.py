"""Cases for the Time class."""
RATES = [(24, 1), (25, 1), (30, 1), (1000, 1), (24000, 1001), (30000, 1001), (60000, 1001), (50, 2), (60, 1), (48, 1), (100, 1), (50, 1), (90, 3)]
INT_RATES = [r for r in RATES if r[0] % r[1] == 0]


def top(r):
    return (r[0] - 1) // r[1]


def frames(r, rate):
    t = top(rate)
    return r.choice([0, 1, t, t - 1, t // 2, r.randrange(t + 1), r.randrange(t + 1)])


def time(r, rates=RATES, plain=0.0, limit=360000):
    if r.random() < plain:
        return [r.choice([0, 1, r.randrange(limit)]), r.choice([0, 1, r.randrange(100)]), 0, 0]
    rate = r.choice(rates)
    return [r.choice([0, 1, 59, 60, 3599, 3600, 86399, r.randrange(limit), r.randrange(limit)]), frames(r, rate), rate[0], rate[1]]


def near(r, t, plain=0.0):
    """A time close to t, maybe at another rate, maybe the same instant"""
    if r.random() < .3:
        return time(r, plain=plain)
    rate = r.choice(RATES)
    if t[2] == 0:
        return [t[0], max(0, t[1] + r.randrange(-1, 2)), 0, 0] if r.random() < .6 else [t[0], frames(r, rate), rate[0], rate[1]]
    f = round(t[1] * t[3] / t[2] * rate[0] / rate[1]) + r.randrange(-1, 2)
    return [t[0], min(max(0, f), top(rate)), rate[0], rate[1]]


def record(c, o):
    d = {k: c[k] for k in c if k not in ("op", "id")}
    d["obs"] = o
    d.setdefault("what", "cmp")
    return d
