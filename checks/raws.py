"""Raw fragments and subtitles as harness cases."""
VU = 100
HU = 100


def hexed(raw):
    """A fragment as the specs have it (bytes as lists) -> as the harness wants it"""
    d = dict(raw)
    d["t"] = bytes(raw["t"]).hex()
    d["fn"] = [bytes(x).hex() for x in raw["fn"]]
    return d


def hexed_sub(s):
    d = dict(s)
    d["l"] = [dict(l, b=[hexed(b) for b in l["b"]]) for l in s["l"]]
    return d


WORDS = ["", "a", "Hello", "world ", " x", "\u00e9t\u00e9", "<b>", "42", "  ", "\u2028"]


def times(r):
    t = [[1, 0, 1000, 1], [1, 0, 25, 1], [1, 500, 1000, 1], [1, 12, 24, 1], [2, 0, 1000, 1], [2, 1001 % 1000, 1000, 1], [0, 0, 1000, 1], [3600, 0, 1000, 1], [1, 24, 25, 1], [1, 960, 1000, 1]]
    return r.choice(t) if r.random() < .7 else [r.randrange(4), r.randrange(1000), 1000, 1]


def position(r):
    ref = r.choice([-1, 0, 0, 1, 2, 3, 3])
    k = r.randrange(6)
    if k < 2:
        return [ref, [r.randrange(4)], [], []]
    if k == 2:
        return [ref, [r.randrange(4)], [r.choice([23, 24])], []]
    if k < 5:
        return [ref, [], [], [r.choice([0, 10, 20, 90])]]
    return [ref, [r.randrange(3)], r.choice([[], [23]]), [r.choice([0, 10])]]


def fragment(r):
    o = lambda f: [f()] if r.random() < .3 else []
    col = lambda: [r.choice([0, 255, r.randrange(256)]) for _ in range(3)]
    return {"t": list(r.choice(WORDS).encode()) + list(b"%d" % r.randrange(100)), "s": [r.randrange(2) for _ in range(3)], "c": col(),
            "e": r.choice(["", "", "border", "shadow"]), "ec": o(col), "fn": o(lambda: list(r.choice(WORDS).encode())),
            "fs": r.choice([["", 0], ["pt", r.randrange(1, 99)], ["pr", r.randrange(1, 20)]]), "h": [r.randrange(3), r.randrange(-50, 100)], "v": position(r),
            "f": times(r), "o": times(r), "fu": o(lambda: times(r)) if r.random() < .4 else [], "fd": o(lambda: times(r)) if r.random() < .4 else []}


def fragments(r, n):
    """A list in which neighbours often agree in something"""
    out = []
    for _ in range(n):
        f = fragment(r)
        if out and r.random() < .8:
            p = r.choice(out[-3:])
            for k in ("f", "o", "fu", "fd"):
                if r.random() < .9:
                    f[k] = p[k]
            if r.random() < .5:
                f["v"] = p["v"]
            if r.random() < .4:
                f["h"] = p["h"]
            if r.random() < .4:
                for k in ("c", "fn", "fs", "e", "ec", "s"):
                    f[k] = p[k]
        out.append(f)
    return out


def collect_case(raw):
    return {"op": "collect", "raw": [hexed(x) for x in raw], "vu": VU, "hu": HU}


def collect_agree(x, o):
    return o["err"] == "" and all(o[k] == x["x"] for k in ("col", "list", "deque")) and o["rawafter"] == x["raw"]
