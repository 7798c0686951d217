"""C16: sources and dispatch."""
import core, sources, stlb

A = b"abcdefghijklmnopqrstuvwxyz"


def embed(x, size, fmt):
    """A content of the model as the text of a cue, each 'a' standing for so many letters"""
    run = (A * (1 + size // 26))[:size]
    data = b"".join(run if b == 97 else bytes([b]) for b in x["in"])
    head = b"1\n00:00:01,000 --> 00:00:02,000\n" if fmt == "srt" else b"WEBVTT\n\n00:00:01.000 --> 00:00:02.000\n"
    return head + data, [b"".join(run if b == 97 else bytes([b]) for b in r).hex() for r in x["rows"]]


CONTENT = {"srt": b"1\n00:00:01,000 --> 00:00:02,000\nHello\n\n", "stlt": b"$Bold = False\n00:00:01:00,00:00:02:00,Hello\n", "stlb": None, "dfc": None, "empty": b"",
           "almost": b"850ST 25.010009\n00:00:01:00,00:00:02:00,Hello\n", "late": b"8500STL25.010009\n00:00:01:00,00:00:02:00,Hello\n", "short": b"850S"}


def run(c):
    th = core.THOROUGH
    xs = []
    for kinds, depth in ("{97, 10, 13}", 7 if th else 6), ("{97, 10, 13, 0}", 6 if th else 5):
        t = core.mc("MCSources", {"Depth": depth, "Bytes": kinds}, ["Same", "Prefix", "Emit"])
        c.spec_states(t)
        xs += list(t.json())
        c.exhaustive.append("all contents of up to %d of the bytes %s, read in pieces of every size" % (depth, kinds))
    xs = list({bytes(x["in"]): x for x in xs}.values())
    for fmt in ("srt", "vtt"):
        for size in ([1, 85, 255, 256, 4096] if th else [1, 255] if fmt == "srt" else [85]):
            def agree(x, o, fmt=fmt, size=size):
                want = embed(x, size, fmt)[1]
                return o["err"] == "" and all(r["err"] == "" and r["fds"] == 0 and [bytes(s["t"]).hex() for s in r["subs"]] == want for r in o["all"])
            c.replay("contents of the model, %s, letters %d times" % (fmt, size), xs if th or size != 1 else xs, lambda x: sources.case(fmt, embed(x, size, fmt)[0]), agree,
                     describe=lambda x, o: "rows differ: content %s with letters %d times: %s" % (core.show(x["in"]), size, str(o)[:1500]))

    t = core.mc("MCDispatch", {}, ["Alone", "AnyCase", "Emit"])
    c.spec_states(t)
    xs = list(t.json())
    c.exhaustive.append("names and kinds of content: %d" % len(xs))
    good = stlb.header(1) + stlb.block({"ebn": 255, "tci": [0, 0, 1, 0], "tco": [0, 0, 2, 0], "vp": 3, "jc": 2, "cf": 0, "text": b"Hello"})
    bad = good[:3] + b"STL77.01" + good[11:]
    content = dict(CONTENT, stlb=good, dfc=bad)

    def agree(x, o):
        if o["fds"]:
            return False
        if x["kind"] == "none":
            return o.get("null") == 1
        if x["kind"] == "stlb":
            return o["err"] == "STLError" if x["c"] == "dfc" else o["err"] == "" and o["kind"] == "stlb" and len(o["subs"]) == 1
        if x["kind"] == "srt":
            # (only some of the contents can be understood)
            return o["err"] == "SubripError" if x["c"] in ("stlt", "almost", "late") else o["err"] == "" and o["kind"] == "srt"
        return o["err"] == "" and o["kind"] == x["kind"]
    if not th:
        # every name with some contents, and every content with some names
        xs = [x for i, x in enumerate(xs) if i % 3 == 0 or x["c"] in ("stlb", "stlt") and i % 2 == 0]
    c.replay("names and contents", xs, lambda x: {"op": "read", "fmt": "?", "src": "factory", "in": content[x["c"]].hex(), "name": bytes(x["name"]).hex()}, agree,
             describe=lambda x, o: "%s containing %s should go to reader %s: %s" % (core.show(x["name"]), x["c"], x["kind"], str(o)[:500]))

    n = 200 if not th else 3000
    cases = []
    for i in range(n):
        f = c.rng.choice(["srt", "srt", "vtt", "ssa", "stlt"])
        cases.append(sources.case(f, sources.long_lines(c.rng, f)))
    c.record("files with very long lines", "TraceSources", cases, sources.record, describe=sources.describe, variant="plain")
    cases = []
    for i in range(n * 2):
        f, data, vu, hu = sources.document(c.rng)
        srcs = sources.SRCS[f]
        # what a damaged binary file is taken for is the factory's business
        if f == "stlb" and (len(data) < 11 or data[3:6] != b"STL") or f == "stlt" and data[3:6] == b"STL":
            srcs = [s for s in srcs if s != "factory"]
        cases.append(sources.case(f, data, srcs=srcs, vu=vu, hu=hu))
    c.record("random and damaged files", "TraceSources", cases, sources.record, describe=sources.describe)
