"""C17: the dump."""
import core, raws, scale, sources

INV = ["Emit", "Faithful", "Distinct"]


def case(raw, meta):
    """meta: byte lists"""
    return {"op": "dump", "raw": [raws.hexed(x) for x in raw], "meta": [[bytes(a).hex(), bytes(b).hex()] for a, b in meta], "vu": 100, "hu": 100}


def record(c, o):
    return {"raw": core.deep_ints(c["raw"]), "meta": sorted([list(bytes.fromhex(a)), list(bytes.fromhex(b))] for a, b in c["meta"]), "err": o["err"], "dump": o.get("dump", [])}


def describe(c, x, o):
    return "dump %s expected %s" % (core.show(core.deep_ints(o).get("dump", o["err"]))[:1200], core.show(x)[:1200])


def record_read(c, o):
    return {"raw": o.get("subs", []), "meta": o.get("meta", []), "err": o["err"], "dump": o.get("dump", [])}


def record_tool(c, o):
    """what the tool printed instead of what the harness's dump did"""
    data = bytes.fromhex(c["in"])
    rc, out = core.dumpsubs(bytes.fromhex(c["name"]).decode(), data)
    lines = out.split(b"\n")
    # the reader of text STL says at once what it doesn't understand
    while c["fmt"] == "stlt" and lines[0].startswith(b"Unrecognised "):
        lines.pop(0)
    return {"raw": o.get("subs", []), "meta": o.get("meta", []), "err": o["err"] if rc == 0 else "exit %s" % rc, "dump": list(b"\n".join(lines))}


def run(c):
    th = core.THOROUGH
    for kind, depth in (("style", 5 if th else 4), ("position", 3 if th else 2)):
        t = core.mc("MCDump", {"Depth": depth, "Kind": '"%s"' % kind}, INV)
        c.spec_states(t)
        xs = list(t.json())
        c.exhaustive.append("all lists of up to %d fragments (%s): %d" % (depth, kind, len(xs)))
        c.replay("contents enumerated by the model (%s)" % kind, xs, lambda x: case(x["raw"], x["meta"]), lambda x, o: o["err"] == "" and o["dump"] == x["out"],
                 describe=lambda x, o: "dump %s expected %s" % (core.show(core.deep_ints(o).get("dump", "?")), core.show(x["out"])))
    r = c.rng
    n = 3000 if th else 400
    cases = []
    for _ in range(n):
        # whether a line has a rate must be the same throughout (see C02)
        raw = raws.fragments(r, r.choice([0, 1, 3, 8, 20]))
        meta = {bytes(r.choice(b"ABCabc ") for _ in range(r.randrange(1, 5))): r.choice(raws.WORDS).encode() for _ in range(r.randrange(4))}
        cases.append(case(raw, [[list(a), list(b)] for a, b in meta.items()]))
    c.record("random contents", "TraceDump", cases, record, describe=describe)
    c.record("long contents", "TraceDump", [case(raw, []) for raw in scale.collections(c)], record, describe=describe)

    # what readers hold
    cases = []
    while len(cases) < n:
        fmt, data, vu, hu = sources.document(r, bad=0)
        if fmt == "ssa" or b"pos(" in data:
            continue        # positions are not hundredths
        cases.append({"op": "read", "fmt": fmt, "src": {"srt": "file", "vtt": "string", "stlt": "istream", "stlb": "istream"}[fmt], "in": data.hex(), "vu": 100, "hu": 100, "meta": 1, "dump": 1})
    obs = core.run_cases(cases)
    # (files that cannot be read, and positions that are not hundredths, are of no interest here)
    cases = [k for k, o in zip(cases, obs) if o["err"] == "" and str(-777777) not in core.json.dumps(o["subs"])]
    c.record("contents of readers", "TraceDump", cases, record_read, describe=describe)

    # and the tool
    cases = [dict(k, src="factory", name=(r.choice(["x", "a b", "x.y"]) + r.choice([".srt", ".SRT", ".Srt"] if k["fmt"] == "srt" else [".stl", ".STL"])).encode().hex())
             for k in cases if k["fmt"] in ("srt", "stlt", "stlb")][:400 if th else 80]
    # (a damaged binary file is taken for a text one)
    cases = [k for k in cases if k["fmt"] != "stlb" or bytes.fromhex(k["in"])[3:6] == b"STL"]
    c.record("the dumpsubs tool", "TraceDump", cases, record_tool, describe=describe)
    for name, data in (("x.srt", None), ("x.txt", b"1"), ("x", b"1")):
        rc, out = core.dumpsubs(name, data)
        if rc in (0, "hang", 99) or out:
            c.violation("dumpsubs of %s which %s: status %s, output %r" % (name, "isn't there" if data is None else "isn't of a known kind", rc, out[:200]), {"name": name}, "a failure", rc)
    c.traces += 3
