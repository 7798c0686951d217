"""C12: reading binary STL."""
import core, scale, stlb

INV = ["Emit", "CharView", "Positions"]


def case(x):
    data = stlb.header(len(x["blocks"]), rows=b"%02d" % x["rows"]) + b"".join(stlb.block(b) for b in x["blocks"])
    return stlb.read_case(data)


def agree(x, o):
    return o["err"] == "" and stlb.solid(o["subs"]) == x["subs"]


def agree_header(x, o):
    w = x["x"]
    if w["err"]:
        return o["err"] == w["err"]
    return o["err"] == "" and all(o[k] == w[k] for k in ("subs", "fields", "strings", "meta"))


def run(c):
    th = core.THOROUGH
    for narrow, depth, rows in (("all", 4 if th else 3, 23), ("style", 7 if th else 5, 10), ("join", 6 if th else 5, 23)):
        t = core.mc("MCSTLBRead", {"Depth": depth, "Narrow": '"%s"' % narrow, "MaxRows": rows}, INV)
        c.spec_states(t)
        c.replay("blocks of %s chunks" % narrow, list(t.json()), case, agree, describe=stlb.describe)
        c.exhaustive.append("all lists of blocks of up to %d chunks (%s)" % (depth, narrow))
    t = core.mc("MCSTLBHeader", {"Pairs": "TRUE" if th else "FALSE"}, ["Emit", "Isolated", "Sensible"])
    c.spec_states(t)
    c.replay("headers", list(t.json()), lambda x: stlb.read_case(bytes(x["g"]), full=1), agree_header, describe=lambda x, o: stlb.describe(x["x"], o))
    cases = [stlb.read_case(stlb.document(c.rng), c.rng.choice(["istream", "file", "factory"]), full=1) for _ in range(3000 if th else 500)]
    # up to as many blocks as can be numbered
    cases += [stlb.read_case(stlb.long_chain(c.rng, n), full=1) for n in ((17, 33, 65, 127, 128, 129, 130, 191, 192, 224, 239, 240, 241, 242) if th else (40, 129, 160, 241))]
    # a disk format code that is not known makes the factory choose another reader
    cases = [k for k in cases if not (k["src"] == "factory" and bytes.fromhex(k["in"])[3:11] not in (b"STL25.01", b"STL24.01", b"STL23.01", b"STL30.01"))]
    c.record("random files", "TraceSTLBinary", cases, stlb.record, describe=stlb.describe_rec)
    scale.run(c, "stlb")
