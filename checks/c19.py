"""C19: the code tables of binary STL."""
import core

NUMBERED = ("cumulative", "justification", "comment")


def to_case(x):
    c = {"op": "table"}
    if x["way"] == "read":
        c["k"] = x["k"]
        if x["k"] in NUMBERED:
            c["n"] = x["code"][0]
        else:
            c["code"] = bytes(x["code"]).hex()
    elif x["way"] == "write":
        c.update(k=x["k"] + "_e", n=x["m"])
    elif x["way"] == "describe":
        c.update(k="desc", d=bytes(x["d"]).hex())
    else:
        c.update(k="dfc_r", code=bytes(x["code"]).hex())
    return c


def agree(x, o):
    if x["way"] == "read":
        return o["err"] == "STLError" if x["v"] < 0 else o["err"] == "" and o["v"] == x["v"]
    if x["way"] == "describe":
        return o["err"] == "" and o["v"] == x["v"]
    if x["way"] == "dfc":
        return o["err"] == "STLError" if x["mhz"] < 0 else o["err"] == "" and o["mhz"] == x["mhz"]
    if o["err"] != "" or o["desc"] != x["desc"]:
        return False
    if x["k"] == "language":
        return o["code"] == x["code"] and o["back"] == x["m"]
    if x["k"] in NUMBERED:
        return o["n"] == x["code"][0]
    return True


def run(c):
    t = core.mc("MCSTLTables", {"AllPairs": "TRUE" if core.THOROUGH else "FALSE"}, ["Emit", "OneToOne", "Strict", "RatesAgree"])
    c.spec_states(t)
    c.replay("lookups", list(t.json()), to_case, agree)
    c.exhaustive.append("every code of every table, every one-byte code and %s two-byte codes, every meaning and language description" % ("all" if core.THOROUGH else "1296"))
    # rates: those of the table keep their meaning; no rate gives a code that cannot be read
    codes = {"STL23.01": 23976, "STL24.01": 24000, "STL25.01": 25000, "STL30.01": 30000}
    rates = [(23976, 1000), (24000, 1001), (24, 1), (25, 1), (30, 1)] + [(n, 1) for n in range(1, 121)] + [(n, 1000) for n in range(23000, 31000, 7 if not core.THOROUGH else 1)]
    want = {(23976, 1000): "STL23.01", (24000, 1001): "STL23.01", (24, 1): "STL24.01", (25, 1): "STL25.01", (30, 1): "STL30.01"}

    def agree_w(x, o):
        code = bytes(o["code"]).decode("latin-1") if o["err"] == "" else None
        n = x["fps"][0] / x["fps"][1]
        w = [v for (a, b), v in want.items() if abs(a / b - n) < 1e-6]
        return code in codes and (not w or code == w[0])
    c.replay("codes for rates", [{"fps": list(f)} for f in rates], lambda x: dict(op="table", k="dfc_w", fps=x["fps"]), agree_w)
