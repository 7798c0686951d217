"""C01: collecting."""
import core, raws, scale

INV = ["Emit", "NothingLost", "InOrder", "NothingEmpty", "Boundaries"]


def record(c, o):
    raw = core.deep_ints(c["raw"])
    return {"raw": raw, "obs": {"err": o["err"], "col": o.get("col", [])}, "others": [o.get("list"), o.get("deque")] if o["err"] == "" else []}


def run(c):
    d = 5 if core.THOROUGH else 4
    t = core.mc("MCCollect", {"Depth": d, "Emitting": "TRUE"}, INV)
    c.spec_states(t)
    c.replay("lists of fragments enumerated by the model", list(t.json()), lambda x: raws.collect_case(x["raw"]), raws.collect_agree)
    c.exhaustive.append("all lists of up to %d fragments of 13 shapes" % d)
    n = 4000 if core.THOROUGH else 500
    cases = [raws.collect_case(raws.fragments(c.rng, c.rng.choice([0, 1, 2, 5, 10, 20, 20, 40]))) for _ in range(n)]
    c.record("random lists of fragments", "TraceCollect", cases, record)
    c.record("long lists of fragments", "TraceCollect", [raws.collect_case(raw) for raw in scale.collections(c)], record)
