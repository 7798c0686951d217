"""C02: comparison of times."""
import core, times

INV = ["Emit", "Trichotomy", "NotEqualIsNegation", "Antisymmetric", "RefusedNotGuessed", "ExactOrder", "Transitive"]


def run(c):
    t = core.mc("MCSubTime", {"Emitting": "TRUE", "Laws": "TRUE" if core.THOROUGH else "FALSE"}, INV)
    c.spec_states(t)
    c.replay("pairs of times enumerated by the model", list(t.json()), lambda x: {"op": "timecmp", "a": x["a"], "b": x["b"]},
             lambda x, o: all(o[k] == v for k, v in x["x"].items()))
    c.exhaustive.append("all pairs of times from a set of about %d" % int(t.distinct ** .5))
    n = 40000 if core.THOROUGH else 6000
    cases = []
    for _ in range(n):
        a = times.time(c.rng, plain=.1)
        b = times.near(c.rng, a, .1)
        cases.append({"op": "timecmp", "a": a, "b": b})
    c.record("random pairs of times", "TraceSubTime", cases, times.record)
