"""Cases for ISO 6937 conversion."""
import core


def dollar(l):
    return [36 if b == 164 else b for b in l]


def op(o):
    return ["d", bytes(o[1]).hex()] if o[0] == "d" else ["e", list(o[1])]


def case(ops, fork=0):
    c = {"op": "iso", "ops": [op(o) for o in ops]}
    if fork:
        c["fork"] = 1
    return c


def same(o, want, got):
    return want == got if o[0] == "d" else dollar(got) == want


def agree(ops, want, o):
    return o["err"] == "" and len(o["res"]) == len(ops) and all(same(p, w, g) for p, w, g in zip(ops, want, o["res"]))


def record(c, o):
    ops = [["d", list(bytes.fromhex(p[1]))] if p[0] == "d" else p for p in c["ops"]]
    return {"ops": ops, "obs": {k: v for k, v in o.items() if k in ("err", "res")}}
