"""Small changes to small files."""
import re
import core, srt, vtt, ssa, stlt

MODULE = {"srt": "TraceSubRip", "vtt": "TraceWebVTT", "ssa": "TraceSSA", "stlt": "TraceSTLText"}
SRC = {"srt": ["string", "file"], "vtt": ["string", "file"], "ssa": ["string", "file"], "stlt": ["istream"]}
SPECIAL = [0, 10, 13, 32, 44, 58, 46, 60, 62, 92, 123, 125, 45, 48, 57, 34, 61, 65, 94, 124, 239, 255]


def hot(d):
    """Positions behind the first (and the last) of each kind of punctuation mark, and the first and last byte"""
    at = {0, len(d)}
    for b in set(d):
        if not chr(b).isalnum():
            at.add(d.index(b) + 1)
            at.add(d.rindex(b) + 1)
    return sorted(at)


def edits(r, d, th):
    out = set()
    for i in range(len(d) + 1):
        out |= {d[:i] + d[i + 1:], d[:i] + d[i:i + 1] + d[i:]}
        for b in (range(256) if th else r.sample(SPECIAL, 4) + r.sample(range(33, 127), 4)):
            out |= {d[:i] + bytes([b]) + d[i + 1:], d[:i] + bytes([b]) + d[i:]}
    for i in hot(d):
        for b in range(256):
            out |= {d[:i] + bytes([b]) + d[i + 1:]}
            if th or b in SPECIAL or r.random() < .25:
                out |= {d[:i] + bytes([b]) + d[i:]}
    # (what a colour with a sign, blanks or 0x in it is, is nobody's business)
    return sorted(x for x in out if not re.search(rb"&H[&H]*([ \t\v\f\r\n+-]|0[xX])", x))


def case(r, fmt, x):
    src = r.choice(SRC[fmt])
    return ssa.case(x, 288, 288, src) if fmt == "ssa" else stlt.case(x, src) if fmt == "stlt" else dict(srt.case(x, src), fmt=fmt)


def run(c, fmt, d):
    """d and everything one small change away from it; in quick runs each position with a few bytes, and each byte
    at the positions that follow a mark"""
    xs = edits(c.rng, d, core.THOROUGH)
    c.record("small changes to a small %s file" % fmt, MODULE[fmt], [case(c.rng, fmt, x) for x in xs], srt.record, describe=srt.describe_rec)
    c.exhaustive.append("%s byte replaced behind each kind of mark of a file of %d bytes" % ("every" if not core.THOROUGH else "every byte inserted or replaced everywhere, every", len(d)))
