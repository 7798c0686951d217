"""C05: SubRip inline markup."""
import core, edits, scale, srt

INV = ["Emit", "CharView", "NoEmptyText", "StackIsOpenFonts"]


def run(c):
    for alphabet, quick, deep in ("main", 4, 5), ("second", 3, 4), ("fonts", 6, 7):
        d = deep if core.THOROUGH else quick
        t = core.mc("MCSubRipMarkup", {"Depth": d, "Emitting": "TRUE", "Alphabet": '"%s"' % alphabet}, INV)
        c.spec_states(t)
        c.replay("texts enumerated by the model (%s)" % alphabet, list(t.json()), srt.to_case("string"), srt.agree, describe=srt.describe)
        c.exhaustive.append("all texts of up to %d chunks of the alphabet %s" % (d, alphabet))

    n = 8000 if core.THOROUGH else 800
    cases = [srt.case(srt.document(c.rng, cues=c.rng.randrange(1, 3)), c.rng.choice(["string", "file"])) for _ in range(n)]
    c.record("random files", "TraceSubRip", cases, srt.record, describe=srt.describe_rec)
    edits.run(c, "srt", b"1\n00:00:01,000 --> 00:00:02,500\n<i>a</i> <font color=\"#102030\">b</font>{b}c{/b}<u>d\n{\\an8}e\n<font color=\"rgba(1,2,3,255)\">f\n")
    scale.run(c, "srt", ["marks in a row", "fonts within fonts", "fonts within fonts over rows", "brace tags in a row"])
