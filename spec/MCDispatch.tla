---------------------------- MODULE MCDispatch ----------------------------
(* Names of files and kinds of content, and the reader they should get           *)
EXTENDS Sources, Json

Dirs == { <<>>, B("dir/"), B("d.srt/"), B("e.stl/x.txt/") }
Stems == { B("a"), B("a.b"), B("my.srt"), B("x.stl"), <<195, 169>>, B("a b") }
Upper(s, mask) == [i \in 1..Len(s) |-> IF mask[i] = 1 THEN s[i] - 32 ELSE s[i]]
Exts == { <<46>> \o Upper(e, m) : e \in {B("srt"), B("stl")}, m \in [1..3 -> 0..1] }
        \cup { <<>>, B("."), B(".txt"), B(".sr"), B(".srtx"), B(".xsrt"), B(".stl2"), B(".st"), B(".xml"), B(".s"), B("stl"), B("srt") }
Contents == { "srt", "stlt", "stlb", "dfc", "empty", "almost", "late", "short" }

\* the first bytes of each
HeadOf(c) == CASE c = "srt" -> B("1" ) \o <<LF>> \o B("00:00:01,000")
               [] c = "stlt" -> B("$Bold = False")
               [] c = "stlb" -> B("850STL25.01")
               [] c = "dfc" -> B("850STL77.01")        \* binary, but of an unknown kind
               [] c = "empty" -> <<>>
               [] c = "almost" -> B("850ST 25.010009")
               [] c = "late" -> B("8500STL25.010009")
               [] c = "short" -> B("850S")

VARIABLES dir, stem, ext, content
vars == <<dir, stem, ext, content>>
Init == dir \in Dirs /\ stem \in Stems /\ ext \in Exts /\ content \in Contents
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Name == dir \o stem \o ext
Kind == ReaderFor(Name, HeadOf(content))
\* neither the directory nor what comes before the last dot matters, nor the case
Alone == ext # <<>> /\ ext[1] = 46 => Kind = ReaderFor(B("z") \o ext, HeadOf(content))
AnyCase == Kind = ReaderFor(Lower(Name), HeadOf(content))
Emit == PrintT(ToJson([name |-> Name, c |-> content, kind |-> Kind]))
=============================================================================
