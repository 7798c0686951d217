----------------------------- MODULE MCSTLBRead -----------------------------
(* Every list of blocks made of up to Depth chunks: characters, codes, row        *)
(* breaks, end marks, extension blocks, comment blocks and new subtitles.         *)
EXTENDS STLBinary, Json

CONSTANTS Depth, Narrow, MaxRows

C(kk, x, b) == [k |-> kk, x |-> x, b |-> b]

Sym == <<
    C("a", 0, <<97>>),
    C("row", 0, <<138>>),
    C("italic", 1, <<128>>),
    C("italic", 0, <<129>>),
    C("colour", 3, <<3>>),
    C("end", 0, <<143>>),
    C("ext", 0, <<>>),                  \* the text goes on in another block
    C("accent", 0, <<193>>),
    C("sub", 0, <<>>),                  \* another subtitle
    C("e", 0, <<194, 101>>),            \* e acute
    C("under", 1, <<130>>),
    C("under", 0, <<131>>),
    C("colour", 0, <<0>>),
    C("none", 0, <<166>>),              \* an unassigned code
    C("colour", 7, <<7>>),
    C("comment", 0, <<>>) >>            \* a comment block comes between, as does a block boundary

Shapes == CASE Narrow = "all" -> 1..Len(Sym) [] Narrow = "style" -> {1, 2, 3, 4, 5} [] Narrow = "join" -> {1, 2, 6, 7, 8, 3}

VARIABLES inp
vars == <<inp>>
Init == inp = <<>>
Next == Len(inp) < Depth /\ \E c \in Shapes : inp' = Append(inp, c)
Spec == Init /\ [][Next]_vars

K(j) == Sym[inp[j]].k
X(j) == Sym[inp[j]].x

(* ---- the blocks ---- *)

SubNo(j) == Cardinality({ i \in 1..(j - 1) : K(i) = "sub" })
Vps == <<20, 3, 0, 22, 7>>
Blk(n, ebn, cf, t) == [ebn |-> ebn, tci |-> <<0, n, 1, 24 - n>>, tco |-> <<1, 0, 59, n>>, vp |-> Vps[(n % 5) + 1], jc |-> (n + 2) % 5, cf |-> cf, text |-> t]

RECURSIVE BlocksFrom(_, _, _)
BlocksFrom(j, t, k) ==
    IF j > Len(inp) THEN << Blk(SubNo(j), 255, 0, t) >>
    ELSE CASE K(j) = "sub" -> << Blk(SubNo(j), 255, 0, t) >> \o BlocksFrom(j + 1, <<>>, 0)
           [] K(j) = "ext" -> << Blk(SubNo(j), k, 0, t) >> \o BlocksFrom(j + 1, <<>>, k + 1)
           [] K(j) = "comment" -> << Blk(SubNo(j), k, 0, t), Blk(9, 255, 1, <<97, 138, 128>>) >> \o BlocksFrom(j + 1, <<>>, k + 1)
           [] OTHER -> BlocksFrom(j + 1, t \o Sym[inp[j]].b, k)
Blocks == BlocksFrom(1, <<>>, 0)

Header == [rate |-> <<25, 1>>, rows |-> MaxRows, tti |-> Len(Blocks), fields |-> [i \in 1..13 |-> 0], strings |-> [i \in 1..16 |-> <<>>]]

\* as if read from a file, where the blocks' texts are trimmed
RECURSIVE Machine(_, _)
Machine(st, n) == IF n > Len(Blocks) THEN st ELSE Machine(ReadBlock(st, [Blocks[n] EXCEPT !.text = RTrim(@, {Unused})]), n + 1)
Final == Machine(BStart(Header), 1)
OutSubs == LET d == Shift(Final) IN TLCEval([i \in 1..Len(Final.subs) |-> [Final.subs[i] EXCEPT !.v[2] = <<@[1] - d>>]])

(* ---- what each character should be ---- *)

Boundary(j) == K(j) \in {"ext", "comment"}
\* an end mark with nothing but end marks between it and the end of a block that is continued
Slack(j) == K(j) = "end" /\ \E b \in (j + 1)..Len(inp) : Boundary(b) /\ \A x \in j..(b - 1) : K(x) = "end" \/ Boundary(x)
Gone(j) == Boundary(j) \/ Slack(j)
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
Before(j) == { i \in 1..(j - 1) : ~Gone(i) }
Prev(j) == IF Before(j) = {} THEN "start" ELSE K(Last(Before(j)))
SameSub(j) == { i \in 1..(j - 1) : \A x \in i..(j - 1) : K(x) # "sub" }
SameRow(j) == { i \in SameSub(j) : \A x \in i..(j - 1) : K(x) # "row" }

Hidden(j) == \E i \in SameRow(j) : K(i) = "end" /\ ~Slack(i)
\* the last code of kind kk among those in S that are read
Code(S, kk, def) == LET T == { i \in S : K(i) = kk /\ ~Hidden(i) } IN IF T = {} THEN def ELSE X(Last(T))

RowsOf(n) == Cardinality({ i \in 1..Len(inp) : K(i) = "row" /\ SubNo(i) = n })
SubsN == SubNo(Len(inp) + 1)
Lowest == CHOOSE x \in { Vps[(n % 5) + 1] + RowsOf(n) : n \in 0..SubsN } : \A n \in 0..SubsN : Vps[(n % 5) + 1] + RowsOf(n) <= x
Up == IF Lowest > MaxRows THEN Lowest - MaxRows ELSE 0

CharAt(j) == [ch |-> CASE K(j) = "e" -> 233 [] Prev(j) = "accent" -> 224 [] OTHER -> 97,
              s |-> <<0, Code(SameSub(j), "italic", 0), Code(SameSub(j), "under", 0)>>,
              c |-> Colours[Code(SameRow(j), "colour", 7) + 1],
              row |-> Vps[(SubNo(j) % 5) + 1] + Cardinality({ i \in SameSub(j) : K(i) = "row" }) - Up,
              f |-> <<SubNo(j) * 60 + 1, 24 - SubNo(j), 25, 1>>, o |-> <<3659, SubNo(j), 25, 1>>,
              h |-> CASE (SubNo(j) + 2) % 5 = 1 -> Left [] (SubNo(j) + 2) % 5 = 3 -> Right [] OTHER -> Centre]
RECURSIVE WantFrom(_)
WantFrom(j) == IF j > Len(inp) THEN <<>> ELSE (IF K(j) \in {"a", "e"} /\ ~Hidden(j) THEN <<CharAt(j)>> ELSE <<>>) \o WantFrom(j + 1)

CharsOf(r) == LET u == Utf8(r.t) IN [n \in 1..Len(u) |-> [ch |-> u[n], s |-> r.s, c |-> r.c, row |-> r.v[2][1], f |-> r.f, o |-> r.o, h |-> r.h[1]]]
RECURSIVE GotFrom(_)
GotFrom(q) == IF q = <<>> THEN <<>> ELSE CharsOf(Head(q)) \o GotFrom(Tail(q))

\* C12
CharView == GotFrom(OutSubs) = WantFrom(1)
Positions == \A i \in 1..Len(OutSubs) : OutSubs[i].v[1] = Top /\ OutSubs[i].v[3] = <<MaxRows>> /\ OutSubs[i].h[2] = 0 /\ OutSubs[i].t # <<>>

Emit == PrintT(ToJson([blocks |-> Blocks, rows |-> MaxRows, subs |-> OutSubs]))
=============================================================================
