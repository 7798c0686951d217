------------------------------ MODULE MCCollect ------------------------------
(* Every list of up to Depth fragments over a few combinations of times, fades  *)
(* and positions; what collecting gives is checked against a declarative        *)
(* account, and printed for replay.                                             *)
EXTENDS Collect, Json

CONSTANTS Depth, Emitting

S(n) == <<n, 0, 1000, 1>>
PA == <<TopOfSubtitle, <<0>>, <<>>, <<>>>>
PB == <<TopOfSubtitle, <<1>>, <<>>, <<>>>>
PC == <<Top, <<1>>, <<23>>, <<>>>>
PC2 == <<Top, <<1>>, <<24>>, <<>>>>
PC3 == <<Top, <<1>>, <<>>, <<>>>>
PD == <<Top, <<>>, <<>>, <<1>>>>
PD2 == <<Bottom, <<>>, <<>>, <<1>>>>
PE == <<-1, <<>>, <<>>, <<>>>>

Shape == <<
    [f |-> S(1), o |-> S(3), fu |-> <<>>, fd |-> <<>>, v |-> PA],
    [f |-> S(1), o |-> S(3), fu |-> <<>>, fd |-> <<>>, v |-> PB],
    [f |-> S(1), o |-> S(4), fu |-> <<>>, fd |-> <<>>, v |-> PA],
    [f |-> S(2), o |-> S(3), fu |-> <<>>, fd |-> <<>>, v |-> PA],
    [f |-> <<1, 0, 25, 1>>, o |-> <<3, 0, 24, 1>>, fu |-> <<>>, fd |-> <<>>, v |-> PA],
    [f |-> S(1), o |-> S(3), fu |-> <<S(1)>>, fd |-> <<>>, v |-> PA],
    [f |-> S(1), o |-> S(3), fu |-> <<>>, fd |-> <<S(1)>>, v |-> PA],
    [f |-> S(1), o |-> S(3), fu |-> <<>>, fd |-> <<>>, v |-> PE],
    [f |-> S(1), o |-> S(3), fu |-> <<>>, fd |-> <<>>, v |-> PC],
    [f |-> S(1), o |-> S(3), fu |-> <<>>, fd |-> <<>>, v |-> PC2],
    [f |-> S(1), o |-> S(3), fu |-> <<>>, fd |-> <<>>, v |-> PD],
    [f |-> S(1), o |-> S(3), fu |-> <<>>, fd |-> <<>>, v |-> PD2],
    [f |-> <<0, 999, 1000, 1>>, o |-> S(3), fu |-> <<>>, fd |-> <<>>, v |-> PC3] >>

\* the i-th fragment has text and attributes of its own
Fragment(c, i) ==
    [t |-> B("t") \o DecOf(i), s |-> <<i % 2, (i \div 2) % 2, (i % 3) % 2>>, c |-> <<i, 2 * i, 255>>,
     e |-> (CASE i % 3 = 0 -> "" [] i % 3 = 1 -> "border" [] OTHER -> "shadow"),
     ec |-> IF i % 2 = 0 THEN <<>> ELSE << <<i, 0, 7>> >>, fn |-> IF i % 2 = 1 THEN <<>> ELSE << B("f") \o DecOf(i) >>,
     fs |-> <<"pt", i>>, h |-> <<i % 3, i>>, v |-> Shape[c].v, f |-> Shape[c].f, o |-> Shape[c].o, fu |-> Shape[c].fu, fd |-> Shape[c].fd]

VARIABLES inp, Raws, Out, Order
vars == <<inp, Raws, Out, Order>>
Init == inp = <<>> /\ Raws = <<>> /\ Out = <<>> /\ Order = <<>>

(* ---- the declarative account ---- *)

\* i comes before j in the result
Earlier(q, i, j) == Before(q[i], q[j]) \/ (~Before(q[j], q[i]) /\ i < j)
Rank(q, i) == 1 + Cardinality({ j \in 1..Len(q) : Earlier(q, j, i) })
OrderOf(q) == LET rank == [i \in 1..Len(q) |-> Rank(q, i)] IN [k \in 1..Len(q) |-> CHOOSE i \in 1..Len(q) : rank[i] = k]

Next == /\ Len(inp) < Depth
        /\ \E c \in 1..Len(Shape) :
              /\ inp' = Append(inp, c)
              /\ Raws' = Append(Raws, Fragment(c, Len(inp) + 1))
              /\ Out' = CollectAll(Raws')
              /\ Order' = OrderOf(Raws')
Spec == Init /\ [][Next]_vars

RECURSIVE BlocksOfLines(_)
BlocksOfLines(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls).b \o BlocksOfLines(Tail(ls))
RECURSIVE BlocksOf(_)
BlocksOf(subs) == IF subs = <<>> THEN <<>> ELSE BlocksOfLines(Head(subs).l) \o BlocksOf(Tail(subs))

NothingLost == BlocksOf(Out) = [k \in 1..Len(inp) |-> Block(Raws[Order[k]])]
InOrder == \A i, j \in 1..Len(Out) : i < j => ~Before(Out[j], Out[i])
NothingEmpty == \A i \in 1..Len(Out) : Out[i].l # <<>> /\ \A j \in 1..Len(Out[i].l) : Out[i].l[j].b # <<>>

Boundaries ==
    \* where one block ends a subtitle or a line is told by the fragments on both sides
    LET place[k \in 1..Len(inp)] ==
            IF k = 1 THEN <<1, 1, 1>>
            ELSE LET p == place[k - 1]
                 IN  IF p[3] < Len(Out[p[1]].l[p[2]].b) THEN <<p[1], p[2], p[3] + 1>>
                     ELSE IF p[2] < Len(Out[p[1]].l) THEN <<p[1], p[2] + 1, 1>> ELSE <<p[1] + 1, 1, 1>>
    IN  \A k \in 1..Len(inp) :
          LET r == Raws[Order[k]]
          IN  /\ place[k][3] = 1 => Out[place[k][1]].l[place[k][2]].h = r.h /\ Out[place[k][1]].l[place[k][2]].v = r.v
              /\ place[k][3] = 1 /\ place[k][2] = 1 =>
                    LET s == Out[place[k][1]] IN <<s.f, s.o, s.fu, s.fd>> = <<r.f, r.o, r.fu, r.fd>>
              /\ k > 1 =>
                    LET q == Raws[Order[k - 1]]
                        same == SameTime(q.f, r.f) /\ SameTime(q.o, r.o) /\ SameOptTime(q.fu, r.fu) /\ SameOptTime(q.fd, r.fd)
                    IN  /\ (place[k][1] = place[k - 1][1]) = same
                        \* agreement of positions is not transitive where one leaves out how many lines there are
                        /\ same /\ (q.v[3] # <<>> \/ q.v[2] = <<>> \/ q.v = PA \/ q.v = PB) =>
                             (place[k][2] = place[k - 1][2]) = SamePosition(q.v, r.v)

Emit == Emitting => PrintT(ToJson([raw |-> Raws, x |-> Out]))
==============================================================================
