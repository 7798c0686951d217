--------------------------------- MODULE Raw ---------------------------------
(* Raw subtitle fragments: what every reader produces.                        *)
(*                                                                            *)
(*   t   text (bytes)              s   <<bold, italic, underline>> as 0/1     *)
(*   c   colour <<r, g, b>>        e   effect: "" | "border" | "shadow"       *)
(*   ec  <<>> or <<effect colour>> fn  <<>> or <<font name>>                  *)
(*   fs  font size <<kind, n>>: <<"", 0>>, <<"pt", points>> or                *)
(*       <<"pr", n>> for n / V of the screen's height                         *)
(*   h   <<reference, n>>: n / H of the screen's width from the reference     *)
(*   v   <<reference, line, lines, n>>: each of the last three <<>> or <<x>>, *)
(*       n / V of the screen's height; reference -1 if there is none          *)
(*   f, o, fu, fd  from, to and fades: <<seconds, frames, rate>> ...          *)
(*                                                                            *)
(* Fractions of the screen are counted in units 1/V and 1/H where V and H are *)
(* 20 times the script's resolution, so that everything stays integer.        *)
EXTENDS Bytes

Left == 0
Centre == 1
Right == 2

Top == 0
Middle == 1
Bottom == 2
TopOfSubtitle == 3

White == <<255, 255, 255>>

\* Times are <<seconds, frames, rate numerator, rate denominator>>; 0/0 without a rate
ZeroTime == <<0, 0, 0, 0>>
MsTime(h, m, s, ms) == <<h * 3600 + m * 60 + s, ms, 1000, 1>>

NoSize == <<"", 0>>

DefaultRaw == [
    t |-> <<>>, s |-> <<0, 0, 0>>, c |-> White, e |-> "", ec |-> <<>>, fn |-> <<>>,
    fs |-> NoSize, h |-> <<Centre, 0>>, v |-> <<-1, <<>>, <<>>, <<>>>>,
    f |-> ZeroTime, o |-> ZeroTime, fu |-> <<>>, fd |-> <<>> ]

SetBold(r, x) == [r EXCEPT !.s[1] = x]
SetItalic(r, x) == [r EXCEPT !.s[2] = x]
SetUnderline(r, x) == [r EXCEPT !.s[3] = x]
==============================================================================
