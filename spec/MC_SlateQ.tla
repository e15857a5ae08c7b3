---- MODULE MC_SlateQ ----
(* One learning step on every single-row batch of two candidates and slates of up to two. *)
EXTENDS SlateQ, TLC, Json
CONSTANT Rich
VARIABLES c, q, tq, B, done
vars == <<c, q, tq, B, done>>
Conf == [single: BOOLEAN, gamma: {8}, lr: {4}, tau: {4}]
Acts == {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>}
Mk(a, a2, r, m, vals2, nt, docs2) ==
  [s |-> 0, docs |-> <<0, 1>>, vals |-> <<0, 0>>, a |-> a, r |-> [i \in 1..Len(a) |-> r[i]], m |-> [i \in 1..Len(a) |-> m[i]],
   s2 |-> 1, docs2 |-> docs2, vals2 |-> vals2, a2 |-> a2, nt |-> nt]
Rows == {Mk(a, a2, r, m, v, nt, d) : a \in Acts, a2 \in Acts, r \in {<<Unit, 0>>, <<0 - Unit, Unit>>}, m \in {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>},
                                    v \in {<<0, 0>>, <<Unit, 2 * Unit>>}, nt \in {0, 1}, d \in {<<0, 1>>, <<1, 1>>}}
Good == {r \in Rows : Len(r.a) = Len(r.a2)}
Tables == {<<<<0, Unit>>, <<x, y>>>> : x \in {0 - Unit, 2 * Unit}, y \in {Unit}}
Init == c \in Conf /\ q \in {<<<<0, Unit>>, <<0, 0>>>>} /\ tq \in Tables /\ B \in {<<r>> : r \in Good} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ q' = Step(c, q, tq, B) /\ tq' = SoftTable(c, Step(c, q, tq, B), tq) /\ UNCHANGED <<c, B>>
Spec == Init /\ [][Next]_vars
R == B[1]
NQ == Step(c, q, tq, B)
Set(tab, s, d, v) == [tab EXCEPT ![s + 1][d + 1] = v]
(* the next slate's value depends on its own items only, and lies among their values when one is picked *)
OwnItems == ~done => \A d \in 0..1 : \A v \in {7 * Unit} : (d \notin {At(R.docs2, R.a2[i]) : i \in 1..Len(R.a2)} \/ R.nt = 0) => NextValue(c, Set(tq, 1, d, v), R) = NextValue(c, tq, R)
Between == (~done /\ c.single /\ R.nt = 1) => LET X == {tq[2][At(R.docs2, R.a2[i]) + 1] : i \in 1..Len(R.a2)} IN NextValue(c, tq, R) >= SMin(X) - 2 /\ NextValue(c, tq, R) <= SMax(X) + 2
Terminal == (~done /\ R.nt = 0) => \A i \in 1..Len(R.a) : Target(c, tq, R, i) = R.r[i]
(* only the learnt items of the logged state move, toward their own target *)
Moves == ~done => \A s \in 0..1, d \in 0..1 :
   LET mine == {p \in Positions(c, B) : CellOf(B, p) = <<s, d>>} IN
   /\ mine = {} => NQ[s + 1][d + 1] = q[s + 1][d + 1]
   /\ \A p \in mine : LET t == Target(c, tq, R, p[2]) IN NQ[s + 1][d + 1] >= Min2(t, q[s + 1][d + 1]) - 2 /\ NQ[s + 1][d + 1] <= Max2(t, q[s + 1][d + 1]) + 2
Emit == ~done => PrintT("GEN " \o ToJson([c |-> c, q |-> q, tq |-> tq, rows |-> B]))
====
