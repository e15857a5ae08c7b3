---- MODULE MC_Slates ----
(* Laws of slate evaluation on small policies, and a policy whose weights change between questions:
   what was answered before never shows in what is answered now. *)
EXTENDS Slates
CONSTANTS M, Top, Steps
Rows == {w \in [1..M -> 0..Top] : Cardinality({i \in 1..M : w[i] > 0}) >= 2}
Two(w) == <<w, w>>
Sl == AllSlates(2, M)
ChOf(L) == [s \in Sl |-> Chance(L, FALSE, s)]
Eq(a, b, d) == Abs(a - b) <= d
(* a law is a law; slots keep their items apart; one slot's chances are the weights *)
ASSUME \A w \in Rows : LET ch == ChOf(Two(w))  E == Expect(Two(w), FALSE, 2) IN
   /\ Eq(SumSet(ch, Sl), Fine, Cardinality(Sl))
   /\ \A k \in 1..2 : Eq(SumSeq(E[k]), Fine, 2 * Cardinality(Sl))
   /\ \A i \in 1..M : Eq(E[1][i], Share(<<w[i], SumSeq(w)>>), 2 * M) /\ E[1][i] + E[2][i] <= Fine + 2 * Cardinality(Sl)
(* laws whose rows differ are laws too, and a greedy law has the one slate it picks *)
Pos == {w \in [1..M -> 1..Top] : TRUE}
ASSUME \A v, w \in Pos : Eq(SumSet(ChOf(<<v, w>>), Sl), Fine, Cardinality(Sl))
Strict == {w \in [1..M -> 1..(M + 1)] : \A i, j \in 1..M : i # j => w[i] # w[j]}
ASSUME \A v, w \in Strict : {s \in Sl : Odds(<<v, w>>, TRUE, s)[1] = 1} = {Picks(<<v, w>>, 2)}
(* importance sampling is right on average whenever the logging law can show what the target shows *)
C == [lo |-> 0, hi |-> 31 * Unit]
Reward(s) == s[1] * 2 + s[2]
Wt(T, L, s) == Weight(C, Odds(T, FALSE, s), Odds(L, FALSE, s))
Covered(T, L) == \A i \in 1..M : T[1][i] > 0 => L[1][i] > 0
ASSUME \A v, w \in Rows : LET T == Two(v)  L == Two(w) IN Covered(T, L) =>
   LET pT == ChOf(T)  pL == ChOf(L)
       ips == SumSet([s \in Sl |-> IF pL[s] = 0 THEN 0 ELSE Mul(Wt(T, L, s), pL[s] \div 128) * Reward(s)], Sl)
       tgt == SumSet([s \in Sl |-> (pT[s] \div 128) * Reward(s)], Sl)
       (* doubly robust with any model: right on average *)
       model(s) == s[1] + 3
       dm == SumSet([s \in Sl |-> (pT[s] \div 128) * model(s)], Sl)
       dr == dm + SumSet([s \in Sl |-> IF pL[s] = 0 THEN 0 ELSE Mul(Wt(T, L, s), pL[s] \div 128) * (Reward(s) - model(s))], Sl)
   IN /\ Eq(ips, tgt, 400) /\ Eq(dr, tgt, 600)
(* a law against itself weighs every slate the same; clamping keeps weights in its bounds *)
ASSUME \A w \in Rows : \A s \in Sl : Odds(Two(w), FALSE, s)[1] > 0 =>
   /\ Wt(Two(w), Two(w), s) = Unit
   /\ PositionWeight(C, Expect(Two(w), FALSE, 2), Expect(Two(w), FALSE, 2), s, <<Unit, Unit>>) = Unit
D == [lo |-> Unit \div 2, hi |-> 2 * Unit]
ASSUME \A v, w \in Rows : \A s \in Sl : LET x == Weight(D, Odds(Two(v), FALSE, s), Odds(Two(w), FALSE, s)) IN x \in {0, None} \/ (x >= D.lo /\ x <= D.hi)
(* metrics: the ideal order scores one; a better relevance never scores less *)
Rel == [1..3 -> 0..2]
ASSUME \A r \in Rel : (Ideal(r, 3) > 0) => Eq(Metric("ndcg", Sorted(r), r, 2), Unit, 4)
ASSUME \A r \in Rel : \A k \in 1..3 : r[k] < 2 => \A name \in {"sum", "dcg"} : Metric(name, [r EXCEPT ![k] = @ + 1], r, 2) > Metric(name, r, r, 2)
ASSUME \A r \in Rel : LET e == Metric("err", r, r, 2) IN e >= 0 /\ e <= Unit
ASSUME \A r \in Rel : \A k \in 1..2 : r[k] < r[k + 1] => LET x == [r EXCEPT ![k] = r[k + 1], ![k + 1] = r[k]] IN Metric("err", x, r, 2) >= Metric("err", r, r, 2) - 4 /\ Metric("dcg", x, r, 2) > Metric("dcg", r, r, 2)
(* ---- a law in use ---- *)
VARIABLES w, table, k, said
vars == <<w, table, k, said>>
Init == w \in Rows /\ table = <<>> /\ k = 0 /\ said = <<>>
Set(v) == w' = v /\ table' = <<>> /\ UNCHANGED said
(* the table is kept until the weights change; fewer slots read its first rows *)
Ask(n) == LET T == IF Len(table) >= n THEN table ELSE Expect(Two(w), FALSE, n) IN table' = T /\ said' = SubSeq(T, 1, n) /\ UNCHANGED w
Next == k < Steps /\ k' = k + 1 /\ ((\E v \in Rows : Set(v)) \/ (\E n \in 1..2 : Ask(n)))
Spec == Init /\ [][Next]_vars
Fresh == table # <<>> => table = Expect(Two(w), FALSE, Len(table))
AskedRight == [][\A n \in 1..2 : Ask(n) => said' = Expect(Two(w), FALSE, n)]_vars
====
