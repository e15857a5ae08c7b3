---- MODULE MC_Serving ----
(* Laws of serving, over small models: missing values do not matter, neither does the order in which features are declared,
   an action comes back to the network's own scale, the best allowed action is what it says, choosing greedily by determinants never repeats. *)
EXTENDS Serving, TLC
CONSTANTS Deep
VARIABLES kind, a, b, c
vars == <<kind, a, b, c>>
F(i) == CASE i = 1 -> [id |-> 4, ty |-> "CONTINUOUS", mean |-> Unit, std |-> 2 * Unit]
          [] i = 2 -> [id |-> 2, ty |-> "ENUM", values |-> <<Unit, 3 * Unit>>]
          [] i = 3 -> [id |-> 9, ty |-> "BINARY"]
          [] OTHER -> [id |-> 1, ty |-> "QUANTILE", q |-> <<0, Unit, 4 * Unit>>]
Values == {0 - Unit, 0, Unit, 3 * Unit}
N == IF Deep THEN 4 ELSE 3
Acts == {[ty |-> "CONTINUOUS_ACTION", min |-> m, max |-> m + w] : m \in {0 - 2 * Unit, 0, 5 * Unit}, w \in {Unit \div 2, 3 * Unit}}
Init == \/ kind = "norm" /\ a \in [1..N -> Values] /\ b \in [1..N -> {0, 1}] /\ c \in Permutations(1..N)
        \/ kind = "act" /\ a \in Acts /\ b \in {k * 512 : k \in -20..20} /\ c = 0
        \/ kind = "tanh" /\ a \in {k * 700 : k \in -60..60} /\ b = 0 /\ c = 0
        \/ kind = "best" /\ a \in [1..3 -> {0 - Unit, 0, Unit}] /\ b \in [1..3 -> {0, 1}] /\ c = 0
        \/ kind = "det" /\ a \in [1..3 -> {Unit \div 2, Unit, 3 * (Unit \div 2)}] /\ b \in [1..3 -> {<<Unit, 0>>, <<0, Unit>>, <<3 * Unit, 4 * Unit>>}] /\ c \in {Unit \div 4, Unit}
        \/ kind = "pool" /\ a \in [1..2 -> {7, 9}] /\ b \in {1, 2} /\ c \in {Unit, 3 * Unit}
Next == UNCHANGED vars
Declared(p) == [i \in 1..N |-> F(p[i])]
Id == [i \in 1..N |-> i]
Other(x) == [i \in 1..N |-> IF b[i] = 0 THEN 17 * Unit ELSE x[i]]
Same == kind = "norm" =>
  LET ly == Layout(Declared(c)) IN
  /\ ly = Layout(Declared(Id))
  /\ Normal(ly, a, b) = Normal(ly, Other(a), b)
  /\ Len(Normal(ly, a, b)) = Outputs(ly)
  /\ \A q \in 1..N : b[q] = 0 => \A k \in 1..Width(ly[q]) : Normal(ly, a, b)[Starts(ly)[q] + k] = 0
Scales == kind = "act" => LET u == Post(a, b) IN a.min <= u /\ u <= a.max /\ Near(Column(a, u)[1], Clip(b, 0 - Unit, Unit), 24)
Squash == kind = "tanh" => Tanh(0 - a) = 0 - Tanh(a) /\ Abs(Tanh(a)) <= Unit /\ Tanh(a) <= Tanh(a + 700) + 1
Choice == (kind = "best" /\ \E i \in 1..3 : b[i] = 1) => LET G == Greedy(a, b, 0) IN G # {} /\ \A i \in G : b[i] = 1 /\ \A j \in 1..3 : b[j] = 1 => a[j] <= a[i]
(* a kernel of alpha at most one has no negative principal minor, and two alike items are worth less together *)
Positive == kind = "det" => LET K == Kernel(a, b, c) IN
  /\ \A i \in 1..3, j \in 1..3 : Abs(K[i][j] - K[j][i]) <= 4
  /\ Det(K) >= 0 - 64
  /\ Det(Sub(K, <<1, 2>>)) <= Mul(K[1][1], K[2][2]) + 8
Pools == kind = "pool" => LET T == <<<<Unit, 2 * Unit>>, <<0, 5 * Unit>>>>  L == [j \in 1..b |-> [id |-> a[j], w |-> c]] IN
  Pool(T, <<9, 7>>, L, 2) = [k \in 1..2 |-> SumSeq([j \in 1..b |-> IF a[j] = 9 THEN Mul(c, T[1][k]) ELSE Mul(c, T[2][k])])]
====
