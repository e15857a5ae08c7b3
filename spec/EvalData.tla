---- MODULE EvalData ----
(* Evaluation data: rows of logged steps with what the models say about them.

   A page is a sequence of rows.  c: algo, A, M (metrics besides the reward), tables q[s][a] (greedy values),
   cq[s][m][a] and rw[s][m][a] (m = 1 the reward), boost[a], temp, gamma (all fixed point)
   a logged row x: [s, a (position among its candidates), cand (its candidate actions), mask, p, r, met, mdp, seq]  *)
EXTENDS FixMath, FiniteSets, TLC
One(v) == <<v>>
OverCand(x, f) == [k \in 1..Len(x.cand) |-> f[x.cand[k]]]
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
Metrics(c, x, tab) == Cat([m \in 1..c.M |-> OverCand(x, tab[x.s][m + 1])], c.M)
Chosen(c, x, tab) == [m \in 1..c.M |-> tab[x.s][m + 1][x.cand[x.a]]]
Allowed(x) == {k \in 1..Len(x.mask) : x.mask[k] = 1}
Scaled(c, x) == [k \in 1..Len(x.cand) |-> c.q[x.s][x.cand[k]] \div c.temp]
(* the row the evaluation should hold; fields left out are not judged *)
Row(c, x) ==
  LET dqn == c.algo = "dqn"  act == x.cand[x.a]  val == IF dqn THEN c.cq[x.s][1] ELSE c.q[x.s] IN
  [mdp |-> x.mdp, seq |-> x.seq, p |-> x.p, r |-> x.r + (IF dqn THEN c.boost[act] ELSE 0), met |-> x.met,
   am |-> [k \in 1..Len(x.cand) |-> IF k = x.a THEN Unit ELSE 0], pam |-> [k \in 1..Len(x.mask) |-> x.mask[k] * Unit],
   mr |-> OverCand(x, c.rw[x.s][1]), mrl |-> c.rw[x.s][1][act], mv |-> OverCand(x, val), mvl |-> val[act], oq |-> OverCand(x, c.q[x.s]),
   mp |-> SoftmaxOver(Scaled(c, x), Allowed(x)), mm |-> Metrics(c, x, c.rw), mmv |-> IF dqn THEN Metrics(c, x, c.cq) ELSE <<>>,
   mml |-> IF dqn THEN Chosen(c, x, c.rw) ELSE <<>>, mmvl |-> IF dqn THEN Chosen(c, x, c.cq) ELSE <<>>]
(* ---- order ---- *)
Before(x, y, i, j) == x.mdp < y.mdp \/ (x.mdp = y.mdp /\ (x.seq < y.seq \/ (x.seq = y.seq /\ i < j)))
Place(P, i) == Cardinality({j \in 1..Len(P) : Before(P[j], P[i], j, i)}) + 1
Sorted(P) == [k \in 1..Len(P) |-> P[CHOOSE i \in 1..Len(P) : Place(P, i) = k]]
Broken(P) == \E i, j, k \in 1..Len(P) : i < j /\ j < k /\ P[i].mdp = P[k].mdp /\ P[i].mdp # P[j].mdp
Disordered(P) == \E i \in 1..(Len(P) - 1) : P[i].mdp = P[i + 1].mdp /\ P[i].seq >= P[i + 1].seq
Valid(P) == ~Broken(P) /\ ~Disordered(P)
(* ---- values: the discounted sum of this and all later steps of the episode ---- *)
RECURSIVE Pow(_, _)
Pow(g, k) == IF k = 0 THEN Unit ELSE Mul(Pow(g, k - 1), g)
Later(P, i) == {j \in 1..Len(P) : P[j].mdp = P[i].mdp /\ P[j].seq >= P[i].seq}
Value(P, i, f, g) == SumSeq([j \in 1..Len(P) |-> IF j \in Later(P, i) THEN Mul(f[j], Pow(g, P[j].seq - P[i].seq)) ELSE 0])
(* backward recursion over rows in order *)
RECURSIVE Back(_, _, _, _)
Back(P, i, f, g) == f[i] + (IF i < Len(P) /\ P[i + 1].mdp = P[i].mdp THEN Mul(Back(P, i + 1, f, g), Pow(g, P[i + 1].seq - P[i].seq)) ELSE 0)
====
