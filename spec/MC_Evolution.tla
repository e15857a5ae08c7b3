---- MODULE MC_Evolution ----
(* Two members on a line, mutated by fixed opposite noise: every schedule of rewards of two workers over two epochs. *)
EXTENDS Evolution, TLC, Json
CONSTANT Levels, Epochs
VARIABLES r, k, parent, opt, moved
vars == <<r, k, parent, opt, moved>>
c == [P |-> 2, pn |-> 4, pd |-> 8, lr |-> Unit \div 8]
Init == r \in [1..Epochs -> [1..2 -> [1..2 -> Levels]]] /\ k = 0 /\ parent = <<0>> /\ opt = Blank(1) /\ moved = 0
Pop == <<<<parent[1] + 4096>>, <<parent[1] - 2048>>>>
Fx(x) == [i \in 1..2 |-> x[i] * Unit]
Now == Shared([w \in 1..2 |-> Fx(r[k + 1][w])])
Next == k < Epochs /\ k' = k + 1 /\ UNCHANGED r /\
  IF Flat(Now) THEN UNCHANGED <<parent, opt>> /\ moved' = 0
  ELSE LET o == Learn(opt, Grad(c, parent, Pop, Now)) IN opt' = o /\ parent' = <<parent[1] + Moved(c, o, 1)>> /\ moved' = Moved(c, o, 1)
Spec == Init /\ [][Next]_vars
(* the first move is one step toward the better member *)
FirstMove == (k = 1 /\ moved # 0) => LET s == Shared([w \in 1..2 |-> Fx(r[1][w])]) IN
   Abs(Abs(moved) - c.lr) <= 4 /\ ((s[1] > s[2]) <=> (moved > 0))
(* no move exceeds what Adam allows *)
Bounded == Abs(moved) <= 2 * c.lr
(* equal rewards: nothing moves *)
Stays == k > 0 /\ Flat(Shared([w \in 1..2 |-> Fx(r[k][w])])) => moved = 0
Emit == (k = 0) => PrintT("GEN " \o ToJson([r |-> r]))
Still == FALSE /\ UNCHANGED vars
====
