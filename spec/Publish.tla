---- MODULE Publish ----
(* What is published, and a training workflow from a logged table to a published model.
   store   possible answers per <<configuration, module>>: a set of files, 0 for "nothing published yet"
           (more than one only after a publication of several modules was refused midway)
   files   the model files that exist now *)
EXTENDS Tables
Held(store, k) == LET w == {x \in store : x[1] = k} IN IF w = {} THEN {0} ELSE (CHOOSE x \in w : TRUE)[2]
Set(store, k, v) == {x \in store : x[1] # k} \cup {<<k, v>>}
(* a publication names a file for each of its modules; it is refused unless all of them exist *)
Sound(files, outs) == \A i \in 1..Len(outs) : outs[i][2] \in files
RECURSIVE PutAll(_, _, _, _)
PutAll(store, files, m, outs) ==
  IF outs = <<>> THEN store
  ELSE LET k == <<m, outs[1][1]>>  f == outs[1][2] IN PutAll(Set(store, k, {f}), files, m, Tail(outs))
RECURSIVE MayPut(_, _, _, _)
MayPut(store, files, m, outs) ==
  IF outs = <<>> THEN store
  ELSE LET k == <<m, outs[1][1]>>  f == outs[1][2] IN MayPut(IF f \in files THEN Set(store, k, Held(store, k) \cup {f}) ELSE store, files, m, Tail(outs))
Publication(store, files, m, outs) == IF Sound(files, outs) THEN PutAll(store, files, m, outs) ELSE MayPut(store, files, m, outs)
(* shares asked of a table, in tenths of a percent; -1 when left open *)
Refused(w) == w.cpe = 1 /\ (w.share = -1 \/ w.other = -1 \/ w.share + w.other > 1000)
TrainHi(w) == IF w.share = -1 THEN 1000 ELSE w.share
EvalLo(w) == 1000 - w.other
(* what a workflow is given to start from: 0 a table, 1 its normalisation, 2 its prepared data, 3 both, 4 a table and a saved normalisation, 5 nothing though it cannot prepare data itself *)
Confused(w) == (w.give = 3) \/ (w.give = 5)
Fails(w) == Confused(w) \/ Refused(w)
(* stages in order, from beginning to end *)
Plan(w) == [i \in 1..w.epochs |-> "read"] \o <<"fit">> \o (IF w.tests = 1 /\ w.cpe = 1 THEN <<"read">> ELSE <<>>)
           \o (IF w.valid > 0 THEN <<"validate">> ELSE <<>>) \o (IF w.pub > 0 /\ w.valid # 2 THEN <<"publish">> ELSE <<>>) \o <<"done">>
====
