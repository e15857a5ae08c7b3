---- MODULE MC_Publish ----
(* several trainings publish into one store, from several places, while files come and go *)
EXTENDS Publish, TLC, Json
CONSTANTS N, Confs, Modules, Files
VARIABLES store, files, last, n, ops
vars == <<store, files, last, n, ops>>
Outs == {<<<<a, f>>>> : a \in Modules, f \in Files} \cup {<<<<1, f>>, <<2, g>>>> : f \in Files, g \in Files}
Init == store = {} /\ files = Files /\ last = [c \in Confs |-> [a \in Modules |-> 0]] /\ n = 0 /\ ops = <<>>
Pub(m, outs) == /\ store' = Publication(store, files, m, outs)
                /\ last' = IF Sound(files, outs) THEN [last EXCEPT ![m] = [a \in Modules |-> IF \E i \in 1..Len(outs) : outs[i][1] = a THEN (outs[CHOOSE i \in 1..Len(outs) : outs[i][1] = a])[2] ELSE @[a]]] ELSE last
                /\ UNCHANGED files /\ ops' = Append(ops, [op |-> "pub", m |-> m, outs |-> outs, f |-> 0, by |-> 1])
Turn(f) == files' = (IF f \in files THEN files \ {f} ELSE files \cup {f}) /\ UNCHANGED <<store, last>> /\ ops' = Append(ops, [op |-> "turn", m |-> 0, outs |-> <<>>, f |-> f, by |-> 0])
Get(m, a, by) == UNCHANGED <<store, files, last>> /\ ops' = Append(ops, [op |-> "get", m |-> m, outs |-> <<>>, f |-> a, by |-> by])
Next == n < N /\ n' = n + 1 /\ ((\E m \in Confs : \E o \in Outs : Pub(m, o)) \/ (\E f \in Files : Turn(f)) \/ (\E m \in Confs : \E a \in Modules : \E by \in {1, 2} : Get(m, a, by)))
(* the latest sound publication of just that configuration and module can always be found, and nothing that never was published *)
Found == \A m \in Confs : \A a \in Modules : last[m][a] \in Held(store, <<m, a>>)
          \/ \E i \in 1..Len(ops) : ops[i].op = "pub" /\ ops[i].m = m /\ Len(ops[i].outs) = 2
Known == \A x \in store : \A f \in x[2] : f = 0 \/ \E i \in 1..Len(ops) : ops[i].op = "pub" /\ ops[i].m = x[1][1] /\ \E j \in 1..Len(ops[i].outs) : ops[i].outs[j] = <<x[1][2], f>>
Apart == \A m \in Confs : (~\E i \in 1..Len(ops) : ops[i].op = "pub" /\ ops[i].m = m) => \A a \in Modules : Held(store, <<m, a>>) = {0}
(* shares of one table *)
Shares == \A s \in {-1, 0, 200, 500, 1000} : \A o \in {-1, 0, 200, 500, 800, 1000} :
   LET w == [cpe |-> 1, share |-> s, other |-> o] IN ~Refused(w) => \A h \in {<<0, 0>>, <<13107, 13107>>, <<32768, 0>>, <<52428, 52428>>, <<65535, 65535>>} : ~(Surely(h, 0, TrainHi(w)) /\ Surely(h, EvalLo(w), 1000))
(* no stage twice but reading, validation before publication, both after training *)
Order == \A v \in 0..2 : \A p \in 0..1 : \A c \in 0..1 : \A k \in 0..1 :
   LET pl == Plan([epochs |-> 2, tests |-> k, cpe |-> c, valid |-> v, pub |-> p])
       at(x) == {i \in 1..Len(pl) : pl[i] = x}
   IN /\ Cardinality(at("fit")) = 1 /\ Cardinality(at("publish")) <= 1 /\ (v = 2 => at("publish") = {})
      /\ \A i \in at("publish") : (v > 0 => \E j \in at("validate") : j < i) /\ \E j \in at("fit") : j < i
Emit == n = N => PrintT("GEN " \o ToJson([ops |-> ops]))
(* workflows *)
VARIABLE w
InitM == Init /\ w = 0
NextM == Next /\ UNCHANGED w
InitG == Init /\ w \in [cpe : 0..1, share : {-1, 300, 400, 1000, 600}, other : {-1, 400, 600}, valid : 0..2, pub : 0..2, give : 0..5]
Still == FALSE /\ UNCHANGED <<vars, w>>
EmitW == PrintT("GEN " \o ToJson(w))
====
