---- MODULE MC_Config ----
EXTENDS Config, TLC, Json
CONSTANTS N, Cut
VARIABLES f, h
Decls == [op : {"declare"}, name : {"A", "B"}, alias : {"", "x"}, body : {"def", "abs", "inh"}, parent : 0..Len(f.classes)]
Init == f = NewFamily /\ h = <<>>
Next == Len(h) < N /\ \/ \E d \in Decls : f' = Declare(f, d) /\ h' = Append(h, d)
                      \/ f.open = 1 /\ Len(h) >= Cut /\ f' = Fill(f) /\ h' = Append(h, [op |-> "fill"])
Emit == (Len(h) = N /\ f.open = 0) => PrintT("GEN " \o ToJson([h |-> h]))
Unique == \A i, j \in 1..Len(f.table) : f.table[i].name = f.table[j].name => i = j
OnlyConcrete == \A i \in 1..Len(f.table) : f.classes[f.table[i].class].concrete = 1
AllConcrete == \A i \in 1..Len(f.classes) : f.classes[i].concrete = 1 => Cardinality({j \in 1..Len(f.table) : f.table[j].class = i}) = 1
ClosedStays == [][f.open = 0 => f' = f]_<<f, h>>
Spec == Init /\ [][Next]_<<f, h>>
====
