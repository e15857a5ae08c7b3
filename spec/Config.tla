------------------------------- MODULE Config -------------------------------
(* Families of components and how a configuration chooses among them.
   A family is open while its members are declared; the concrete ones are registered under their
   name (or the alias they or an ancestor declare), names are unique, and using the family closes it. *)
EXTENDS Integers, Sequences, FiniteSets
NewFamily == [open |-> 1, classes |-> <<>>, table |-> <<>>]
(* d: a declaration [name, alias, body, parent]; body "def" implements the family's operation, "abs" makes it
   abstract again, "inh" leaves it as it was in the parent (0: the family's abstract base) *)
Concrete(f, d) == IF d.body = "def" THEN 1 ELSE IF d.body = "abs" \/ d.parent = 0 THEN 0 ELSE f.classes[d.parent].concrete
Alias(f, d) == IF d.alias # "" THEN d.alias ELSE IF d.parent = 0 THEN "" ELSE f.classes[d.parent].alias
NameOf(f, d) == IF Alias(f, d) # "" THEN Alias(f, d) ELSE d.name
Taken(f, n) == \E i \in 1..Len(f.table) : f.table[i].name = n
Refused(f, d) == f.open = 0 \/ (Concrete(f, d) = 1 /\ Taken(f, NameOf(f, d)))
Declare(f, d) ==
  IF Refused(f, d) THEN f
  ELSE LET cl == [concrete |-> Concrete(f, d), alias |-> Alias(f, d)] IN
       [f EXCEPT !.classes = Append(@, cl),
                 !.table = IF cl.concrete = 1 THEN Append(@, [name |-> NameOf(f, d), class |-> Len(f.classes) + 1]) ELSE @]
Fill(f) == [f EXCEPT !.open = 0]
Names(f) == {f.table[i].name : i \in 1..Len(f.table)}
ClassOf(f, n) == f.table[CHOOSE i \in 1..Len(f.table) : f.table[i].name = n].class
(* ---- settings derived from a component's parameters ----
   p: [name, ann, def]; ann: "" (none), "module", "optmodule", or a plain type; def: "" (none), "null", "shape"
   (a default no type can be inferred from) or a value *)
Typed(p) == p.ann # "" \/ p.def # ""
Unclear(p) == p.ann = "" /\ p.def \in {"null", "shape"}
IsModule(p) == p.ann \in {"module", "optmodule"}
In(x, xs) == \E i \in 1..Len(xs) : xs[i] = x
Considered(ps, black) == {i \in 1..Len(ps) : ~In(ps[i].name, black) /\ Typed(ps[i])}
Fields(ps, white, black) ==
  IF Len(white) > 0 THEN {ps[i].name : i \in {j \in 1..Len(ps) : In(ps[j].name, white)}}
  ELSE {ps[i].name : i \in {j \in Considered(ps, black) : ~IsModule(ps[j])}}
CannotMake(ps, white, black) ==
  \/ Len(white) > 0 /\ Len(black) > 0
  \/ Len(white) > 0 /\ \E i \in 1..Len(white) : ~\E j \in 1..Len(ps) : ps[j].name = white[i]
  \/ Len(white) > 0 /\ \E j \in 1..Len(ps) : In(ps[j].name, white) /\ (Unclear(ps[j]) \/ ~Typed(ps[j]))
  \/ Len(white) = 0 /\ \E i \in Considered(ps, black) : Unclear(ps[i])
(* ---- learning rate after n steps, schedulers chained: all factors are powers of 1/2; in units of 2^-14 ---- *)
RECURSIVE Halve(_, _)
Halve(x, n) == IF n = 0 THEN x ELSE Halve(x \div 2, n - 1)
Halvings(sch, n) ==
  CASE sch.kind = "StepLR" -> sch.g * (n \div sch.step)
    [] sch.kind = "MultiStepLR" -> sch.g * Cardinality({i \in 1..Len(sch.at) : sch.at[i] <= n})
    [] sch.kind \in {"ExponentialLR", "MultiplicativeLR", "LambdaLR"} -> sch.g * n
RECURSIVE TotalH(_, _)
TotalH(ss, n) == IF ss = <<>> THEN 0 ELSE Halvings(ss[1], n) + TotalH(SubSeq(ss, 2, Len(ss)), n)
Rate(lr, ss, n) == Halve(lr, TotalH(ss, n))
=============================================================================
