---- MODULE P29Trace ----
EXTENDS Config, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == NewFamily
Has(xs, n) == \E i \in 1..Len(xs) : xs[i][1] = n
Get(xs, n) == xs[CHOOSE i \in 1..Len(xs) : xs[i][1] = n][2]
SetOf(xs) == {xs[i] : i \in 1..Len(xs)}
(* ---- choosing among a family: e.names named, each by a ready instance or by its settings ---- *)
Select(s, e) ==
  LET unknown == \E i \in 1..Len(e.names) : ~Taken(s, e.names[i])
      wrong == unknown \/ e.ill = 1
      one == Len(e.names) = 1
  IN IF wrong THEN (IF e.exc = "" THEN (IF unknown THEN "a component nobody registered was accepted" ELSE "unknown or ill-typed settings were accepted") ELSE "")
     ELSE IF e.exc # "" THEN "a proper choice was refused"
     ELSE IF ~one THEN (IF e.vexc = "" THEN "a choice of none or several was accepted" ELSE "")
     ELSE IF e.vexc # "" THEN "the choice of one component was refused"
     ELSE IF e.class # ClassOf(s, e.names[1]) THEN "another component was chosen than the one named"
     ELSE IF e.how = "inst" /\ e.same = 0 THEN "the chosen component is not the one given"
     ELSE IF e.x # e.wantx \/ e.y # e.wanty THEN "the chosen component does not have the settings given and its defaults otherwise" ELSE ""
Wrap(s, e) == IF e.exc # "" THEN "a component could not be wrapped" ELSE IF e.same = 0 \/ e.key # s.table[CHOOSE i \in 1..Len(s.table) : s.table[i].class = e.class].name THEN "a component was wrapped under another name" ELSE ""
(* ---- settings of a component ---- *)
Make(c, e) ==
  LET no == CannotMake(c.params, c.white, c.black) IN
  IF no THEN (IF e.exc = "" THEN "settings were derived though a type cannot be known" ELSE "")
  ELSE IF e.exc # "" THEN "settings could not be derived"
  ELSE IF SetOf(e.fields) # Fields(c.params, c.white, c.black) THEN "the settings are not those of the component" ELSE ""
P(c, n) == c.params[CHOOSE i \in 1..Len(c.params) : c.params[i].name = n]
BadGiven(c, e) ==
  \/ \E i \in 1..Len(e.given) : e.given[i][1] \notin Fields(c.params, c.white, c.black)
  \/ e.ill = 1
  \/ \E n \in Fields(c.params, c.white, c.black) : ~Has(e.given, n) /\ P(c, n).def = ""
New(c, e) ==
  IF BadGiven(c, e) THEN (IF e.exc = "" THEN "unknown, missing or ill-typed settings were accepted" ELSE "")
  ELSE IF e.exc # "" THEN "proper settings were refused"
  ELSE IF \E n \in Fields(c.params, c.white, c.black) : ~Has(e.got, n) \/ Get(e.got, n) # (IF Has(e.given, n) THEN Get(e.given, n) ELSE P(c, n).def) THEN "a setting is neither the one given nor the component's default"
  ELSE IF e.shared # 0 THEN "two instances share a default"
  ELSE IF e.frozen = 0 THEN "settings could be changed after the fact"
  ELSE IF e.dict = 0 THEN "the settings handed on are not the settings"
  ELSE IF e.eq = 0 \/ e.hash = 0 THEN "equal settings do not have equal fingerprints" ELSE ""
Call(c, e) ==
  LET bound == [i \in 1..Len(c.params) |-> i <= Len(e.pos) \/ Has(e.given, c.params[i].name)]
      want(i) == IF i <= Len(e.pos) THEN e.pos[i] ELSE IF Has(e.given, c.params[i].name) THEN Get(e.given, c.params[i].name) ELSE c.params[i].def
      no == Len(e.pos) > Len(c.params) \/ \E i \in 1..Len(c.params) : (~bound[i] /\ c.params[i].def = "") \/ (i <= Len(e.pos) /\ Has(e.given, c.params[i].name))
  IN IF no THEN (IF e.exc = "" THEN "a call with missing or repeated arguments was accepted" ELSE "")
     ELSE IF e.exc # "" THEN "a proper call was refused"
     ELSE IF \E i \in 1..Len(c.params) : Get(e.got, c.params[i].name) # want(i) THEN "an argument is neither the one given nor the declared default"
     ELSE IF e.shared # 0 THEN "two instances share a default" ELSE ""
(* ---- the project's own families and settings ---- *)
Real(e) ==
  IF SetOf(e.union) # SetOf(e.registered) THEN "a registered component cannot be selected"
  ELSE IF \E i \in 1..Len(e.concrete) : e.concrete[i] \notin SetOf(e.registered) THEN "a component is not registered"
  ELSE IF Len(e.concrete) # Len(e.registered) THEN "a name stands for no component of its own" ELSE ""
Own(e) ==
  IF e.exc # "" THEN "proper settings were refused"
  ELSE IF \E i \in 1..Len(e.got) : e.got[i][2] # (IF Has(e.given, e.got[i][1]) THEN Get(e.given, e.got[i][1]) ELSE Get(e.defaults, e.got[i][1])) THEN "a setting is neither the one given nor the component's default"
  ELSE IF e.shared # 0 THEN "two instances share a default"
  ELSE IF e.eq = 0 \/ e.hash = 0 THEN "equal settings do not have equal fingerprints" ELSE ""
Sample(e) ==
  IF e.exc # "" THEN "a sample configuration was refused"
  ELSE IF e.chosen # e.named THEN "another component was chosen than the one named"
  ELSE IF \E i \in 1..Len(e.given) : ~Has(e.got, e.given[i][1]) \/ Get(e.got, e.given[i][1]) # e.given[i][2] THEN "a given setting was lost or changed" ELSE ""
Opt(e) ==
  IF e.exc # "" THEN "an optimizer could not be built"
  ELSE IF e.class # e.named THEN "another component was chosen than the one named"
  ELSE IF e.params = 0 THEN "the optimizer does not train the parameters given"
  ELSE IF \E i \in 1..Len(e.got) : e.got[i][2] # (IF Has(e.given, e.got[i][1]) THEN Get(e.given, e.got[i][1]) ELSE Get(e.defaults, e.got[i][1])) THEN "a setting is neither the one given nor the component's default" ELSE ""
(* the rate used for step n is the scheduled one, and the parameter moves by it *)
Lr(c, e) ==
  IF e.exc # "" THEN "a schedule could not be built"
  ELSE IF \E n \in 1..Len(e.rate) : e.rate[n] # Rate(c.lr, c.sched, n - 1) THEN "the learning rate does not follow its schedule"
  ELSE IF \E n \in 1..(Len(e.par) - 1) : e.par[n] - e.par[n + 1] # Rate(c.lr, c.sched, n - 1) THEN "a step does not use the scheduled learning rate" ELSE ""
Verdict(c, s, e) ==
  CASE e.ev = "declare" -> IF Refused(s, e) /\ e.exc = "" THEN (IF s.open = 0 THEN "a component was declared after the family closed" ELSE "a name was registered twice")
         ELSE IF ~Refused(s, e) /\ e.exc # "" THEN "a component could not be declared" ELSE ""
    [] e.ev = "fill" -> IF e.exc # "" THEN "a family could not be used" ELSE IF SetOf(e.names) # Names(s) THEN "a registered component cannot be selected" ELSE ""
    [] e.ev = "select" -> Select(s, e)
    [] e.ev = "wrap" -> Wrap(s, e)
    [] e.ev = "make" -> Make(c, e)
    [] e.ev = "new" -> New(c, e)
    [] e.ev = "call" -> Call(c, e)
    [] e.ev = "real" -> Real(e)
    [] e.ev = "own" -> Own(e)
    [] e.ev = "sample" -> Sample(e)
    [] e.ev = "opt" -> Opt(e)
    [] e.ev = "lr" -> Lr(c, e)
    [] e.ev = "none" -> ""
    [] OTHER -> "unknown event"
Apply(c, s, e) == CASE e.ev = "declare" -> Declare(s, e) [] e.ev = "fill" -> Fill(s) [] OTHER -> s
INSTANCE TraceBase
====
