----------------------------- MODULE Summaries -----------------------------
(* Process-wide summary writing: a stack of active writers, the global step, and the charts
   declared so far.  A write goes to the innermost writer, at the step reached or the one given. *)
EXTENDS Integers, Sequences, FiniteSets
Clean == [stack |-> <<>>, frames |-> <<>>, step |-> 0, charts |-> <<>>]
(* entering a context of writer w (0: no writer); every context entered is a frame to be left *)
Enter(s, w) == [s EXCEPT !.frames = Append(@, w), !.stack = IF w = 0 THEN @ ELSE Append(@, w)]
Leave(s) == LET w == s.frames[Len(s.frames)] IN
  [s EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1), !.stack = IF w = 0 THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
Target(s) == IF s.stack = <<>> THEN 0 ELSE s.stack[Len(s.stack)]
StepOf(s, given) == IF given < 0 THEN s.step ELSE given
(* a failing write is swallowed if the writer declares its exception ignorable, or if it is a
   histogram that could not be made of its values *)
Supers == [ValueError |-> {"ValueError", "Exception"}, KeyError |-> {"KeyError", "LookupError", "Exception"}, IndexError |-> {"IndexError", "LookupError", "Exception"},
           NotImplementedError |-> {"NotImplementedError", "RuntimeError", "Exception"}, RuntimeError |-> {"RuntimeError", "Exception"}, TypeError |-> {"TypeError", "Exception"}]
Ignored(ignores, x) == \E i \in 1..Len(ignores) : ignores[i] \in Supers[x]
Raised(f, ignores, x) == IF x = "" THEN "" ELSE IF Ignored(ignores, x) THEN "" ELSE IF f = "add_histogram" /\ x = "ValueError" THEN "" ELSE x
Declared(s, cat, title) == \E i \in 1..Len(s.charts) : s.charts[i].cat = cat /\ s.charts[i].title = title
Chart(s, cat, title, tags) == [s EXCEPT !.charts = Append(@, [cat |-> cat, title |-> title, tags |-> tags])]
=============================================================================
