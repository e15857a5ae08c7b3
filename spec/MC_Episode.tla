----------------------------- MODULE MC_Episode -----------------------------
EXTENDS Episode, TLC, Json
CONSTANTS MaxLimit, MaxLen, Rewards
VARIABLES s, script
vars == <<s, script>>
Init == script = <<>> /\ \E lim \in 0..MaxLimit : s = EpStart0(lim, 0)
Reset == s.pc = "idle" /\ s' = DoReset(s, 0, <<>>) /\ UNCHANGED script
Act == s.pc = "ready" /\ s' = DoAct(s, Len(s.recs), 0) /\ UNCHANGED script
Step == /\ s.pc = "acted"
        /\ \E r \in Rewards, d \in BOOLEAN :
             /\ (Len(script) + 1 >= MaxLen => d)
             /\ s' = DoStep(s, Len(s.recs) + 1, r, d, <<>>)
             /\ script' = Append(script, [r |-> r, d |-> d])
Post == s.pc = "stepped" /\ s' = DoPost(s) /\ UNCHANGED script
End == s.pc = "over" /\ s' = DoEpisodeEnd(s) /\ UNCHANGED script
Next == Reset \/ Act \/ Step \/ Post \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneRecordPerStep == s.pc \in {"ready", "acted", "over", "finished", "idle"} => Len(s.recs) = Len(script)
Consecutive == \A i \in 1..Len(s.recs) : s.recs[i].seq = i - 1 /\ s.recs[i].obs = i - 1 /\ s.recs[i].rew = script[i].r
OnlyLastTerminal == \A i \in 1..Len(s.recs) : s.recs[i].term <=> (i = Len(s.recs) /\ s.pc \in {"over", "finished"})
LimitHolds == s.limit > 0 => Len(s.recs) <= s.limit
EndsForAReason == s.pc = "finished" =>
   LET n == Len(s.recs) IN n > 0 /\ (script[n].d \/ n = s.limit) /\ \A i \in 1..n-1 : ~script[i].d
CallbacksOnce == s.posted = Len(s.recs) /\ s.eps <= 1
Terminates == <>(s.pc = "finished")
Emit == s.pc = "finished" => PrintT("GEN " \o ToJson([limit |-> s.limit, script |-> script]))
=============================================================================
