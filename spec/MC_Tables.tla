---- MODULE MC_Tables ----
(* logs grow step by step; their timelines obey the laws a learner relies on *)
EXTENDS Tables, TLC, Json
CONSTANTS N, Steps, Rewards
VARIABLES ep, len   \* rewards so far of one episode
Init == ep = <<>> /\ len = 0
Next == len < N /\ \E r \in Rewards : ep' = Append(ep, r * Unit) /\ len' = len + 1
G == Unit \div 2
Window(i, n) == SubSeq(ep, i, Min2(Len(ep), i + n - 1))
(* an n-step reward is the first reward and the discounted rest *)
Law == \A n \in 1..Steps : \A i \in 1..len : LET w == Window(i, n) IN Discounted(w, G) = w[1] + Mul(Discounted(Tail(w), G), G)
Bound == \A n \in 1..Steps : \A i \in 1..len : Abs(Discounted(Window(i, n), G)) <= 2 * Unit * 3
Fingerprints == {<<0, 0>>, <<0, 1>>, <<13107, 13107>>, <<13107, 13106>>, <<13107, 13108>>, <<26214, 26214>>, <<32767, 65535>>, <<32768, 0>>, <<52428, 52428>>, <<65535, 65534>>, <<65535, 65535>>}
(* samples below and above one share cover everything, and only share its edge *)
Shares == \A h \in Fingerprints : \A s \in {0, 100, 200, 333, 400, 500, 800, 1000} :
   /\ ~(Surely(h, 0, s) /\ Surely(h, s, 1000))
   /\ (s > 0 /\ s < 1000 => Possibly(h, 0, s) \/ Possibly(h, s, 1000))
   /\ (Surely(h, 0, s) /\ Possibly(h, s, 1000) => FALSE)
   /\ Surely(h, 0, 1000) /\ (s = 0 => ~Possibly(h, 0, s))
   /\ (Surely(h, 0, s) => Possibly(h, 0, s))
Spec == Init /\ [][Next]_<<ep, len>>
(* shapes of logs for the implementation: episode lengths, steps spanned, named or described actions, shares *)
CONSTANTS Lens
VARIABLE sh
InitG == ep = <<>> /\ len = 0 /\ sh \in [lens : UNION {[1..k -> Lens] : k \in 1..3}, multi : 0..3, disc : 0..1, share : {1000, 600, 500, 200, 333, 0}, other : {-1, 1000, 400, 667, 100, 0}]
Still == FALSE /\ UNCHANGED <<ep, len, sh>>
InitM == Init /\ sh = 0
NextM == Next /\ UNCHANGED sh
Emit == (sh.share + sh.other <= 1000) => PrintT("GEN " \o ToJson(sh))
====
