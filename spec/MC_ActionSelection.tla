------------------------ MODULE MC_ActionSelection ------------------------
EXTENDS ActionSelection, TLC, Json
CONSTANTS MaxActions, MaxScore, Den, Steps
VARIABLES k, mask, e, min, dn, hist
vars == <<k, mask, e, min, dn, hist>>
Init == /\ \E n \in 1..MaxActions : k \in [1..n -> 0..MaxScore] /\ mask \in [1..n -> {0, 1}] /\ \E i \in 1..n : mask[i] = 1
        /\ e \in {Den, Den \div 2} /\ min \in {0, Den \div 4} /\ dn \in {2, 1} /\ hist = <<>>
Update == Len(hist) < Steps /\ hist' = Append(hist, e) /\ e' = EpsNext(e, dn, 2, min) /\ UNCHANGED <<k, mask, min, dn>>
Spec == Init /\ [][Update]_vars
SoftIsDistribution == SumSeq(SoftNum(k, mask)) = SoftDen(k, mask) /\ SoftDen(k, mask) > 0
EpsIsDistribution == \A g \in Best(k, mask) : SumSeq(EpsNum(k, mask, g, e, Den)) = EpsDen(k, mask, Den)
MaskedNever == \A i \in 1..Len(k) : mask[i] = 0 => SoftNum(k, mask)[i] = 0 /\ \A g \in Best(k, mask) : EpsNum(k, mask, g, e, Den)[i] = 0
EpsMonotone == \A i \in 1..Len(hist) : (i < Len(hist) => hist[i+1] <= hist[i]) /\ e <= hist[i]
EpsBounded == e >= min /\ e <= Den
Emit == hist = <<>> /\ e = Den /\ min = 0 /\ dn = 2 => PrintT("GEN " \o ToJson([k |-> k, mask |-> mask]))
=============================================================================
