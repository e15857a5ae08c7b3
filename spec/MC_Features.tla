---- MODULE MC_Features ----
(* Laws of the dense layout and of identifier mapping over every small row and order, and the life of a
   fixed-length transform: its settled length never changes and every batch it lets through is regular. *)
EXTENDS Features, TLC, Json
CONSTANTS Fs, Vs, MaxLen, MaxB, Depth
Rows == UNION {{[k \in 1..n |-> [f |-> g[k], v |-> w[k]]] : g \in {h \in [1..n -> Fs] : Distinct(h)}, w \in [1..n -> Vs]} : n \in 0..2}
Orders == UNION {{h \in [1..n -> Fs] : Distinct(h)} : n \in 1..2}
Conf(o, z) == [order |-> o, zero |-> z, missing |-> 99, fill |-> IF z THEN 0 ELSE 99]
Seen(row, o) == SelectSeq(row, LAMBDA x : \E j \in 1..Len(o) : o[j] = x.f)
ASSUME \A r \in Rows : \A o \in Orders : \A z \in BOOLEAN :
   LET c == Conf(o, z) IN
     /\ Len(Dense(c, r)) = Len(o) /\ Dense(c, r) = Dense(c, Seen(r, o)) /\ Presence(c, r) = Presence(c, Seen(r, o))
     /\ \A j \in 1..Len(o) : (Given(r, o[j]) # {} => Dense(c, r)[j] = ValueOf(r, o[j])) /\ (~z => (Presence(c, r)[j] = 1 <=> Given(r, o[j]) # {}))
(* order of the columns only permutes the result *)
ASSUME \A r \in Rows : \A o \in Orders : Len(o) = 2 =>
   LET c == Conf(o, FALSE)  d == Conf(<<o[2], o[1]>>, FALSE) IN Dense(c, r)[1] = Dense(d, r)[2] /\ Dense(c, r)[2] = Dense(d, r)[1]
ASSUME \A tb \in {<<5, 3, 9>>, <<0>>, <<7, 8>>} : \A i \in 1..Len(tb) : IndexOf(tb, tb[i]) = i - 1
ASSUME \A n \in 1..3 : \A a \in 0..n : LET h == OneHot(<<a>>, n)[1] IN (a = n <=> \A j \in 1..n : h[j] = 0) /\ Cardinality({j \in 1..n : h[j] = 1}) <= 1
ASSUME \A n \in 1..3 : \A k \in 0..2 : LET v == [i \in 1..(n * k) |-> i] IN Len(Cut(v, n)) = k /\ \A i \in 1..(n * k) : Cut(v, n)[((i - 1) \div n) + 1][((i - 1) % n) + 1] = i
(* ---- a fixed-length transform over its life ---- *)
VARIABLES n, hist, open
vars == <<n, hist, open>>
LensOf == UNION {[1..b -> 1..MaxLen] : b \in 1..MaxB}
RECURSIVE Upto(_, _)
Upto(ls, k) == IF k = 0 THEN 0 ELSE ls[k] + Upto(ls, k - 1)
Offs(ls) == [i \in 1..Len(ls) |-> Upto(ls, i - 1)]
Total(ls) == Upto(ls, Len(ls))
Feed(ls) == [a |-> [t |-> "s", s |-> (1 :> [o |-> Offs(ls), v |-> [i \in 1..Total(ls) |-> <<i>>], p |-> [i \in 1..Total(ls) |-> <<1>>]])]]
Op == [op |-> "fixed", keys |-> <<"a">>, to |-> <<"b">>, sid |-> 1]
Init == n \in 0..MaxLen /\ hist = <<[len |-> n]>> /\ open = TRUE
Next == /\ open /\ Len(hist) <= Depth
        /\ \E ls \in LensOf : LET r == Fixed(Op, Feed(ls), n) IN
             /\ n' = r.n /\ open' = r.ok
             /\ hist' = Append(hist, [lens |-> ls, o |-> Offs(ls), ok |-> r.ok, n |-> r.n])
Spec == Init /\ [][Next]_vars
Settled == [][n # 0 => n' = n]_vars
(* whatever was let through was of the settled length, except that the last row's own length cannot be told from offsets *)
Passed == \A i \in 2..Len(hist) : hist[i].ok => \A k \in 1..(Len(hist[i].lens) - 1) : hist[i].lens[k] = n
(* ---- scenarios ---- *)
Still == FALSE /\ UNCHANGED vars
NoInit == n = 0 /\ hist = <<>> /\ open = TRUE
EmitRows == \A r \in Rows : \A q \in {<<>>} \cup {x \in Rows : Len(x) = 1} : \A o \in Orders : \A z \in BOOLEAN :
   PrintT("GEN " \o ToJson([order |-> o, zero |-> z, rows |-> <<[k \in 1..Len(r) |-> <<r[k].f, r[k].v>>], [k \in 1..Len(q) |-> <<q[k].f, q[k].v>>]>>]))
EmitSeqs == Len(hist) > 1 => PrintT("GEN " \o ToJson([len |-> hist[1].len, batches |-> Tail(hist)]))
====
