-------------------------------- MODULE ExuMC --------------------------------
(***************************************************************************)
(* All interleavings of issue, squash, resolution and port choice over a    *)
(* pipelined unit and a single-cycle unit on one port, an iterative unit    *)
(* and a single-cycle unit on another.                                      *)
(***************************************************************************)
EXTENDS Exu, FiniteSets
CONSTANTS N, Masks, DivLat, MaxT

Units == {"mul", "alu0", "div", "alu1"}
PortOf(u) == IF u \in {"mul", "alu0"} THEN 0 ELSE 1
Cap(u) == IF u = "mul" THEN 2 ELSE 1
Lat(u) == CASE u = "mul" -> 2 [] u = "div" -> DivLat [] OTHER -> 1

VARIABLES us, now, n, hist
\* hist: per operation <<unit, issue cycle, "live" | "dead" | "done", cycle>>
vars == <<us, now, n, hist>>
Init == us = [u \in Units |-> Idle] /\ now = 0 /\ n = 0 /\ hist = <<>>

Picks(fin) == {c \in SUBSET fin : \A p \in {0, 1} : Cardinality({u \in c : PortOf(u) = p}) =
                                      (IF {u \in fin : PortOf(u) = p} = {} THEN 0 ELSE 1)}
\* what may be issued to port p: nothing, or one operation to a ready unit
Offers(p, s) == {<<>>} \cup {<<<<u, m>>>> : u \in {v \in Units : PortOf(v) = p /\ Ready(s[v], Cap(v))}, m \in Masks}
Issue(s, sq, gone, out, clear) ==
  /\ n + Len(sq) <= N
  /\ n' = n + Len(sq)
  /\ us' = [u \in Units |-> IF \E j \in DOMAIN sq : sq[j][1] = u
                             THEN LET j == CHOOSE j \in DOMAIN sq : sq[j][1] = u
                                  IN Accept(s[u], [id |-> n + j, mask |-> (sq[j][2] | clear) - clear])
                             ELSE s[u]]
  /\ hist' = [k \in 1..(n + Len(sq)) |->
                IF k > n THEN [unit |-> sq[k - n][1], at |-> now, st |-> "live", end |-> 0]
                ELSE IF k \in gone THEN [hist[k] EXCEPT !.st = IF @ = "live" THEN "dead" ELSE "dead again", !.end = now]
                ELSE IF k \in out THEN [hist[k] EXCEPT !.st = IF @ = "live" THEN "done" ELSE "done again", !.end = now]
                ELSE hist[k]]
  /\ now' = now + 1
Next ==
  /\ now < MaxT
  /\ \E c \in {<<TRUE, 0, 0>>} \cup ({FALSE} \X Masks \X Masks) :
     \E s1 \in {[u \in Units |-> Sweep(us[u], c[1], c[2], c[3])]} :
     \E s2 \in {[u \in Units |-> Start(s1[u], now, LAMBDA op : Lat(u))]} :
     \E pick \in Picks({u \in Units : Finished(s2[u], now)}) :
     \E s3 \in {[u \in Units |-> IF u \in pick THEN Leave(s2[u]) ELSE s2[u]]} :
     \E gone \in {UNION {InUnit(us[u]) : u \in Units} \ UNION {InUnit(s1[u]) : u \in Units}} :
     \E out \in {{Out(s2[u]).id : u \in pick}} :
       IF c[1] \/ c[2] # 0 THEN Issue(s3, <<>>, gone, out, c[3])
       ELSE \E a \in Offers(0, s3), b \in Offers(1, s3) : Issue(s3, a \o b, gone, out, c[3])
Spec == Init /\ [][Next]_vars

Live == UNION {InUnit(us[u]) : u \in Units}
\* every operation is in exactly one place and ends at most once
Conserved == \A k \in 1..n : (hist[k].st = "live") = (k \in Live) /\ hist[k].st \in {"live", "done", "dead"}
\* never early; in order per unit
Timed == \A k \in 1..n : hist[k].st = "done" => hist[k].end >= hist[k].at + Lat(hist[k].unit)
InOrder == \A j, k \in 1..n : j < k /\ hist[j].unit = hist[k].unit /\ hist[k].st = "done" /\ hist[j].st # "dead"
             => hist[j].st = "done" /\ hist[j].end < hist[k].end
Bounded == \A u \in Units : Len(us[u].wait) + Len(us[u].pipe) <= Cap(u)
\* alone on its port an operation ends exactly at its latency
Prompt == \A k \in 1..n : hist[k].st = "live" /\ now > hist[k].at + Lat(hist[k].unit)
            => \E j \in 1..n : j # k /\ PortOf(hist[j].unit) = PortOf(hist[k].unit) /\ hist[j].st = "done" /\ hist[j].end > hist[k].at
View == <<us, n, hist>>
=============================================================================
