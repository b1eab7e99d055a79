------------------------------ MODULE IcacheMC ------------------------------
(***************************************************************************)
(* The refill of the instruction cache.  Code is written through a data     *)
(* cache that holds lines newer than memory.  A miss asks the data cache    *)
(* for the line word by word, reads the line from memory, and takes the     *)
(* words of the data cache if it held all of them.  Redirects abandon the   *)
(* miss; its read stays in flight under its identifier until answered.  An  *)
(* instruction fence empties the cache.                                     *)
(* A word is represented by how often it was written; `floor` is what the   *)
(* last fence made visible.  No fetch may be answered with less.            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Lines, Words, MaxV, Ids,
          ProbeFirst,     \* memory is read only once the data cache has been asked for the line
          ReuseIds        \* an abandoned identifier may be used again before its answer came
VARIABLES mem, dc, ic, floor, req, reads, ans
vars == <<mem, dc, ic, floor, req, reads, ans>>
W == 0..(Words - 1)
Zero == [k \in W |-> 0]
None == <<>>
Line(s) == [k \in W |-> s[k + 1]]
\* req: None or the miss under way: line, words the data cache gave so far, what it decided, the read
NoRead == [id |-> -1]
Init == /\ mem = [x \in Lines |-> Zero] /\ dc = [x \in Lines |-> None] /\ ic = [x \in Lines |-> None]
        /\ floor = [x \in Lines |-> Zero] /\ req = None /\ reads = {} /\ ans = None
Now(x) == IF dc[x] = None THEN mem[x] ELSE dc[x]
Store(x, k) == /\ Now(x)[k] < MaxV
               /\ dc' = [dc EXCEPT ![x] = [Now(x) EXCEPT ![k] = @ + 1]]
               /\ ans' = None /\ UNCHANGED <<mem, ic, floor, req, reads>>
Evict(x) == /\ dc[x] # None /\ mem' = [mem EXCEPT ![x] = dc[x]] /\ dc' = [dc EXCEPT ![x] = None]
            /\ ans' = None /\ UNCHANGED <<ic, floor, req, reads>>
Load(x) == /\ dc[x] = None /\ dc' = [dc EXCEPT ![x] = mem[x]]
           /\ ans' = None /\ UNCHANGED <<mem, ic, floor, req, reads>>
Fetch(x) == /\ req = None
            /\ IF ic[x] # None THEN ans' = <<x, ic[x]>> /\ UNCHANGED req
               ELSE ans' = None /\ req' = [x |-> x, got |-> <<>>, done |-> FALSE, hit |-> FALSE, id |-> -1, data |-> None]
            /\ UNCHANGED <<mem, dc, ic, floor, reads>>
\* the data cache answers for the next word
Probe == /\ req # None /\ ~req.done
         /\ req' = IF dc[req.x] = None THEN [req EXCEPT !.done = TRUE, !.hit = FALSE]
                   ELSE [req EXCEPT !.got = Append(@, dc[req.x][Len(@)]),
                                    !.done = Len(req.got) + 1 = Words, !.hit = TRUE]
         /\ ans' = None /\ UNCHANGED <<mem, dc, ic, floor, reads>>
Issue == /\ req # None /\ req.id = -1 /\ (req.done \/ ~ProbeFirst)
         /\ \E i \in Ids :
              /\ ReuseIds \/ \A r \in reads : r.id # i
              /\ req' = [req EXCEPT !.id = i]
              /\ reads' = reads \cup {[id |-> i, x |-> req.x, data |-> None, live |-> TRUE]}
         /\ ans' = None /\ UNCHANGED <<mem, dc, ic, floor>>
\* memory reads the line at some moment, and answers at a later one, in any order
Sample(r) == /\ r.data = None /\ reads' = (reads \ {r}) \cup {[r EXCEPT !.data = mem[r.x]]}
             /\ ans' = None /\ UNCHANGED <<mem, dc, ic, floor, req>>
\* the cache knows an answer by its identifier only; answers to abandoned reads are thrown away
Respond(r) == /\ r.data # None /\ reads' = reads \ {r}
              /\ LET mine == req # None /\ req.id = r.id /\ req.data = None
                     alive == IF ReuseIds THEN mine ELSE mine /\ r.live
                 IN req' = IF alive THEN [req EXCEPT !.data = r.data] ELSE req
              /\ ans' = None /\ UNCHANGED <<mem, dc, ic, floor>>
Finish == /\ req # None /\ req.done /\ req.data # None
          /\ LET d == IF req.hit THEN Line(req.got) ELSE req.data
             IN ans' = <<req.x, d>> /\ ic' = [ic EXCEPT ![req.x] = d]
          /\ req' = None /\ UNCHANGED <<mem, dc, floor, reads>>
Abandon == /\ req' = None
           /\ reads' = {[r EXCEPT !.live = FALSE] : r \in reads}
Redirect == req # None /\ Abandon /\ ans' = None /\ UNCHANGED <<mem, dc, ic, floor>>
Fence == /\ floor' = [x \in Lines |-> Now(x)] /\ floor' # floor
         /\ ic' = [x \in Lines |-> None] /\ Abandon /\ ans' = None /\ UNCHANGED <<mem, dc>>
Replace(x) == ic[x] # None /\ ic' = [ic EXCEPT ![x] = None] /\ ans' = None /\ UNCHANGED <<mem, dc, floor, req, reads>>
Next == \/ \E x \in Lines : Evict(x) \/ Load(x) \/ Fetch(x) \/ Replace(x) \/ \E k \in W : Store(x, k)
        \/ Probe \/ Issue \/ Finish \/ Redirect \/ Fence
        \/ \E r \in reads : Sample(r) \/ Respond(r)
Spec == Init /\ [][Next]_vars
AtLeast(a, b) == \A k \in W : a[k] >= b[k]
\* what a fetch is answered with, and what later fetches will be answered with
Answers == ans # None => AtLeast(ans[2], floor[ans[1]]) /\ \A k \in W : ans[2][k] <= Now(ans[1])[k]
Cached == \A x \in Lines : ic[x] # None => AtLeast(ic[x], floor[x]) /\ \A k \in W : ic[x][k] <= Now(x)[k]
Sound == \A x \in Lines : AtLeast(Now(x), floor[x]) /\ (dc[x] # None => AtLeast(dc[x], mem[x]))
\* a word the data cache gave, or memory answered after it, is not older than the fence
Fresh == req # None => /\ \A k \in 1..Len(req.got) : req.got[k] >= floor[req.x][k - 1]
                       /\ (req.done /\ ~req.hit /\ req.data # None) => AtLeast(req.data, floor[req.x])
=============================================================================
