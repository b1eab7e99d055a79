----------------------------- MODULE DcacheMC -----------------------------
(***************************************************************************)
(* The write-back cache, its miss registers and its write-back buffer over a *)
(* fabric that answers in any order, as a protocol on whole lines.  Every    *)
(* answer agrees with a plain memory (now), no written value is ever lost,   *)
(* and whatever is outstanding can always finish.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Lines, Values, WAYS, MISSES, BACKS
Nowhere == 0
VARIABLES way, miss, back, mem, now, ok
vars == <<way, miss, back, mem, now, ok>>
Free == [line |-> Nowhere, val |-> 0, dirty |-> FALSE]
Idle == [st |-> "idle", data |-> 0, put |-> FALSE, val |-> 0]
Init == /\ way = [w \in 1..WAYS |-> Free]
        /\ miss = [a \in Lines |-> Idle]
        /\ back = <<>>                     \* oldest first: line, value, being written
        /\ mem = [a \in Lines |-> 0] /\ now = mem /\ ok = TRUE
Where(a) == {w \in 1..WAYS : way[w].line = a}
InBack(a) == {k \in 1..Len(back) : back[k].line = a}
Busy == Cardinality({a \in Lines : miss[a].st # "idle"})
Held == {a \in Lines : miss[a].st = "back"}
Content(a) == IF miss[a].put THEN miss[a].val ELSE miss[a].data

Answer(a, v) == ok' = (ok /\ v = now[a])
\* a line waiting to be written back answers for itself; a line being filled answers from the fill
Load(a) ==
  /\ IF InBack(a) # {} THEN Answer(a, back[CHOOSE k \in InBack(a) : \A j \in InBack(a) : j <= k].val) /\ UNCHANGED miss
     ELSE IF Where(a) # {} THEN Answer(a, way[CHOOSE w \in Where(a) : TRUE].val) /\ UNCHANGED miss
     ELSE IF miss[a].st = "back" THEN Answer(a, Content(a)) /\ UNCHANGED miss
     ELSE /\ miss[a].st = "idle" /\ Busy < MISSES
          /\ miss' = [miss EXCEPT ![a].st = "new"] /\ UNCHANGED ok
  /\ UNCHANGED <<way, back, mem, now>>
Store(a, v) ==
  /\ \/ /\ Where(a) # {}
        /\ way' = [way EXCEPT ![CHOOSE w \in Where(a) : TRUE].val = v, ![CHOOSE w \in Where(a) : TRUE].dirty = TRUE]
        /\ UNCHANGED <<miss, back>>
     \/ /\ Where(a) = {} /\ InBack(a) # {}
        /\ \E k \in InBack(a) : ~back[k].busy /\ back' = [back EXCEPT ![k].val = v]
        /\ UNCHANGED <<way, miss>>
     \/ /\ Where(a) = {} /\ InBack(a) = {}
        /\ miss[a].st # "idle" \/ Busy < MISSES
        /\ miss' = [miss EXCEPT ![a] = [@ EXCEPT !.st = IF @ = "idle" THEN "new" ELSE @, !.put = TRUE, !.val = v]]
        /\ UNCHANGED <<way, back>>
  /\ now' = [now EXCEPT ![a] = v] /\ UNCHANGED <<mem, ok>>
Ask(a) == miss[a].st = "new" /\ miss' = [miss EXCEPT ![a].st = "asked"] /\ UNCHANGED <<way, back, mem, now, ok>>
Read(a) == /\ miss[a].st = "asked" /\ miss' = [miss EXCEPT ![a].st = "read", ![a].data = mem[a]]
           /\ UNCHANGED <<way, back, mem, now, ok>>
\* one answer at a time is held until it has a place
Reply(a) == /\ miss[a].st = "read" /\ Held = {} /\ miss' = [miss EXCEPT ![a].st = "back"]
            /\ UNCHANGED <<way, back, mem, now, ok>>
Fill(a, w) ==
  /\ miss[a].st = "back"
  /\ way[w].line = Nowhere \/ \A x \in 1..WAYS : way[x].line # Nowhere
  /\ IF way[w].line # Nowhere /\ way[w].dirty
     THEN Len(back) < BACKS /\ back' = Append(back, [line |-> way[w].line, val |-> way[w].val, busy |-> FALSE])
     ELSE UNCHANGED back
  /\ way' = [way EXCEPT ![w] = [line |-> a, val |-> Content(a), dirty |-> miss[a].put]]
  /\ miss' = [miss EXCEPT ![a] = Idle]
  /\ UNCHANGED <<mem, now, ok>>
Write == /\ back # <<>> /\ ~back[1].busy /\ back' = [back EXCEPT ![1].busy = TRUE]
         /\ UNCHANGED <<way, miss, mem, now, ok>>
Written == /\ back # <<>> /\ back[1].busy
           /\ mem' = [mem EXCEPT ![back[1].line] = back[1].val] /\ back' = Tail(back)
           /\ UNCHANGED <<way, miss, now, ok>>
Inside == (\E a \in Lines : Ask(a) \/ Read(a) \/ Reply(a) \/ \E w \in 1..WAYS : Fill(a, w)) \/ Write \/ Written
Next == Inside \/ \E a \in Lines : Load(a) \/ \E v \in Values : Store(a, v)
Spec == Init /\ [][Next]_vars

Answers == ok
\* the value of a line is found in exactly one place
Owner == \A a \in Lines : Cardinality(Where(a)) + Cardinality(InBack(a)) + (IF miss[a].st # "idle" THEN 1 ELSE 0) <= 1
Kept == \A a \in Lines :
          now[a] = IF Where(a) # {} THEN way[CHOOSE w \in Where(a) : TRUE].val
                   ELSE IF InBack(a) # {} THEN back[CHOOSE k \in InBack(a) : TRUE].val
                   ELSE IF miss[a].put THEN miss[a].val
                   ELSE IF miss[a].st \in {"read", "back"} THEN miss[a].data
                   ELSE mem[a]
Clean == \A w \in 1..WAYS : way[w].line # Nowhere /\ ~way[w].dirty => way[w].val = mem[way[w].line]
\* something outstanding always has a next step
Progress == (Busy > 0 \/ back # <<>>) => ENABLED Inside
=============================================================================
