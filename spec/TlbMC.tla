------------------------------- MODULE TlbMC -------------------------------
(***************************************************************************)
(* A translation unit: a few entries filled by page walks, tagged with the  *)
(* address space that walked unless the page is global, read by whichever   *)
(* space runs, emptied by a fence.  One walk is outstanding at a time; it   *)
(* reads the tables at the moment it is answered, may be cancelled when the *)
(* context changes, and its result may still be kept.                       *)
(*                                                                         *)
(* A page of the tables is a record: mapped or not, its frame, whether it   *)
(* is global, and the right to write.  Software keeps two rules, both those *)
(* of the privileged architecture: a table may change only together with a  *)
(* fence, and a global page is the same in every space.                     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Spaces, Pages, Slots, Updates
Frame == 0..1
Leaf == [f : Frame, g : BOOLEAN, w : BOOLEAN]
Unmapped == [f |-> 9, g |-> FALSE, w |-> FALSE]
VARIABLES table,    \* space -> page -> leaf or Unmapped
          cur,      \* the space that runs
          tlb,      \* slot -> <<>> or <<space, page, leaf>>
          ptr,      \* the slot to be replaced next
          walk,     \* <<>> or <<space, page>>
          ans,      \* the last answer: <<>> or <<space, page, store, ok, frame>>
          ups
vars == <<table, cur, tlb, ptr, walk, ans, ups>>
GlobalsAgree(t) == \A p \in Pages : (\E s \in Spaces : t[s][p].g) => \A s, q \in Spaces : t[s][p] = t[q][p]
Init == /\ table \in {t \in [Spaces -> [Pages -> Leaf \cup {Unmapped}]] : GlobalsAgree(t)}
        /\ cur \in Spaces /\ tlb = [i \in Slots |-> <<>>] /\ ptr = 0 /\ walk = <<>> /\ ans = <<>> /\ ups = 0
Match(e, s, p) == e # <<>> /\ e[2] = p /\ (e[3].g \/ e[1] = s)
Hits(p) == {i \in Slots : Match(tlb[i], cur, p)}
Reply(p, st, lf) == ans' = <<cur, p, st, lf # Unmapped /\ (st => lf.w), lf.f>>
\* an access finds the page in the unit
Hit(p, st) == /\ \E i \in Hits(p) : Reply(p, st, tlb[i][3])
              /\ UNCHANGED <<table, cur, tlb, ptr, walk, ups>>
\* or starts a walk
Miss(p) == /\ Hits(p) = {} /\ walk = <<>> /\ walk' = <<cur, p>> /\ ans' = <<>>
           /\ UNCHANGED <<table, cur, tlb, ptr, ups>>
Fill(s, p) == /\ tlb' = [tlb EXCEPT ![ptr] = <<s, p, table[s][p]>>]
              /\ ptr' = (ptr + 1) % Cardinality(Slots)
\* the walk answers an access of the space it was started for
Done(st) == /\ walk # <<>> /\ walk[1] = cur
            /\ Reply(walk[2], st, table[cur][walk[2]])
            /\ IF table[cur][walk[2]] = Unmapped THEN UNCHANGED <<tlb, ptr>> ELSE Fill(cur, walk[2])
            /\ walk' = <<>> /\ UNCHANGED <<table, cur, ups>>
\* a cancelled walk is dropped, or its result is kept for later
Cancel == /\ walk # <<>> /\ walk' = <<>> /\ ans' = <<>> /\ UNCHANGED <<table, cur, ups>>
          /\ \/ UNCHANGED <<tlb, ptr>>
             \/ table[walk[1]][walk[2]] # Unmapped /\ Fill(walk[1], walk[2])
\* a change of space cancels the walk in progress
Switch(s) == /\ walk = <<>> /\ cur' = s /\ ans' = <<>> /\ UNCHANGED <<table, tlb, ptr, walk, ups>>
\* a change of a table comes with a fence, which empties the unit and drops the walk
Update(s, p, lf) ==
  /\ ups < Updates /\ ups' = ups + 1
  /\ table' = [q \in Spaces |-> [table[q] EXCEPT ![p] = IF q = s \/ lf.g THEN lf ELSE IF @.g THEN Unmapped ELSE @]]
  /\ tlb' = [i \in Slots |-> <<>>] /\ walk' = <<>> /\ ans' = <<>> /\ UNCHANGED <<cur, ptr>>
Next == \/ \E p \in Pages : Miss(p) \/ \E st \in BOOLEAN : Hit(p, st)
        \/ \E st \in BOOLEAN : Done(st)
        \/ Cancel \/ \E s \in Spaces : Switch(s)
        \/ \E s \in Spaces, p \in Pages, lf \in Leaf \cup {Unmapped} : Update(s, p, lf)
Spec == Init /\ [][Next]_vars
\* every answer is what the tables of the running space say
Right == ans # <<>> => LET lf == table[ans[1]][ans[2]] IN
           ans[4] = (lf # Unmapped /\ (ans[3] => lf.w)) /\ (ans[4] => ans[5] = lf.f)
\* nothing the unit holds contradicts the tables
Fresh == \A i \in Slots : tlb[i] # <<>> => tlb[i][3] = table[tlb[i][1]][tlb[i][2]]
\* two entries that answer the same request answer it alike
Agree == \A p \in Pages : \A i, j \in Hits(p) : tlb[i][3] = tlb[j][3]
=============================================================================
