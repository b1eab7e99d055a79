------------------------------- MODULE BpuMC -------------------------------
(***************************************************************************)
(* The two histories of the predictor around a window of branches in        *)
(* flight, with folds kept incrementally and a bounded return stack.        *)
(* Hist outcomes are kept, folded into N bits for each N in Widths.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Hist, Lens, Widths, Window, Depth
VARIABLES ar, sp, fa, fs, win, exact, ras, deep, lost
(* ar, sp: outcomes, newest first; fa, fs: their folds, kept step by step; win: outcomes predicted and not yet retired, oldest
   first; exact: the fetch history is the retired one followed by win; ras, deep: bounded stack and the calls themselves;
   lost: how many of the calls the bounded stack has dropped *)
vars == <<ar, sp, fa, fs, win, exact, ras, deep, lost>>
Zero == [k \in 1..Hist |-> 0]
Keys == Lens \X Widths
Shift(h, d) == <<d>> \o SubSeq(h, 1, Hist - 1)
\* a fold is a function from position to parity; age a of the latest len outcomes sits at a mod n
Parity(s) == Cardinality(s) % 2
Closed(h, len, n) == [p \in 0..n - 1 |-> Parity({a \in 0..len - 1 : a % n = p /\ h[a + 1] = 1})]
\* rotate by one, bring the new outcome in, take the one that leaves the window out
Step(f, h, d, len, n) ==
  LET r == [p \in 0..n - 1 |-> f[IF p = 0 THEN n - 1 ELSE p - 1]]
      i == [r EXCEPT ![0] = (@ + d) % 2]
  IN [i EXCEPT ![len % n] = (@ + h[len]) % 2]
Steps(f, h, d) == [k \in Keys |-> Step(f[k], h, d, k[1], k[2])]
RECURSIVE Ext(_, _)
Ext(h, w) == IF w = <<>> THEN h ELSE Ext(Shift(h, Head(w)), Tail(w))
F0 == [k \in Keys |-> [p \in 0..k[2] - 1 |-> 0]]
Init == ar = Zero /\ sp = Zero /\ fa = F0 /\ fs = F0 /\ win = <<>> /\ exact = TRUE /\ ras = <<>> /\ deep = <<>> /\ lost = 0
Predict == /\ Len(win) < Window
           /\ \E d \in {0, 1} : sp' = Shift(sp, d) /\ fs' = Steps(fs, sp, d) /\ win' = Append(win, d)
           /\ UNCHANGED <<ar, fa, exact, ras, deep, lost>>
\* the oldest branch retires as predicted
Right == /\ win # <<>>
         /\ ar' = Shift(ar, Head(win)) /\ fa' = Steps(fa, ar, Head(win)) /\ win' = Tail(win)
         /\ UNCHANGED <<sp, fs, exact, ras, deep, lost>>
\* the oldest branch retires otherwise: everything younger is gone, the fetch history is put right
Wrong == /\ win # <<>>
         /\ LET d == 1 - Head(win) IN
              /\ ar' = Shift(ar, d) /\ fa' = Steps(fa, ar, d)
              /\ sp' = Shift(ar, d) /\ fs' = Steps(fa, ar, d)
         /\ win' = <<>> /\ exact' = TRUE /\ UNCHANGED <<ras, deep, lost>>
\* a redirect keeps the k oldest branches in flight; the fetch history becomes the retired one
Redirect == /\ \E k \in 0..Len(win) : win' = SubSeq(win, 1, k) /\ exact' = (k = 0)
            /\ sp' = ar /\ fs' = fa /\ UNCHANGED <<ar, fa, ras, deep, lost>>
Call == /\ Len(deep) < Depth + 2
        /\ \E a \in {1, 2} : /\ deep' = <<a>> \o deep
                             /\ ras' = SubSeq(<<a>> \o ras, 1, IF Len(ras) < Depth THEN Len(ras) + 1 ELSE Depth)
        /\ lost' = IF Len(ras) = Depth THEN lost + 1 ELSE lost
        /\ UNCHANGED <<ar, sp, fa, fs, win, exact>>
Return == /\ deep # <<>> /\ deep' = Tail(deep)
          /\ ras' = IF ras = <<>> THEN <<>> ELSE Tail(ras)
          /\ lost' = IF ras = <<>> THEN lost - 1 ELSE lost
          /\ UNCHANGED <<ar, sp, fa, fs, win, exact>>
Next == Predict \/ Right \/ Wrong \/ Redirect \/ Call \/ Return
Spec == Init /\ [][Next]_vars
\* folds kept step by step are the folds of the history itself
Folded == \A k \in Keys : fa[k] = Closed(ar, k[1], k[2]) /\ fs[k] = Closed(sp, k[1], k[2])
\* once exact, the fetch history is the retired one followed by what is in flight
Follows == exact => sp = Ext(ar, win)
\* the bounded stack is the newest part of the calls: a return goes wrong only after more than Depth nested calls
Newest == ras = SubSeq(deep, 1, Len(ras)) /\ lost = Len(deep) - Len(ras) /\ (lost = 0 \/ lost <= 2)
=============================================================================
