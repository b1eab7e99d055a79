---------------------------- MODULE DriverTrace ----------------------------
(***************************************************************************)
(* Runs of the real main program against Driver.  A trace holds the options *)
(* as understood (opt), every instruction the core retired, and how the run *)
(* ended: return code, reason, reference steps, counters.                   *)
(* opt: mode warmup limit forward ok interval refend refwfi refa0 sigint    *)
(* v: <<cycle, instruction, interrupt>>                                     *)
(***************************************************************************)
EXTENDS Driver, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, c, bad
vars == <<tid, l, c, bad>>
T == Traces[tid]
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Opts(t) == [m |-> t.opt[1], w |-> t.opt[2], n |-> t.opt[3], f |-> t.opt[4], i |-> t.opt[6]]
O == Opts(T)
RefEnd == T.opt[7]
Sig == T.opt[10]
Ebreak == 1048691
Wfi == 273678451
Opc(i) == i % 128
None == 0   AtEbreak == 1   AtWfi == 2   AtLimit == 3

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
        /\ c = Start(Opts(Traces[tid]))

\* ---- no core: refused, help, the reference model alone or ended before the core began
Refused == T.opt[5] = 0 \/ (T.opt[5] = 1 /\ ~WellFormed(O))
Help == T.opt[5] = 2
Quiet == Fl(T.v = <<>> /\ T.exit = None /\ T.steps = 0, "nothing runs")
RefReason(r) == r = IF T.opt[8] = 1 THEN AtWfi ELSE AtEbreak
RefOnly ==
  LET stopped == Sig > 0 /\ (T.steps = Sig)
      want == Steps(O, RefEnd)
      s == IF Sig > 0 /\ (want = Unset \/ Sig <= want) THEN Sig ELSE want
  IN Fl(T.v = <<>>, "only the reference model runs") \o Fl(T.steps = s, "steps")
     \o (IF stopped THEN Fl(T.rc = 130, "interrupted")
         ELSE Fl(T.rc = 0, "return code")
              \o Fl(\/ O.n # Unset /\ T.steps >= O.n /\ T.exit = AtLimit
                    \/ T.steps = RefEnd /\ RefReason(T.exit), "reason"))
EndedAhead ==
  Fl(T.v = <<>>, "the core does not run") \o Fl(T.steps = Steps(O, RefEnd), "steps") \o Fl(RefReason(T.exit), "reason")
  \o Fl(T.rc = IF T.opt[8] = 1 THEN 0 ELSE T.opt[9], "return code")
NoCore == Refused \/ Help \/ O.m = REF \/ EndsAhead(O, RefEnd)
Without == IF Refused THEN Quiet \o Fl(T.rc = 1, "refused")
           ELSE IF Help THEN Quiet \o Fl(T.rc = 0, "help")
           ELSE IF O.m = REF THEN RefOnly ELSE EndedAhead

\* ---- the core
One(b) == IF b THEN 1 ELSE 0
Last == l = Len(T.v) + 1
Ended(e) == e[3] = 0 /\ e[2] \in {Ebreak, Wfi}
NewCycle == l > 1 /\ l <= Len(T.v) /\ T.v[l][1] # T.v[l - 1][1]
\* between two cycles the loop goes on only if there is no reason to stop
GoesOn == Fl(~NewCycle \/ (~Full(O, c) /\ ~Ended(T.v[l - 1])
                           /\ ~(Sig > 0 /\ Sig < l)), "stops in time")
Step == LET e == T.v[l]
            i == e[2]
        IN IF e[3] = 1 THEN c ELSE Retire(O, c, e[1], One(Opc(i) = 3), One(Opc(i) = 35), One(Opc(i) = 99))
Finish ==
  LET e == IF T.v = <<>> THEN <<0, 0, 1>> ELSE T.v[Len(T.v)]
      sig == Sig > 0 /\ Len(T.v) >= Sig
      brk == Ended(e)
  IN Fl(T.steps = Steps(O, RefEnd), "steps")
     \o Fl(O.m = RUN \/ T.x31 = T.steps, "the core starts where the reference model stopped")
     \o Fl(T.perf[2] = c.n, "instructions counted") \o Fl(T.perf[3] = c.ld, "loads counted") \o Fl(T.perf[4] = c.st, "stores counted")
     \o Fl(T.perf[5] \in {c.br, c.br + c.over}, "branches counted")
     \* a run with a warm-up counts the cycles from the end of it
     \o Fl(T.perf[1] - (T.end - c.at) \in -1..1, "cycles counted")
     \o (IF sig THEN Fl(T.rc = 130, "interrupted")
         ELSE Fl(\/ T.exit = AtLimit /\ Full(O, c) /\ T.rc = 0
                 \/ T.exit = AtEbreak /\ brk /\ e[2] = Ebreak /\ T.rc = T.a0
                 \/ T.exit = AtWfi /\ brk /\ e[2] = Wfi /\ T.rc = 0, "reason and return code"))
Next == /\ bad = <<>>
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ IF NoCore THEN l = 1 /\ c' = c /\ bad' = Without
           ELSE IF Last THEN c' = c /\ bad' = Finish
           ELSE l <= Len(T.v) /\ c' = Step /\ bad' = GoesOn
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, c |-> c,
          at |-> [k \in DOMAIN T \ {"v"} |-> T[k]], ev |-> IF l <= Len(T.v) THEN T.v[l] ELSE <<>>]
=============================================================================
