------------------------------ MODULE Lockstep ------------------------------
(***************************************************************************)
(* The lockstep checker.  A processor state is a sequence of words:         *)
(*   1..32 registers, 33..53 CSRs, 54 pc, 55 store address, 56 store data,  *)
(*   57 store strobe, 58 store?, 59 instruction, 60..62 page fault on       *)
(*   fetch, load, store, 63 index, 64 pc of the instruction, 65 reservation?*)
(*   66 reserved address, and for the reference 67 privilege.               *)
(* Step information is <<instruction, fetch fault, load fault, store fault, *)
(* end>>.                                                                   *)
(***************************************************************************)
EXTENDS Devices

MipAt == 32 + mip
SipAt == 32 + sip
Lines == WOr(2048, 128)          \* interrupt inputs, not instruction results
\* does the instruction read the interrupt-pending registers?
ReadsPending(w) == /\ w % 128 = 115
                   /\ (w \div 1048576) % 4096 \in {836, 324}
MipDiffers(d, r, i) == IF ReadsPending(i[1]) THEN d[MipAt] # r[MipAt] \/ d[SipAt] # r[SipAt]
                       ELSE AndNot(d[MipAt], Lines) # AndNot(r[MipAt], Lines)
Differs(d, r, i) ==
  \/ d[54] # r[54]
  \/ (i[2] = 0 /\ i[1] # d[59])
  \/ \E k \in 2..4 : i[k] # d[58 + k]
  \/ \E k \in 1..32 : d[k] # r[k]
  \/ \E k \in (33..53) \ {MipAt, SipAt} : d[k] # r[k]
  \/ MipDiffers(d, r, i)
  \/ d[58] # r[58]
  \/ (r[58] = 1 /\ (d[55] # r[55] \/ d[56] # r[56]))
\* what a synchronisation leaves in the reference
Synced(d, p) == d \o <<p>>
=============================================================================
