-------------------------------- MODULE Lsu --------------------------------
(***************************************************************************)
(* What the load/store unit owes the program: the memory operations that    *)
(* retire take effect one after another, in program order, whatever was     *)
(* issued early, forwarded, replayed, squashed or repeated on the way.      *)
(*   s == [m, r, p]  memory (word address -> word), reservation             *)
(*                   (<<>> or <<address>>), device accesses accounted for   *)
(*   operation <<kind, size code, virtual address, data, ...>>              *)
(***************************************************************************)
EXTENDS Word
LoadK == 1
StoreK == 2
LrK == 3
ScK == 4
AddK == 5
SwapK == 6
\* translation the driver provides
PageOf(va) == (va % 32768) \div 4096
PhysPage == <<-2147418112, -2147418112, -2147414016, 0, 268435456, -2147414016, 201326592, 0>>
Phys(va) == PhysPage[PageOf(va) + 1] + (va % 4096)
IsDevice(va) == PageOf(va) \in {4, 6}
Reads(k) == k \in {LoadK, LrK, AddK, SwapK}
Writes(k) == k \in {StoreK, ScK, AddK, SwapK}
LoadFaults(k, va) == Reads(k) /\ PageOf(va) \in {3, 7}
StoreFaults(k, va) == Writes(k) /\ PageOf(va) \in {3, 5, 7}
Size(f) == CASE f % 4 = 0 -> 1 [] f % 4 = 1 -> 2 [] OTHER -> 4
SizeMask(f) == CASE f % 4 = 0 -> 255 [] f % 4 = 1 -> 65535 [] OTHER -> -1
\* part of the word read by a load
Part(w, a, f) ==
  LET v == WAnd(Srl(w, 8 * (a % 4)), SizeMask(f))
  IN IF f = 0 /\ v >= 128 THEN v - 256 ELSE IF f = 1 /\ v >= 32768 THEN v - 65536 ELSE v
PutPart(w, a, f, v) == Merge(w, Sll(v, 8 * (a % 4)), Sll(SizeMask(f), 8 * (a % 4)))
WordAt(a) == a - (a % 4)
\* effect of a retiring operation on memory: <<state, value returned>>
Retire(s, k, f, va, v) ==
  LET a == Phys(va)
      w == s.m[WordAt(a)]
      kept == IF s.r = <<a>> THEN <<>> ELSE s.r
      put(x) == [s.m EXCEPT ![WordAt(a)] = PutPart(w, a, f, x)]
  IN CASE k = LoadK -> <<s, Part(w, a, f)>>
       [] k = StoreK -> <<[s EXCEPT !.m = put(v), !.r = kept], 0>>
       [] k = LrK -> <<[s EXCEPT !.r = <<a>>], w>>
       [] k = ScK -> IF s.r = <<a>> THEN <<[s EXCEPT !.m = put(v), !.r = <<>>], 0>> ELSE <<[s EXCEPT !.r = <<>>], 1>>
       [] k = AddK -> <<[s EXCEPT !.m = put(Add(w, v)), !.r = kept], w>>
       [] k = SwapK -> <<[s EXCEPT !.m = put(v), !.r = kept], w>>
       [] OTHER -> <<s, 0>>
=============================================================================
