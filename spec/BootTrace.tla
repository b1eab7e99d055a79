------------------------------ MODULE BootTrace ------------------------------
(***************************************************************************)
(* Starting the machine.  A checkpoint file is a stream of bytes:           *)
(*   16 header: magic, version, privilege, RAM size, number of I/O ranges   *)
(*   236 processor state, 8 instruction count, the RAM, then per range its  *)
(*   base, size and bytes.                                                  *)
(* It is accepted exactly when every part is there and as expected, and the *)
(* machine then equals the saved one; anything else ends the simulator with *)
(* an error.  A program image is accepted when it exists and fits.          *)
(***************************************************************************)
EXTENDS Devices, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>

Magic == Mk(109, 25938)          \* "Rem"
Version == 2
RamBytes == 1073741824
Layout == <<<<0, 8192>>, <<UartBase, 256>>, <<PlicBase, 2162688>>, <<TimerLow, 256>>>>
HeadBytes == 16 + 236 + 8
RECURSIVE IoBytes(_, _)
IoBytes(io, k) == IF k > Len(io) THEN 0 ELSE 8 + io[k][2] + IoBytes(io, k + 1)
Whole(t) == HeadBytes + RamBytes + IoBytes(t.io, 1)
HeaderOk(t) == t.hdr[1] = Magic /\ t.hdr[2] = Version /\ t.hdr[4] = RamBytes /\ t.hdr[5] = 4
\* the timer range may have any size
LayoutOk(t) == /\ Len(t.io) = 4
               /\ \A k \in 1..4 : t.io[k][1] = Layout[k][1] /\ (k < 4 => t.io[k][2] = Layout[k][2])
CkptOk(t) == t.open # 2 /\ HeaderOk(t) /\ LayoutOk(t) /\ (t.cut = -1 \/ t.cut >= Whole(t))

\* word at an address of the saved machine
Saved(s, off) == IF \E k \in 1..Len(s) : s[k][1] = off THEN (CHOOSE k \in 1..Len(s) : s[k][1] = off) ELSE 0
CkptWord(t, a) ==
  IF InRam(a, 4) THEN LET k == Saved(t.ram, a - MinInt) IN IF k = 0 THEN 0 ELSE t.ram[k][2]
  ELSE IF \E i \in 1..4 : a >= t.io[i][1] /\ a < t.io[i][1] + t.io[i][2]
  THEN LET i == CHOOSE i \in 1..4 : a >= t.io[i][1] /\ a < t.io[i][1] + t.io[i][2]
           o == a - t.io[i][1]
           k == Saved(t.io[i][3], o)
       IN IF k = 0 \/ o + 4 > t.io[i][2] THEN 0 ELSE t.io[i][3][k][2]
  ELSE 0
Part(s, a, b) == [i \in 1..(b - a + 1) |-> s[a + i - 1]]
CkptBad(t) ==
  IF ~CkptOk(t) THEN Fl(t.rej = 1, "a malformed file is refused")
  ELSE IF t.rej # 0 THEN <<"a good file is accepted">>
  ELSE LET want == Part(t.st, 1, 59) \o <<t.ra>>
           pr == t.hdr[3] % 4
       IN Fl(Part(t.mach, 1, 32) = Part(t.st, 1, 32), "registers")
          \o Fl(Part(t.mach, 33, 53) = Part(t.st, 33, 53), "CSRs")
          \o Fl(t.mach[54] = t.st[54], "pc") \o Fl(t.mach[55] = pr, "privilege")
          \o Fl(t.mach[56] = t.st[59] /\ (t.st[59] = 1 => t.mach[57] = t.ra), "reservation")
          \o Fl(t.ref = want, "reference state") \o Fl(t.refpriv = pr /\ t.given = 1, "reference privilege")
          \o Fl(t.dut = want, "mirror") \o Fl(t.interval = t.cnt, "interval")
          \o Fl(\A k \in 1..Len(t.v) : t.v[k][2] = CkptWord(t, t.v[k][1]), "memory")

ImgByte(t, k) == IF k < t.img[1] THEN (k * t.img[2] + t.img[3] + (k \div 256)) % 251 ELSE 0
Boot == [a \in {0, 4, 8, 12, Mk(4096, 4)} |->
           CASE a = 0 -> Mk(61760, 9587) [] a = 4 -> Mk(33760, 1463) [] a = 8 -> Mk(32768, 695) [] a = 12 -> Mk(2, 32871)
             [] OTHER -> 24576]
ImgWord(t, a) ==
  IF InRam(a, 4) THEN LET o == a - MinInt
                      IN Mk(ImgByte(t, o + 3) * 256 + ImgByte(t, o + 2), ImgByte(t, o + 1) * 256 + ImgByte(t, o))
  ELSE IF a \in DOMAIN Boot THEN Boot[a] ELSE 0
ImgBad(t) ==
  IF t.open # 0 THEN Fl(t.rej = 1, "a missing or oversized image is refused")
  ELSE IF t.rej # 0 THEN <<"a good image is accepted">>
  ELSE Fl(\A k \in 1..Len(t.v) : t.v[k][2] = ImgWord(t, t.v[k][1]), "memory") \o Fl(t.size = t.img[1], "size")

Next == /\ l = 1 /\ l' = 2 /\ UNCHANGED tid
        /\ bad' = IF Traces[tid].what = "K" THEN CkptBad(Traces[tid]) ELSE ImgBad(Traces[tid])
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad,
          at |-> [k \in (DOMAIN Traces[tid]) \cap {"id", "open", "hdr", "io", "cut", "rej", "mach", "dut", "v", "img", "interval", "cnt"} |-> Traces[tid][k]]]
=============================================================================
