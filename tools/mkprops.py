import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

TREF="The 139 tests run a fixed set of guest programs, and only through the reference interpreter; "
TDUT="No existing test executes this code at all: the test build links only the reference interpreter, so every pipeline, cache and device module is compiled but never run; "

p("C01","Committed execution equals sequential execution of the ISA",
 "The out-of-order core retires exactly the instruction sequence that executing the program one instruction at a time would produce: same program counters, same register results, same stores (address, bytes, data) and same order, starting from the boot state. Cache misses, branch predictions, bus latency and back-pressure may change only the timing, never this sequence.",
 ["programs","schedules"],"all programs made of supported RV32IMA_Zicsr_Zba_Zbb_Zbc_Zbs instructions with aligned accesses, under every memory-fabric latency, stall and response-reordering schedule",
 TDUT+"and equality must hold for every program and every interleaving of miss, redirect and replay events.",
 ["rv_simu_mmu_v2.cpp","back-end/BackTop.cpp","back-end/Rob.cpp","back-end/Ren.cpp","back-end/Isu.cpp","back-end/Dispatch.cpp","back-end/Idu.cpp","back-end/Prf.cpp","back-end/Exu/Exu.cpp","back-end/Lsu/RealLsu.cpp","front-end/front_top.cpp"],
 [("commit hook exports architectural state per retired instruction","rv_simu_mmu_v2.cpp SimContext::run_commit_inst / SimCpu::difftest_prepare"),("instruction-level specification","RISC-V unprivileged ISA as implemented by diff/ref.cpp")],
 observe="commit callback: pc, instruction, next pc, changed registers, store",hook=False)

p("C02","Reference interpreter executes integer and bit-manipulation code correctly",
 "For every supported base-integer, multiply/divide and bit-manipulation instruction and all operand values, the reference interpreter's next pc, destination register and memory effect are those defined by the RISC-V ISA; register zero always reads zero and nothing else changes. Integer encodings it does not implement change no register and no memory.",
 ["inputs","programs","histories"],"all instruction words of the supported extensions, all operand values, all register aliasing patterns",
 TREF+"each instruction is exercised with a handful of operand pairs and register choices.",
 ["diff/ref.cpp","diff/include/ref.h"],
 [("decode and execute","diff/ref.cpp RefCpu::RISCV, RV32IM"),("operand/immediate extraction","diff/include/ref.h imm helpers")],
 observe="architectural state before/after each step",hook=False)

p("C03","Traps and interrupts in the core are precise",
 "When an instruction faults or an enabled interrupt is taken, every older instruction has taken effect, the faulting/interrupted instruction and everything younger has none, and the saved pc, cause, trap value, status bits, privilege level and handler address are those of the privileged architecture. Returning from the handler resumes at the saved pc with the saved privilege and interrupt-enable state.",
 ["programs","schedules","histories"],"all programs mixing faulting instructions, delegated and non-delegated traps, trap returns and interrupts arriving at any cycle",
 TDUT+"the interrupt arrival cycle and in-flight window cannot be enumerated by fixed programs.",
 ["back-end/Rob.cpp","back-end/Exu/Csr.cpp","back-end/BackTop.cpp","rv_simu_mmu_v2.cpp","back-end/Ren.cpp"],
 [("exception/interrupt selection at the head of the reorder buffer","back-end/Rob.cpp Rob::comb_commit"),("trap entry and return","back-end/Exu/Csr.cpp Csr::comb_exception, comb_interrupt")],
 observe="commit callback incl. CSR file and privilege",hook=False)

p("C04","Wrong-path instructions leave no architectural trace",
 "An instruction fetched after a mispredicted branch, a fault or a serialising instruction never changes architectural registers, CSRs, memory, a load reservation or any device. After recovery, execution continues from the correct target with exactly the register values of the correct path.",
 ["programs","schedules"],"all branch/jump patterns, prediction histories and fabric timings, including memory-mapped accesses and atomics on the wrong path",
 TDUT+"wrong-path windows depend on predictor history and memory timing.",
 ["back-end/Idu.cpp","back-end/Ren.cpp","back-end/Rob.cpp","back-end/Lsu/RealLsu.cpp","MemSubSystem/PeripheralAxi.cpp","back-end/Isu.cpp","back-end/Exu/Exu.cpp"],
 [("branch resolution broadcast kills younger work","back-end/Idu.cpp comb_branch / every module's comb_flush"),("checkpointed rename map","back-end/Ren.cpp")],
 observe="commit callback, device access log, final memory",hook=False)

p("C05","Loads see the youngest older store, byte for byte",
 "Every retired load returns, for each byte, the value written by the youngest program-order-older store to that byte, or memory if there is none, whatever the order in which addresses and data become known, however much of the data is still queued, and whether or not a younger store to the same address is already waiting. Stores reach memory once each, in program order, and only after retirement.",
 ["programs","schedules"],"all interleavings of address/data resolution of overlapping byte/half/word loads and stores, queue wrap-arounds, flushes, cache hits and misses",
 TDUT+"the relative timing of address, data and cache replies decides which forwarding path is taken.",
 ["back-end/Lsu/RealLsu.cpp","back-end/Lsu/include/RealLsu.h","MemSubSystem/RealDcache.cpp"],
 [("store-to-load forwarding over the store queue","back-end/Lsu/RealLsu.cpp check_store_forward"),("in-order store drain","back-end/Lsu/RealLsu.cpp store retire/commit pointers")],
 observe="load results at write-back; store requests to the data cache",hook=False)

p("C06","The data-cache hierarchy is invisible",
 "For every address a read through the data cache returns the most recent value written by an accepted write to it, across hits, misses, refills, evictions, merges into outstanding misses and write-backs still in flight. Every accepted request is answered exactly once, with its own tag, and no dirty data is ever lost or written to a wrong line.",
 ["inputs","schedules","histories"],"all sequences of reads/writes/evictions on colliding lines and all acceptance, latency and ordering behaviours of the memory fabric",
 TDUT+"the hazards need an eviction, a refill and a store on the same set within a few cycles.",
 ["MemSubSystem/RealDcache.cpp","MemSubSystem/MSHR.cpp","MemSubSystem/WriteBuffer.cpp","MemSubSystem/DcacheConfig.cpp","MemSubSystem/MemSubsystem.cpp"],
 [("lookup / fill / evict pipeline","MemSubSystem/RealDcache.cpp"),("miss bookkeeping","MemSubSystem/MSHR.cpp"),("victim write-back and merge","MemSubSystem/WriteBuffer.cpp")],
 observe="request/response ports of cache, miss unit, write buffer and fabric",hook=False)

p("C07","Instruction fetch is coherent and always returns the right code",
 "Every instruction executed is the one stored at its translated address, as of the last instruction-fence retired before it was fetched; after an instruction fence all earlier stores are visible to fetch. Instruction-cache misses, refills, prefetches, redirects that abandon a miss, and out-of-order fabric replies never deliver bytes of another line.",
 ["programs","schedules","histories"],"all redirect timings relative to outstanding instruction misses, all self-modifying sequences followed by an instruction fence",
 TDUT+"whether a stale reply is consumed depends on redirect and reply timing.",
 ["front-end/icache/icache_module.cpp","front-end/icache/icache.cpp","front-end/icache/ICacheTop.cpp","front-end/front_top.cpp","back-end/Rob.cpp","MemSubSystem/MemRouteBlock.cpp"],
 [("tag lookup, miss state machine, refill","front-end/icache/icache_module.cpp"),("instruction fence handling","back-end/Rob.cpp, front-end/front_top.cpp")],
 observe="instruction word of each retired instruction against memory; icache request/response ports",hook=False)

p("C08","Address translation in the core follows the page tables",
 "With translation enabled, every retired fetch, load, store and atomic uses the physical address and permission outcome the Sv32 page tables give for its privilege, or traps with the right page fault; cached translations change nothing between translation fences. After a translation fence or a change of address space no stale translation is used.",
 ["programs","schedules","histories"],"all page-table shapes (4 KiB and 4 MiB, every permission combination), privilege/SUM/MXR/MPRV settings, and all walk/flush/replay timings",
 TDUT+"stale-entry and abandoned-walk hazards depend on timing and on the history of earlier translations.",
 ["back-end/Lsu/TlbMmu.cpp","back-end/Lsu/include/TlbMmuKernel.h","MemSubSystem/include/MemPtwBlock.h","MemSubSystem/include/PtwCompactCoreKernel.h","MemSubSystem/PtwWalker.cpp","MemSubSystem/MemRouteBlock.cpp","back-end/Lsu/RealLsu.cpp","front-end/icache/icache.cpp"],
 [("TLB lookup/refill/flush","TlbMmu"),("shared page-table walker","MemPtwBlock / PtwCompactCoreKernel")],
 observe="commit callback; TLB and walker ports",hook=False)

p("C09","Reference interpreter implements Sv32 translation",
 "The reference interpreter's address translation yields exactly the physical address, or exactly the page fault, that Sv32 defines for the page tables in memory, the access type, the effective privilege and the SUM, MXR and MPRV settings, and a faulting access changes no memory and no destination register. Translation itself never modifies memory.",
 ["inputs","histories"],"all page-table entries at both levels, all access types, all privilege and status combinations, all virtual addresses",
 TREF+"only a few of the permission combinations are exercised.",
 ["diff/ref.cpp"],
 [("two-level walk and permission check","diff/ref.cpp RefCpu::va2pa")],
 observe="architectural state before/after each step",hook=False)

p("C10","Atomics are indivisible and reservations are honoured",
 "Each atomic read-modify-write returns the old value and stores the result computed from exactly that value, with no other access in between; a store-conditional succeeds only while a valid reservation for its address is held, and writes nothing when it fails. A reservation is consumed by every store-conditional and lost when the reserved location is overwritten.",
 ["programs","schedules","histories"],"all sequences of atomics, load-reserved, store-conditional and plain stores, in the core under every timing and in the reference interpreter",
 TREF+"reservation outcomes after intervening stores, traps and wrong-path load-reserveds are not covered.",
 ["back-end/Lsu/RealLsu.cpp","back-end/Exu/Exu.cpp","back-end/Idu.cpp","diff/ref.cpp"],
 [("atomics split into load/address/data parts","back-end/Dispatch.cpp, back-end/Lsu/RealLsu.cpp"),("reservation register","back-end/Lsu/RealLsu.cpp lrsc unit; diff/ref.cpp RV32A")],
 observe="commit callback; final memory",hook=False)

p("C11","The core always makes forward progress",
 "From every reachable state, as long as the fabric eventually accepts requests and answers them, some instruction retires within a bounded number of cycles until the program ends; no combination of full queues, replays, flushes, misses or walks deadlocks or livelocks. The run ends exactly when the program executes its ending instruction.",
 ["programs","schedules"],"all programs and all fair fabric schedules, including queues at capacity",
 TDUT+"deadlocks need several queues to be full at the same time as a flush or a replay.",
 ["back-end/Dispatch.cpp","back-end/Rob.cpp","back-end/Lsu/RealLsu.cpp","MemSubSystem/MemSubsystem.cpp","front-end/front_top.cpp","rv_simu_mmu_v2.cpp"],
 [("ready/valid back-pressure chain","back-end/*.cpp comb_ready/comb_fire"),("forward-progress fallback","back-end/Rob.cpp")],
 observe="cycles between commits; exit reason",hook=False)

p("C12","Register renaming conserves physical registers",
 "At every moment each physical register is in exactly one of: mapped, pending release, or free; no physical register is handed to two live destinations, none leaks, and the map seen by an instruction is the one built by exactly its program-order predecessors. Flushes and mispredictions restore precisely the map and the free set of the surviving instructions.",
 ["histories","schedules"],"all sequences of allocation, commit, branch checkpoint, misprediction and flush, including in the same cycle and with the free list empty",
 TDUT+"a leak or double allocation shows only after particular recovery sequences.",
 ["back-end/Ren.cpp","back-end/include/Ren.h"],
 [("free list, speculative and committed maps, checkpoints","back-end/Ren.cpp Ren::comb_alloc, comb_rename, comb_branch, comb_commit, comb_flush")],
 state="free list ring, speculative/architectural maps, per-branch checkpoints",observe="rename output ports and state after each cycle",hook=False)

p("C13","The reorder buffer retires in order, once, and only completed work",
 "Instructions leave the reorder buffer in allocation order, each exactly once, and only when all their parts have completed; nothing younger than a faulting, serialising or interrupted instruction leaves with it. After a misprediction exactly the instructions younger than the branch disappear, and after a flush the buffer is empty.",
 ["histories","schedules"],"all interleavings of allocation, out-of-order partial completion, misprediction, flush, interrupt and commit stall, with pointer wrap-around",
 TDUT+"the cases depend on where group boundaries fall relative to completion and recovery.",
 ["back-end/Rob.cpp","back-end/include/Rob.h"],
 [("group/single commit decision","back-end/Rob.cpp Rob::comb_commit"),("recovery","back-end/Rob.cpp Rob::comb_branch, comb_flush")],
 state="banked circular buffer with wrap flags",observe="commit and broadcast ports after each cycle",hook=False)

p("C14","Branch tags identify exactly the work to squash",
 "Every in-flight instruction carries the set of unresolved older branches; a tag in use is never re-issued before its branch has resolved and been cleared everywhere. When a branch resolves correctly only its tag is freed, and when it mispredicts precisely the tags of younger branches are freed and the redirect names the oldest mispredicted branch.",
 ["histories","schedules"],"all allocation/resolution/flush sequences with up to the maximum number of in-flight branches, resolving in any order and in the same cycle",
 TDUT+"tag reuse races need the tag pool to wrap while resolutions are in flight.",
 ["back-end/Idu.cpp","back-end/include/Idu.h"],
 [("tag pool, current mask and resolution latch","back-end/Idu.cpp Idu::comb_branch, comb_decode, comb_fire")],
 state="free-tag vector, current branch mask, per-tag masks",observe="decode output and broadcast ports after each cycle",hook=False)

p("C15","Micro-ops issue exactly once, and only when their operands are ready",
 "Every micro-op dispatched to an issue queue is issued exactly once to a port able to execute it, never before each source value has been produced or is forwarded in time, and never after it has been squashed. No dispatched micro-op is lost, duplicated or left waiting for a wake-up that has already happened.",
 ["histories","schedules"],"all dispatch, wake-up (fast, delayed and cancelled), port back-pressure, misprediction and flush interleavings, including same-cycle ones",
 TDUT+"missed wake-ups depend on same-cycle dispatch/wake-up/cancel coincidences.",
 ["back-end/Isu.cpp","back-end/Dispatch.cpp","back-end/include/IssueQueue.h"],
 [("queue insert/wakeup/select","back-end/include/IssueQueue.h"),("latency pipes and wake-up network","back-end/Isu.cpp"),("steering and busy table","back-end/Dispatch.cpp")],
 state="issue queues, delayed wake-up pipes, busy table",observe="issue ports after each cycle",hook=False)

p("C16","Fetch-target bookkeeping returns each instruction's own pc and prediction",
 "A fetch-block record, once allocated, returns unchanged the pc, predicted outcome and predictor metadata of its block to every later reader until its last instruction has retired, and is never overwritten while still referenced. Instructions leave the pre-decode queue and instruction buffer in fetch order, none lost, duplicated or mixed between blocks, and squashed blocks are released.",
 ["histories","schedules"],"all sequences of block allocation, partial consumption, retirement, misprediction and flush with the ring wrapping",
 TDUT+"overwrite hazards need a full ring and a recovery in the same cycle.",
 ["back-end/PreIduQueue.cpp","back-end/InstructionBuffer.cpp","back-end/include/FTQ.h","back-end/include/InstructionBuffer.h"],
 [("block ring allocate/release/recover","back-end/include/FTQ.h"),("pre-decode queue","back-end/PreIduQueue.cpp"),("instruction buffer","back-end/InstructionBuffer.cpp")],
 state="fetch-target ring, instruction buffer",observe="queue ports after each cycle",hook=False)

p("C17","Front-end queues are lossless, ordered and flushable",
 "Each queue between prediction, fetch, pre-decode and decode delivers exactly the entries accepted, in order, once each, never accepts when full nor delivers when empty, and is empty right after a flush or refetch. Entries travelling in parallel queues stay paired: a fetched block is always combined with its own prediction record.",
 ["histories","schedules"],"all push/pop/flush sequences incl. simultaneous push and pop at full and at empty, bypass, and dummy entries for blocks that need no fetch",
 TDUT+"the corner cases are simultaneous events at capacity.",
 ["front-end/fifo/fetch_address_FIFO.cpp","front-end/fifo/instruction_FIFO.cpp","front-end/fifo/PTAB.cpp","front-end/fifo/front2bank_FIFO.cpp","front-end/front_top.cpp"],
 [("ring state and bypass","front-end/fifo/*.cpp"),("pairing","front-end/front_top.cpp")],
 state="queue rings",observe="queue ports after each cycle",hook=False)

p("C18","Pre-decode classifies every word and repairs provable mispredictions",
 "For every instruction word and pc, pre-decode reports the right kind (direct jump, conditional branch, indirect jump, other) and the exact target of direct jumps and branches. For every fetch block the checker keeps the predicted directions of conditional branches, makes jumps taken and everything else not taken, continues at the first taken instruction's known target (at the predicted address if that target is unknown, after the block if nothing is taken), and restarts fetch exactly when that differs from the prediction.",
 ["inputs"],"all 2^32 instruction words at all pcs, all prediction vectors of a fetch block",
 TDUT+"the input space is the product of words and prediction vectors.",
 ["front-end/predecode.cpp","front-end/predecode_checker.cpp"],
 [("classification and target","front-end/predecode.cpp"),("prediction repair","front-end/predecode_checker.cpp")],
 observe="function results",hook=False)

p("C19","CSR file and trap unit implement the privileged architecture",
 "Each retired CSR instruction reads and writes exactly the implemented fields of the addressed register, views of a shared register stay consistent, and a CSR instruction that does not retire changes nothing. Trap entry selects target mode, cause, vector and status updates by delegation and priority, and trap return restores them; pending-and-enabled interrupts are reported exactly when the architecture allows them to be taken.",
 ["inputs","histories"],"all CSR states, CSR instructions, traps, interrupts and privilege levels in any order",
 TDUT+"delegation x enable x privilege x simultaneous pending sources is a large product.",
 ["back-end/Exu/Csr.cpp","back-end/Exu/include/Csr.h"],
 [("read/write and masks","back-end/Exu/Csr.cpp Csr::comb_csr_read, comb_csr_write"),("trap entry/return, interrupt request","back-end/Exu/Csr.cpp Csr::comb_exception, comb_interrupt")],
 state="CSR registers, privilege",observe="CSR ports and registers after each cycle",hook=False)

p("C20","Reference interpreter implements CSRs, traps and interrupts",
 "In the reference interpreter every CSR access, environment call, trap, trap return and interrupt changes exactly the architectural state the privileged architecture (in the documented subset) prescribes: cause, saved pc, trap value, status stack, delegation, vectoring, masks and privilege. An interrupt is taken exactly when pending, enabled and permitted at the current privilege, before the instruction executes.",
 ["inputs","histories"],"all CSR states, privilege levels, trap causes and pending/enable/delegation combinations in any order",
 TREF+"delegation x privilege x pending combinations are barely touched.",
 ["diff/ref.cpp","diff/include/ref.h"],
 [("trap selection and entry","diff/ref.cpp RefCpu::exception, RISCV"),("CSR access","diff/ref.cpp RV32CSR")],
 state="CSR array, privilege",observe="architectural state before/after each step",hook=False)

p("C21","Devices behave as their programming model says",
 "Timer, serial port, interrupt controller, DMA and boot registers respond to each memory-mapped access as documented: 64-bit timer compare raises and lowers the timer interrupt exactly at its threshold, claims and completions of external interrupts pair up, transmitted bytes appear once each in order, DMA copies exactly the requested range. Device side effects happen once per retired access and survive nothing else.",
 ["histories","schedules"],"all sequences of device register accesses and time steps",
 TDUT+"the outcomes depend on access history and on simulated time.",
 ["MemSubSystem/include/PeripheralModel.h","MemSubSystem/PeripheralAxi.cpp","diff/ref.cpp"],
 [("register model and commit side effects","MemSubSystem/include/PeripheralModel.h"),("request/response port","MemSubSystem/PeripheralAxi.cpp")],
 state="timer, UART, PLIC, DMA registers",observe="device ports, interrupt lines, output bytes",hook=False)

p("C22","Backing memory is a faithful byte-addressable store",
 "A read of physical memory returns the last bytes written to each address, for every access width and alignment the memory interface offers, in RAM and in the I/O word store alike, and a write changes only the bytes selected. Loading an image places each byte at its address and leaves the rest zero.",
 ["inputs","histories"],"all sequences of reads and masked writes over RAM and I/O addresses, including range edges",
 TREF+"range edges and partial writes to the I/O store are not reached.",
 ["include/PhysMemory.h","back-end/PhysMemory.cpp","diff/ref.cpp"],
 [("word read/write, I/O word map","PhysMemory.h / PhysMemory.cpp")],
 observe="read results",hook=False)

p("C23","The lockstep checker flags every divergence and nothing else",
 "After every retired instruction the lockstep checker stops with an error if the core's pc, instruction, any general register, any compared CSR, any fault flag or any store differs from the reference model, and otherwise continues. Skipped device accesses and synchronisations copy the core's state into the reference exactly, so that a correct core is never reported.",
 ["inputs","histories"],"all pairs of core and reference states, all skip/sync histories",
 "No test builds or runs the lockstep checker; it needs a core and a reference that disagree.",
 ["diff/diff.cpp","diff/include/diff.h","rv_simu_mmu_v2.cpp"],
 [("state comparison","diff/diff.cpp checkregs"),("step, skip and sync","diff/diff.cpp difftest_step, difftest_skip, difftest_sync_from_dut")],
 observe="exit status and messages of the checker",hook=False)

p("C24","Execution units compute the ISA function for all operands",
 "Each arithmetic, logic, shift, bit-manipulation, multiply, divide, compare and branch operation of the core's execution units returns the ISA result for all operand values, with the right destination, after its fixed latency, in order per unit, and never for a squashed operation. Branch units report the true direction and target and flag a misprediction exactly when the prediction disagrees.",
 ["inputs","schedules"],"all operand pairs and operations, all pipelining and squash interleavings",
 TDUT+"operand corner cases and squash timing are unbounded.",
 ["back-end/Exu/Exu.cpp","back-end/Exu/include/Fu.h","back-end/Exu/include/AbstractFU.h"],
 [("unit functions","back-end/Exu, back-end/Exu/include/Fu.h"),("result arbitration and bypass","back-end/Exu/Exu.cpp")],
 observe="unit output ports",hook=False)

p("C25","Single-precision arithmetic is correctly rounded",
 "Every single-precision add, subtract, multiply, fused multiply-add, divide, square root, min/max, compare, classify, sign-injection and conversion on integer registers returns the IEEE-754 result for all operand values and rounding modes, in the reference interpreter and in the core alike. Not-a-number results are canonical.",
 ["inputs"],"all operand bit patterns and rounding modes",
 TREF+"only a few values and mainly the default rounding mode are exercised.",
 ["diff/ref.cpp","back-end/Exu/include/FPU.h","back-end/Exu/include/fadd.h","back-end/Exu/include/fmul.h","back-end/Exu/Exu.cpp"],
 [("Zfinx operations","diff/ref.cpp RV32Zfinx; FPU unit of the core")],
 observe="destination register",hook=False)

p("C26","Device accesses happen exactly once, in program order",
 "Each retired load or store to device space causes exactly one device access with the program's address, size and data, in program order, and no device write occurs for an instruction that does not retire. A device load returns the value of its one access, and a load that is cancelled by an interrupt has read at most and changed nothing.",
 ["programs","schedules"],"all mixtures of device and memory accesses, mispredictions, faults and interrupts under every fabric timing",
 TDUT+"a duplicate or early access needs a flush at the wrong cycle.",
 ["back-end/Lsu/RealLsu.cpp","MemSubSystem/PeripheralAxi.cpp","MemSubSystem/MemSubsystem.cpp","MemSubSystem/include/PeripheralModel.h"],
 [("device accesses only at the head of the window","back-end/Lsu/RealLsu.cpp MMIO states"),("single outstanding device request","MemSubSystem/PeripheralAxi.cpp")],
 observe="device access log against commit log",hook=False)

p("C27","Starting from a checkpoint resumes exactly the saved machine",
 "Restoring a checkpoint gives a machine whose registers, CSRs, privilege, pc, memory, device words and load reservation equal the saved ones, and whose further execution is identical to the uninterrupted run. A malformed or truncated checkpoint is rejected rather than partly loaded.",
 ["inputs","crash_points","histories"],"all saved machine states and all truncation points of the file",
 "No test loads a checkpoint.",
 ["back-end/BackTop.cpp","back-end/PhysMemory.cpp","main.cpp"],
 [("deserialisation","back-end/BackTop.cpp BackTop::restore_checkpoint"),("I/O layout","PhysMemory.cpp")],
 observe="machine state after restore and subsequent commits",hook=False)

p("C28","Simulation is a deterministic function of its inputs",
 "Two runs of the same program with the same configuration and the same fabric behaviour produce the same cycle-by-cycle behaviour: same commits at the same cycles, same statistics, same outputs. No result depends on uninitialised state, addresses of host memory or the environment.",
 ["programs","schedules"],"all programs and fabric schedules",
 TDUT+"and a single run cannot show dependence on indeterminate state.",
 ["rv_simu_mmu_v2.cpp","back-end/BackTop.cpp","front-end/front_top.cpp","MemSubSystem/MemSubsystem.cpp"],
 [("initialisation of all modules","*::init"),("two-phase comb/seq evaluation","SimCpu::cycle")],
 observe="commit log with cycle numbers; counters",hook=False)

p("C29","Reported statistics agree with what happened",
 "The reported instruction, cycle, branch, misprediction, load and store commit counts equal the numbers of such events in the retired instruction stream, each event counted once.",
 ["programs","schedules"],"all programs and fabric schedules",
 TDUT+"double counting needs flushes and replays at particular moments.",
 ["back-end/include/PerfCount.h","rv_simu_mmu_v2.cpp","back-end/Rob.cpp","back-end/BackTop.cpp"],
 [("commit counters","rv_simu_mmu_v2.cpp SimContext::run_commit_inst; PerfCount")],
 observe="counters at end of run against the commit log",hook=False)

p("C30","Branch prediction never affects results; retirement trains it faithfully",
 "Branch prediction may change timing only. Every retired instruction trains the predictor exactly once, in program order, with its own address, kind, actual direction and actual target and with the prediction that was made for it; the counted mispredictions are those of the retired branches.",
 ["histories","schedules","programs"],"all programs, branch histories, redirections, interrupts and stalls of retirement",
 TDUT+"a lost, duplicated or mixed-up training changes only timing, which no test observes.",
 ["front-end/BPU/BPU.h","front-end/front_top.cpp","back-end/include/FTQ.h","rv_simu_mmu_v2.cpp"],
 [("update path from commit to predictor","rv_simu_mmu_v2.cpp back2front"),("redirect on misprediction","back-end/Idu.cpp, back-end/Rob.cpp")],
 observe="update ports against the commit log",hook=False)

p("C31","The predictor remembers what retired and never invents",
 "The outcome history and return stack used for prediction follow the branches as fetched, become those of the retired instructions on every redirect, and the folded histories always equal the folding of the history itself. Training is applied once, in order and unchanged; a predicted kind or target is one the instruction last trained or the fall-through, entries are forgotten only for want of room, and a branch that always goes the same way is eventually predicted so. The next fetch address is that of the first instruction predicted taken, or the end of the fetch block.",
 ["histories","inputs","schedules"],"all streams of fetches, redirects and retirements, with full training queues, nested calls beyond the stack, aliasing banks and same-cycle updates",
 TDUT+"a corrupted history or table only slows programs down; the deviation appears after particular interleavings of prediction, retirement and redirect.",
 ["front-end/BPU/BPU.h","front-end/BPU/dir_predictor/TAGE_top.h","front-end/BPU/target_predictor/BTB_top.h","front-end/BPU/type_predictor/TypePredictor.h"],
 [("histories","front-end/BPU/BPU.h bpu_hist_comb"),("training queues","front-end/BPU/BPU.h bpu_queue_comb"),("next address","front-end/BPU/BPU.h bpu_predict_main_comb"),("second-next address","front-end/BPU/BPU.h bpu_nlp_comb")],
 observe="ports and history registers of the predictor, cycle by cycle",hook=False)

p("C32","A run does what its command line says and measures the window asked for",
 "The core takes over from the reference model after exactly the number of instructions asked for; a checkpoint run warms up for exactly the requested number, then starts all counters afresh and ends in the cycle in which the requested number has been measured; the other modes end at their limit in the same way. A run ends earlier only when its program does or on request, and its return code says which: the program's exit code, success, or interrupted. A command line that is malformed or contradicts the checkpoint is refused without running anything.",
 ["inputs","programs","schedules"],"all combinations of mode, interval, warm-up, limit and forward count, all programs ending before, at or after each of them, and all groupings of retirements into cycles",
 "No test starts the main program; an off-by-one in the window or a wrong return code needs particular combinations of numbers.",
 ["main.cpp","back-end/Ren.cpp","back-end/include/PerfCount.h","back-end/BackTop.cpp"],
 [("options and run loop","main.cpp main"),("warm-up and measured window","back-end/Ren.cpp Ren::comb_fire"),("counter reset","back-end/include/PerfCount.h perf_reset")],
 observe="reference steps, retired instructions, counters at the end, return code",hook=False)

import os
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
# validation
import sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))

for x in P:
    for fn in x['anchors']['files']:
        if not os.path.exists('/repo/'+fn): print('missing',x['id'],fn)
