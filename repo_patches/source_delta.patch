From e2d8a61feb8f20d6b8ddf75595133721cbc495a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:16 +0000
Subject: [PATCH 01/36] fix: take the right trap on an instruction page fault
 in the reference model

The fault path reused the instruction word and interrupt flags of the
previous step, so a fault right after an ECALL or an interrupt was
reported with that cause.
---
 diff/ref.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index e7e6fe1..1d11e7d 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -276,6 +276,10 @@ void RefCpu::exec() {
     page_fault_inst = !va2pa_fix(p_addr, state.pc, 0);
 
     if (page_fault_inst) {
+      // Nothing was fetched and interrupts were not evaluated for this step.
+      Instruction = 0;
+      M_software_interrupt = M_timer_interrupt = M_external_interrupt = false;
+      S_software_interrupt = S_timer_interrupt = S_external_interrupt = false;
       exception(state.pc);
       return;
     } else {
-- 
2.43.0


From 1e224492f56c7c0423561cbd71488956410c9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:16 +0000
Subject: [PATCH 02/36] fix: fault supervisor fetches from user superpages in
 the reference model

SUM only permits loads and stores. The 4 KB path already checked this.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 1d11e7d..569186b 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1767,8 +1767,8 @@ bool RefCpu::va2pa(uint32_t &p_addr, uint32_t v_addr, uint32_t type) {
     bool is_user_page = (pte1 & PTE_U) != 0;
     if (eff_priv == 0 && !is_user_page)
       return false; // U-mode 访问 S-page -> Fault
-    if (eff_priv == 1 && is_user_page && !sum)
-      return false; // S-mode 访问 U-page 且 SUM=0 -> Fault
+    if (eff_priv == 1 && is_user_page && (type == 0 || !sum))
+      return false; // S-mode 取指，或 SUM=0 时访问 U-page -> Fault
 
     // 对齐检查 (Superpage 要求 PPN[0] 为 0)
     // PPN[0] 对应 PTE 的 [19:10] 位
-- 
2.43.0


From 47123aeeab69bc610253856ae42a2b1591a2c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:16 +0000
Subject: [PATCH 03/36] fix: apply the mip/sip write masks in the reference
 model

The branch compared the table index with the CSR address, so writes went
through unmasked and the two views diverged.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 569186b..d9fddfa 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -940,13 +940,13 @@ void RefCpu::RV32CSR() {
         // sie 始终是 mie 的影子 (masked by 0x333)
         state.csr[csr_sie] = state.csr[csr_mie] & sie_mask;
 
-      } else if (csr_idx == number_mip || csr_idx == number_sip) {
+      } else if (csr_idx == csr_mip || csr_idx == csr_sip) {
         uint32_t mip_mask =
             0x00000bbb; // MEIP(11), SEIP(9), MTIP(7), STIP(5), MSIP(3), SSIP(1)
         uint32_t sip_mask =
             0x00000333; // SEIP(9), UEIP(8), STIP(5), UTIP(4), SSIP(1), USIP(0)
 
-        if (csr_idx == number_sip) {
+        if (csr_idx == csr_sip) {
           // sip: 0x333 (Include User-Level Interrupt bits)
           state.csr[csr_mip] =
               (state.csr[csr_mip] & ~sip_mask) | (csr_wdata & sip_mask);
-- 
2.43.0


From 523fc2d6a85bf59633892de47eafa452c40b64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:39 +0000
Subject: [PATCH 04/36] fix: do not delegate traps taken in M-mode

A page fault or illegal instruction in M-mode was delivered to S-mode when
medeleg had the bit set, and an M-mode ECALL got cause 0 when medeleg[8]
was set.
---
 back-end/Exu/Csr.cpp | 4 +++-
 diff/ref.cpp         | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index dc3ec4d..2fa8a31 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -119,7 +119,9 @@ void Csr::comb_exception() {
   uint32_t mie_reg = CSR_RegFile[csr_mie];
   uint32_t mip_reg = CSR_RegFile[csr_mip];
   uint32_t mideleg = CSR_RegFile[csr_mideleg];
-  uint32_t medeleg = CSR_RegFile[csr_medeleg];
+  // Traps taken in M-mode are never delegated.
+  uint32_t medeleg =
+      privilege < RISCV_MODE_M ? (uint32_t)CSR_RegFile[csr_medeleg] : 0;
   uint32_t mtvec = CSR_RegFile[csr_mtvec];
   uint32_t stvec = CSR_RegFile[csr_stvec];
 
diff --git a/diff/ref.cpp b/diff/ref.cpp
index d9fddfa..2b5acb3 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -309,7 +309,8 @@ void RefCpu::exception(uint32_t trap_val) {
 
   uint32_t mstatus = state.csr[csr_mstatus];
   uint32_t sstatus = state.csr[csr_sstatus];
-  uint32_t medeleg = state.csr[csr_medeleg];
+  // Traps taken in M-mode are never delegated.
+  uint32_t medeleg = privilege < 3 ? state.csr[csr_medeleg] : 0;
   uint32_t mtvec = state.csr[csr_mtvec];
   uint32_t stvec = state.csr[csr_stvec];
 
@@ -525,7 +526,8 @@ void RefCpu::RISCV() {
   uint32_t mie_reg = state.csr[csr_mie];
   uint32_t mip_reg = ref_effective_mip(state.csr[csr_mip]);
   uint32_t mideleg = state.csr[csr_mideleg];
-  uint32_t medeleg = state.csr[csr_medeleg];
+  // Traps taken in M-mode are never delegated.
+  uint32_t medeleg = privilege < 3 ? state.csr[csr_medeleg] : 0;
 
   // 提取关键位
   bool mstatus_mie = (mstatus & MSTATUS_MIE) != 0;
-- 
2.43.0


From c05a76814b22d6141d29a1d71314c04d2fcd7be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:39 +0000
Subject: [PATCH 05/36] fix: report the interrupt when it coincides with an
 ECALL in the reference model

An ECALL interrupted by a supervisor interrupt mixed the interrupt bit with
the ECALL cause, or trapped to M-mode.
---
 diff/ref.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 2b5acb3..33a3617 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -303,7 +303,11 @@ void RefCpu::exception(uint32_t trap_val) {
   uint32_t next_pc = state.pc + 4;
 
   // 重新获取当前状态（因为exec可能没传进来最新的）
-  bool ecall = (Instruction == INST_ECALL);
+  // An interrupt is taken before the instruction executes.
+  bool ecall = (Instruction == INST_ECALL) && !M_software_interrupt &&
+               !M_timer_interrupt && !M_external_interrupt &&
+               !S_software_interrupt && !S_timer_interrupt &&
+               !S_external_interrupt;
   bool mret = (Instruction == INST_MRET);
   bool sret = (Instruction == INST_SRET);
 
-- 
2.43.0


From 3c3b4218fb6b5681bc5b8a65f5d0cffd6784f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:40 +0000
Subject: [PATCH 06/36] fix: LR, failed SC and undefined AMOs make no store in
 the reference model

The store side effects were replayed with the address and data of an
earlier store: an LR after a UART write printed the byte again.
---
 diff/ref.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 33a3617..4b989c0 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1110,11 +1110,14 @@ void RefCpu::RV32A() {
     break;
   }
   default: {
+    state.store = false; // undefined AMO encoding
     break;
   }
   }
 
-  store_data();
+  if (state.store) {
+    store_data();
+  }
   state.pc = next_pc;
 }
 
-- 
2.43.0


From 0b4f14825cd2d881c14180a21e0f5062e6b950cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:40 +0000
Subject: [PATCH 07/36] fix: honour medeleg for illegal instructions in the
 reference model

The core already delegates them.
---
 diff/ref.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 4b989c0..6da3b20 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -327,6 +327,7 @@ void RefCpu::exception(uint32_t trap_val) {
   bool medeleg_page_fault_inst = (medeleg >> 12) & 1;
   bool medeleg_page_fault_load = (medeleg >> 13) & 1;
   bool medeleg_page_fault_store = (medeleg >> 15) & 1;
+  bool medeleg_illegal_inst = (medeleg >> 2) & 1;
 
   // 这里直接复用成员变量里的中断状态 (假设RISCV函数刚跑完，状态是新的)
   // 如果不是，需要重新计算 M_software_interrupt 等
@@ -338,7 +339,8 @@ void RefCpu::exception(uint32_t trap_val) {
       (ecall && (privilege == 3)) ||
       (page_fault_inst && !medeleg_page_fault_inst) ||
       (page_fault_load && !medeleg_page_fault_load) ||
-      (page_fault_store && !medeleg_page_fault_store) || illegal_exception;
+      (page_fault_store && !medeleg_page_fault_store) ||
+      (illegal_exception && !medeleg_illegal_inst);
 
   bool STrap = S_software_interrupt || S_timer_interrupt ||
                S_external_interrupt ||
@@ -346,7 +348,8 @@ void RefCpu::exception(uint32_t trap_val) {
                (ecall && (privilege == 1) && medeleg_S_ecall) ||
                (page_fault_inst && medeleg_page_fault_inst) ||
                (page_fault_load && medeleg_page_fault_load) ||
-               (page_fault_store && medeleg_page_fault_store);
+               (page_fault_store && medeleg_page_fault_store) ||
+               (illegal_exception && medeleg_illegal_inst);
 
   if (MTrap) {
     state.csr[csr_mepc] = state.pc;
@@ -432,6 +435,8 @@ void RefCpu::exception(uint32_t trap_val) {
       exception_code = 13;
     else if (page_fault_store && medeleg_page_fault_store)
       exception_code = 15;
+    else if (illegal_exception && medeleg_illegal_inst)
+      exception_code = 2;
 
     cause |= exception_code;
     state.csr[csr_scause] = cause;
-- 
2.43.0


From 9f23552415d605adaaddd1941ab86993432621a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:40 +0000
Subject: [PATCH 08/36] fix: CSRRWI with a zero immediate writes the CSR in the
 reference model

---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 6da3b20..c651ea5 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -875,8 +875,8 @@ void RefCpu::RV32CSR() {
 
   uint32_t reg_rdata1 = state.gpr[rs1];
 
-  bool we = funct3 == 1 || rs1 != 0;
-  bool re = funct3 != 1 || rd != 0;
+  bool we = (funct3 & 0b11) == 1 || rs1 != 0;
+  bool re = (funct3 & 0b11) != 1 || rd != 0;
   uint32_t wcmd = funct3 & 0b11;
   uint32_t wdata;
 
-- 
2.43.0


From c559d3ee204349cddca0e09c13f32c18f46ff900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:40 +0000
Subject: [PATCH 09/36] fix: drop in-flight multiply, divide and float
 operations on a full pipeline flush

---
 back-end/Exu/Exu.cpp              | 2 ++
 back-end/Exu/include/AbstractFU.h | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Exu.cpp b/back-end/Exu/Exu.cpp
index 49ec5b4..817b02c 100644
--- a/back-end/Exu/Exu.cpp
+++ b/back-end/Exu/Exu.cpp
@@ -188,6 +188,7 @@ void Exu::comb_begin() {
     out.exu2fu->entry[i].en = false;
     out.exu2fu->entry[i].consume = false;
     out.exu2fu->entry[i].flush = false;
+    out.exu2fu->entry[i].flush_all = false;
     out.exu2fu->entry[i].flush_mask = 0;
     out.exu2fu->entry[i].clear_mask = 0;
   }
@@ -351,6 +352,7 @@ void Exu::comb_fu_ctrl() {
 
   for (size_t i = 0; i < units.size(); i++) {
     out.exu2fu->entry[i].flush = (flush_all || flush_br);
+    out.exu2fu->entry[i].flush_all = flush_all;
     out.exu2fu->entry[i].flush_mask = flush_mask;
     out.exu2fu->entry[i].clear_mask = clear_mask;
     
diff --git a/back-end/Exu/include/AbstractFU.h b/back-end/Exu/include/AbstractFU.h
index 6065305..0e68466 100644
--- a/back-end/Exu/include/AbstractFU.h
+++ b/back-end/Exu/include/AbstractFU.h
@@ -12,6 +12,7 @@ public:
     wire<1> en = 0;
     wire<1> consume = 0;
     wire<1> flush = 0;
+    wire<1> flush_all = 0;
     wire<BR_MASK_WIDTH> flush_mask = 0;
     wire<BR_MASK_WIDTH> clear_mask = 0;
     ExuInst inst;
@@ -117,7 +118,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush) {
-      if (in.flush_mask == ~wire<BR_MASK_WIDTH>(0)) {
+      if (in.flush_all) {
         pipeline_1.clear();
       } else {
         auto it = pipeline_1.begin();
@@ -203,7 +204,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush && busy_1 &&
-        (in.flush_mask == ~wire<BR_MASK_WIDTH>(0) ||
+        (in.flush_all ||
          (current_inst_1.br_mask & in.flush_mask) != 0)) {
       busy_1 = false;
       done_cycle_1 = 0;
-- 
2.43.0


From 645a4f564ef31736b17fc7df37ca8a4619e94f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:58 +0000
Subject: [PATCH 10/36] fix: exceptions enter the trap handler at the vector
 base, without the mode bits

---
 back-end/Exu/Csr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 2fa8a31..4a514ef 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -196,7 +196,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
     }
 
     mstatus = (mstatus & ~MSTATUS_MPP) | ((privilege & 0x3) << 11);
@@ -249,7 +249,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_stvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
     }
 
     // 更新 sstatus
-- 
2.43.0


From 8da41d1f0984152616909014919ca63071faa9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:52:49 +0000
Subject: [PATCH 11/36] fix: do not forward from a failed or undecided
 store-conditional or an interrupted store

---
 back-end/Lsu/RealLsu.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index b4f124e..f322d18 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -573,10 +573,21 @@ void RealLsu::comb_stlf() {
             entry.load_state = LoadState::CheckStlfRetry;
             break;
           }
+          if (stq_entry.suppress_write) {
+            check_stlf_num++; // 失败的SC或被中断的store不会写内存，不能转发
+            continue;
+          }
           lsu_perf::count_stlf_check(ctx);
           STLFResult stlf_result = check_stlf(entry.p_addr, entry.func3, stq_entry.paddr, stq_entry.func3);
           if (stlf_result == STLFResult::Overlap) {
-            if (!stq_entry.data_valid) {
+            const bool sc_undecided =
+                stq_entry.is_lrsc &&
+                (stq_entry.store_state == StoreState::WaitTlb ||
+                 stq_entry.store_state == StoreState::WaitTlbRetry ||
+                 stq_entry.store_state == StoreState::WaitData ||
+                 stq_entry.store_state == StoreState::WaitDone ||
+                 stq_entry.store_state == StoreState::Ready);
+            if (!stq_entry.data_valid || sc_undecided) {
               entry.load_state = LoadState::CheckStlfRetry;
               break;
             }
-- 
2.43.0


From 004b661fdcde3001ad391715f1d3d3c95f36bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:53:15 +0000
Subject: [PATCH 12/36] fix: the load reservation follows retired instructions,
 as in the reference model

---
 back-end/Lsu/RealLsu.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index f322d18..c5aa322 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -385,7 +385,6 @@ void RealLsu::comb_tlb_in_ldq() {
         ldq_entry.diag_val = ldq_entry.v_addr;
         ldq_entry.result = ldq_entry.v_addr;
         ldq_entry.load_state = LoadState::WaitFinish; // 页面错误的load进入WaitFinish状态，由后续逻辑处理异常
-        nxt.lrsc_unit.reserve_valid = false;
       } else if (resp.result == MMUResultType::MISS) {
         ldq_entry.load_state = LoadState::WaitTlbRetry;
       }
@@ -460,7 +459,6 @@ void RealLsu::comb_tlb_in_stq() {
         } else if (resp.result == MMUResultType::PAGE_FAULT) {
           stq_entry.page_fault = true;
           stq_entry.store_state = StoreState::WaitDone; // 进入页面错误状态，由后续逻辑处理异常
-          nxt.lrsc_unit.reserve_valid = false;          // 如果store发生页面错误，取消LRSC保留
         } else if (resp.result == MMUResultType::MISS) {
           stq_entry.store_state = StoreState::WaitTlbRetry; // TLB Miss的store重新进入等待TLB的状态等待重试
         }
@@ -948,7 +946,6 @@ void RealLsu::comb_lsu2exe() {
 
             stq_entry.sc_pass = sc_pass;
             stq_entry.suppress_write = !sc_pass;
-            nxt.lrsc_unit.reserve_valid = false;
 
             wb_uop.result = sc_pass ? 0 : 1;
             wb_uop.dest_preg = stq_entry.dest_preg;
@@ -1076,10 +1073,15 @@ void RealLsu::comb_stq_commit() {
         nxt_entry.suppress_write = true;
         commit_stq_entry();
       } else if (nxt_entry.is_lrsc && !nxt_entry.sc_pass) {
+        nxt.lrsc_unit.reserve_valid = false;
         nxt_entry.suppress_write = true;
         nxt_entry.store_state = StoreState::Done;
         commit_stq_entry();
       } else {
+        if (nxt_entry.is_lrsc ||
+            nxt.lrsc_unit.reserve_addr == nxt_entry.paddr) {
+          nxt.lrsc_unit.reserve_valid = false;
+        }
         nxt_entry.store_state = StoreState::Committed;
         commit_stq_entry();
       }
@@ -1153,7 +1155,16 @@ void RealLsu::comb_flush() {
     if (!keep_uncached_store) {
       nxt.uncached_unit.valid = false;
     }
-    // nxt.lrsc_unit.reserve_valid = false;
+    // An interrupted LR has not taken effect.
+    for (int i = 0; i < COMMIT_WIDTH; i++) {
+      const auto &uop = in.rob_commit->commit_entry[i].uop;
+      if (in.rob_bcast->interrupt && in.rob_commit->commit_entry[i].valid &&
+          decode_inst_type(uop.type) == AMO && (uop.func7 >> 2) == AmoOp::LR &&
+          nxt.lrsc_unit.reserve_rob_idx == uop.rob_idx &&
+          nxt.lrsc_unit.reserve_rob_flag == uop.rob_flag) {
+        nxt.lrsc_unit.reserve_valid = false;
+      }
+    }
   }
 
   if (in.dec_bcast->mispred) {
-- 
2.43.0


From 22ae3112a922a086c2254e3a369fc95f63910b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:53:15 +0000
Subject: [PATCH 13/36] fix: a fence waits for committed stores even when its
 group is not complete

---
 back-end/Rob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 2250455..5021e88 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -324,7 +324,7 @@ void Rob::comb_commit() {
         }
         const auto &uop = entry[i][deq_ptr].uop;
         const bool ready = rob_is_complete(uop);
-        if (ready && !rob_is_flush_inst(uop)) {
+        if (ready && !rob_is_flush_inst(uop) && !rob_is_fence_inst(uop)) {
           single_commit = true;
           single_idx = i;
           progress_single_commit = true;
-- 
2.43.0


From 4060e02c0e00f2d12f22c6c41d295182f3fa18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:53:15 +0000
Subject: [PATCH 14/36] fix: drop the pending CSR write of an interrupted CSR
 instruction

---
 back-end/Exu/Csr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 4a514ef..d1f1acd 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -396,6 +396,11 @@ void Csr::comb_csr_write() {
 
     csr_we_1 = false;
   }
+
+  // A CSR write whose instruction was flushed must not be used by a later one.
+  if (in.rob_bcast->flush) {
+    csr_we_1 = false;
+  }
 }
 
 void Csr::seq() {
-- 
2.43.0


From 4be3311653d8a1e0070086fefeadd39fa33935ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:53:15 +0000
Subject: [PATCH 15/36] fix: an interrupted instruction is not counted and has
 no device effect

---
 back-end/Ren.cpp   | 14 ++++++++------
 rv_simu_mmu_v2.cpp |  4 ++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/back-end/Ren.cpp b/back-end/Ren.cpp
index 2292dc8..8729f65 100644
--- a/back-end/Ren.cpp
+++ b/back-end/Ren.cpp
@@ -269,12 +269,14 @@ void Ren::comb_fire() {
   for (int i = 0; i < COMMIT_WIDTH; i++) {
     if (in.rob_commit->commit_entry[i].valid) {
       const auto &commit_uop = in.rob_commit->commit_entry[i].uop;
-      ctx->perf.commit_num++;
-      if (is_load(commit_uop)) {
-        ctx->perf.commit_load_num++;
-      }
-      if (is_store(commit_uop)) {
-        ctx->perf.commit_store_num++;
+      if (!in.rob_bcast->interrupt) {
+        ctx->perf.commit_num++;
+        if (is_load(commit_uop)) {
+          ctx->perf.commit_load_num++;
+        }
+        if (is_store(commit_uop)) {
+          ctx->perf.commit_store_num++;
+        }
       }
 
       if (ctx->is_ckpt) {
diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index 9565f56..e01f5bb 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -724,6 +724,10 @@ void SimCpu::commit_sync(InstInfo *inst, int commit_slot) {
   BackTop *back = &this->back;
   Assert(commit_slot >= 0 && commit_slot < COMMIT_WIDTH &&
          "SimCpu::commit_sync: invalid commit slot");
+  // An interrupted instruction has not executed.
+  if (static_cast<bool>(back->rob->out.rob_bcast->interrupt)) {
+    return;
+  }
   const auto &ftq_info = back->ftq_commit_info.resp[commit_slot];
   if (inst->type == JALR) {
     if (inst->is_ret) {
-- 
2.43.0


From 1ba97c13bf47b90267b1a4ad0947271c1be3465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:53:15 +0000
Subject: [PATCH 16/36] fix: keep the faulting address when the load half of an
 atomic completes later

---
 back-end/Rob.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 5021e88..8393470 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -581,7 +581,9 @@ void Rob::comb_complete() {
       for (int k = 0; k < LSU_LDU_COUNT; k++) {
         if (i == IQ_LD_PORT_BASE + k) {
           // 保存物理地址，用于 Commit 时的对齐检查
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
 
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
@@ -598,7 +600,9 @@ void Rob::comb_complete() {
       for (int k = 0; k < LSU_STA_COUNT; k++) {
         if (i == IQ_STA_PORT_BASE + k) {
           // Keep resolved store address in ROB for commit-time policy checks.
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
             entry_1[bank_idx][line_idx].uop.page_fault_load |=
-- 
2.43.0


From 92cc405e418348ffacc942c77d579fb5aa69e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:14 +0000
Subject: [PATCH 17/36] fix: x0 reads zero while a load to x0 is writing back

---
 back-end/Prf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/back-end/Prf.cpp b/back-end/Prf.cpp
index a4e8e01..4d6d6dc 100644
--- a/back-end/Prf.cpp
+++ b/back-end/Prf.cpp
@@ -14,7 +14,8 @@ static inline bool is_killed(const ExePrfIO::ExePrfWbUop &uop,
 inline uint32_t read_operand_with_bypass(
     uint32_t preg, bool src_en, const reg<32> *reg_file,
     const ExePrfIO::ExePrfEntry *inst_r, const ExePrfIO *exe2prf) {
-  if (!src_en) {
+  // preg 0 固定映射 x0，不能被目的为 x0 的写回旁路。
+  if (!src_en || preg == 0) {
     return 0;
   }
 
-- 
2.43.0


From 15ba135e0b7dbcde28b885f192f5e8567b6a4aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:02:49 +0000
Subject: [PATCH 18/36] fix: perform every MMIO access once

---
 MemSubSystem/MemSubsystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MemSubSystem/MemSubsystem.cpp b/MemSubSystem/MemSubsystem.cpp
index e6c390b..d7c2a07 100755
--- a/MemSubSystem/MemSubsystem.cpp
+++ b/MemSubSystem/MemSubsystem.cpp
@@ -1001,6 +1001,10 @@ void MemSubsystem::comb_outputs() {
   publish_pending_dcache_response();
 
   mem_route_block.comb_response();
+
+  // Publish the MMIO response before the backend runs, otherwise the LSU keeps
+  // its request up for one more cycle and the access is performed twice.
+  peripheral_axi_.comb_outputs();
 }
 
 void MemSubsystem::comb_inputs() {
-- 
2.43.0


From d1a730975825abaa919669c0bd70c48aae466090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:02:49 +0000
Subject: [PATCH 19/36] fix: an instruction fetch probes the data cache again
 when the line is busy

---
 MemSubSystem/MemRouteBlock.cpp       | 18 +++++++++++++++---
 MemSubSystem/RealDcache.cpp          |  8 ++++++--
 MemSubSystem/include/MemRouteBlock.h |  4 ++++
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 256c7b3..391b3ae 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -60,8 +60,11 @@ void MemRouteBlock::comb_response() {
         out.ptw_events->req_id = cur.issued_tags.req_id;
       }
     } else if (replay == ReplayType::CONFLICT) {
-      out.icache_resp->resp_valid = (owner == Owner::ICACHE);
-      out.icache_resp->resp_miss = (owner == Owner::ICACHE);
+      // Not a miss: the line may still be dirty in the DCache, probe again.
+      if (owner == Owner::ICACHE) {
+        nxt.icache_retry_valid = true;
+        nxt.icache_retry_addr = cur.issued_tags.req_addr;
+      }
       out.wakeup->dtlb = (owner == Owner::PTW_DTLB);
       out.wakeup->itlb = (owner == Owner::PTW_ITLB);
       out.wakeup->walk = (owner == Owner::PTW_WALK);
@@ -79,6 +82,11 @@ void MemRouteBlock::comb_response() {
       }
     }
   }
+  if (in.icache_req->req_valid) {
+    // The front end has dropped the previous probe.
+    *out.icache_resp = {};
+    nxt.icache_retry_valid = false;
+  }
   if (in.dcache_resp->mshr_fill) {
     out.wakeup->dtlb |= nxt.ptw_wait.dtlb;
     out.wakeup->itlb |= nxt.ptw_wait.itlb;
@@ -95,9 +103,13 @@ void MemRouteBlock::comb_request() {
 
   Owner ptw_owner = Owner::NONE;
   uint32_t ptw_addr = 0;
-  if (in.icache_req->req_valid && cur.issued_tags.owner != Owner::ICACHE) {
+  if (in.icache_req->req_valid) {
     ptw_owner = Owner::ICACHE;
     ptw_addr = in.icache_req->req_addr;
+  } else if (cur.icache_retry_valid) {
+    ptw_owner = Owner::ICACHE;
+    ptw_addr = cur.icache_retry_addr;
+    nxt.icache_retry_valid = false;
   } else if (in.ptw_walk_req->valid && cur.issued_tags.owner != Owner::PTW_WALK) {
     ptw_owner = Owner::PTW_WALK;
     ptw_addr = in.ptw_walk_req->addr;
diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 8186ada..e6127e9 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -436,9 +436,13 @@ void RealDcache::stage2_comb() {
         else {
             if(s1s2_cur.icache_req==i){
                 // ICache coherent probes are lookup-only: report miss to the
-                // front-end route block without allocating an MSHR.
+                // front-end route block without allocating an MSHR. A line with
+                // an outstanding MSHR may hold merged store data, so the probe
+                // is only decided once that line has been filled.
                 resp.valid = true;
-                resp.replay = ReplayType::CONFLICT;
+                resp.replay = in.mshr2dcache->find_resp[i].valid
+                                  ? ReplayType::CONFLICT
+                                  : ReplayType::MSHR_FULL;
                 resp.req_id = slot.req_id;
                 continue;
             }
diff --git a/MemSubSystem/include/MemRouteBlock.h b/MemSubSystem/include/MemRouteBlock.h
index b28fa4e..f90fc12 100644
--- a/MemSubSystem/include/MemRouteBlock.h
+++ b/MemSubSystem/include/MemRouteBlock.h
@@ -84,6 +84,10 @@ struct MemRouteBlockState {
   wire<1> lsu_replay_valid;
   uint32_t lsu_replay_req_id;
 
+  // ICache probe that the DCache could not decide yet.
+  wire<1> icache_retry_valid;
+  uint32_t icache_retry_addr;
+
   uint32_t next_req_id;
 };
 
-- 
2.43.0


From abacdddc8efd0589114c3955516ba7965cf1888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:05:49 +0000
Subject: [PATCH 20/36] fix: do not present an accepted peripheral bus request
 again

---
 MemSubSystem/PeripheralAxi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MemSubSystem/PeripheralAxi.cpp b/MemSubSystem/PeripheralAxi.cpp
index 506c0cb..6d38a3d 100644
--- a/MemSubSystem/PeripheralAxi.cpp
+++ b/MemSubSystem/PeripheralAxi.cpp
@@ -81,6 +81,10 @@ void PeripheralAxi::comb_outputs() {
   }
 
   if (!cur.req_accepted) {
+    // The bus has taken the request: presenting it again would repeat it.
+    if (cur.write ? in.write.req_accepted : in.read.req_accepted) {
+      return;
+    }
     const uint8_t total_size = static_cast<uint8_t>(access_size_bytes(cur.func3) - 1u);
     if (cur.write) {
       out.write.req_valid = true;
-- 
2.43.0


From f4d60d95a6fb6a4646738a41c77189d490e4496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:02 +0000
Subject: [PATCH 21/36] fix: ignore the bus response of a flushed device load

---
 back-end/Lsu/RealLsu.cpp       | 7 ++++++-
 back-end/Lsu/include/RealLsu.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index c5aa322..3ca31a4 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -285,6 +285,7 @@ void RealLsu::comb_mmio_out() {
   *out.peripheral_req = {};
   if (in.peripheral_resp->ready) {
     if (nxt.uncached_unit.valid) {
+      nxt.uncached_unit.sent = true;
       out.peripheral_req->is_mmio = true;
       out.peripheral_req->wen = !nxt.uncached_unit.is_load;
       out.peripheral_req->mmio_addr = nxt.uncached_unit.addr;
@@ -296,7 +297,9 @@ void RealLsu::comb_mmio_out() {
   }
 }
 void RealLsu::comb_mmio_in() {
-  if (in.peripheral_resp->is_mmio && cur.uncached_unit.valid) {
+  // A response that arrives before the request is sent belongs to a flushed load.
+  if (in.peripheral_resp->is_mmio && cur.uncached_unit.valid &&
+      cur.uncached_unit.sent) {
     if (cur.uncached_unit.is_load) {
       auto &entry = nxt.ldq[cur.uncached_unit.idx];
       if (nxt.finish_count < LDQ_SIZE) {
@@ -548,6 +551,7 @@ void RealLsu::comb_stlf() {
           entry.load_state = LoadState::WaitMmioResp;
           lsu_perf::start_mem_inst(ctx, entry);
           nxt.uncached_unit.valid = true;
+          nxt.uncached_unit.sent = false;
           nxt.uncached_unit.is_load = true;
           nxt.uncached_unit.addr = entry.p_addr;
           nxt.uncached_unit.func3 = entry.func3;
@@ -871,6 +875,7 @@ void RealLsu::comb_lsu2dcache_stq() {
       if (nxt_entry.is_mmio == true) {
         if (i == 0 && !nxt.uncached_unit.valid) {
           nxt.uncached_unit.valid = true;
+          nxt.uncached_unit.sent = false;
           nxt.uncached_unit.is_load = false;
           nxt.uncached_unit.addr = nxt_entry.paddr;
           nxt.uncached_unit.wdata = nxt_entry.data;
diff --git a/back-end/Lsu/include/RealLsu.h b/back-end/Lsu/include/RealLsu.h
index e32237a..9dbd3c9 100644
--- a/back-end/Lsu/include/RealLsu.h
+++ b/back-end/Lsu/include/RealLsu.h
@@ -97,6 +97,7 @@ struct LdqEntry {
 };
 
 struct UncachedUnit {
+  wire<1> sent; // the request has been presented to the peripheral
   wire<1> valid;
 
   wire<1> is_load;
-- 
2.43.0


From 4a2ce9acb6c275a7e3e7a719a79f4bad7a73a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:15:10 +0000
Subject: [PATCH 22/36] fix: a waiting page walk is not forgotten when another
 requester misses

---
 MemSubSystem/MemRouteBlock.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 391b3ae..16681e9 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -76,9 +76,9 @@ void MemRouteBlock::comb_response() {
         out.wakeup->itlb = (owner == Owner::PTW_ITLB);
         out.wakeup->walk = (owner == Owner::PTW_WALK);
       } else {
-        nxt.ptw_wait.dtlb = (owner == Owner::PTW_DTLB);
-        nxt.ptw_wait.itlb = (owner == Owner::PTW_ITLB);
-        nxt.ptw_wait.walk = (owner == Owner::PTW_WALK);
+        nxt.ptw_wait.dtlb |= (owner == Owner::PTW_DTLB);
+        nxt.ptw_wait.itlb |= (owner == Owner::PTW_ITLB);
+        nxt.ptw_wait.walk |= (owner == Owner::PTW_WALK);
       }
     }
   }
-- 
2.43.0


From 024dfb36f56926bf8d767bdad929cacf8345a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:09 +0000
Subject: [PATCH 23/36] fix: the last word of the address space overlaps only
 itself

The end of a load at 0xfffffffc wrapped to zero, so any older store seemed to
cover the load and its data was forwarded.
---
 back-end/Lsu/RealLsu.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 3ca31a4..9bccdb0 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -84,12 +84,12 @@ static void wake_store_replays_on_mshr_fill(const DcacheLsuIO &dcache_resp,
 STLFResult check_stlf(uint32_t load_addr, uint32_t load_func3, uint32_t store_addr, uint32_t store_func3) {
   int store_width = get_mem_width(store_func3);
   int load_width = get_mem_width(load_func3);
-  uint32_t s_start = store_addr;
-  uint32_t s_end = s_start + store_width;
-  uint32_t l_start = load_addr;
-  uint32_t l_end = l_start + load_width;
-  uint32_t overlap_start = std::max(s_start, l_start);
-  uint32_t overlap_end = std::min(s_end, l_end);
+  uint64_t s_start = store_addr;
+  uint64_t s_end = s_start + store_width;
+  uint64_t l_start = load_addr;
+  uint64_t l_end = l_start + load_width;
+  uint64_t overlap_start = std::max(s_start, l_start);
+  uint64_t overlap_end = std::min(s_end, l_end);
 
   if (s_start <= l_start && s_end >= l_end) {
     return STLFResult::Overlap; // Store completely covers Load
-- 
2.43.0


From 2b96cc0f105761ad9e0c3a5d68e67a7076fbd018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:41:27 +0000
Subject: [PATCH 24/36] fix: an interrupted LR leaves the earlier reservation
 in place

---
 back-end/Lsu/RealLsu.cpp       | 5 ++++-
 back-end/Lsu/include/RealLsu.h | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 9bccdb0..3a3672a 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -1034,6 +1034,8 @@ void RealLsu::comb_lsu2exe() {
         nxt.finish[finish_idx].valid = false; // 无论如何都需要将完成的条目标记为无效
 
         if (ldq_entry.is_lrsc && !ldq_entry.page_fault) {
+          nxt.lrsc_unit.prev_valid = nxt.lrsc_unit.reserve_valid;
+          nxt.lrsc_unit.prev_addr = nxt.lrsc_unit.reserve_addr;
           nxt.lrsc_unit.reserve_valid = true;
           nxt.lrsc_unit.reserve_addr = ldq_entry.p_addr;
           nxt.lrsc_unit.reserve_rob_idx = ldq_entry.rob_idx;
@@ -1167,7 +1169,8 @@ void RealLsu::comb_flush() {
           decode_inst_type(uop.type) == AMO && (uop.func7 >> 2) == AmoOp::LR &&
           nxt.lrsc_unit.reserve_rob_idx == uop.rob_idx &&
           nxt.lrsc_unit.reserve_rob_flag == uop.rob_flag) {
-        nxt.lrsc_unit.reserve_valid = false;
+        nxt.lrsc_unit.reserve_valid = nxt.lrsc_unit.prev_valid;
+        nxt.lrsc_unit.reserve_addr = nxt.lrsc_unit.prev_addr;
       }
     }
   }
diff --git a/back-end/Lsu/include/RealLsu.h b/back-end/Lsu/include/RealLsu.h
index 9dbd3c9..379ef68 100644
--- a/back-end/Lsu/include/RealLsu.h
+++ b/back-end/Lsu/include/RealLsu.h
@@ -124,6 +124,8 @@ struct LrScUnit {
   wire<ROB_IDX_WIDTH> reserve_rob_idx;
   wire<1> reserve_rob_flag;
   wire<BR_MASK_WIDTH> reserve_br_mask;
+  wire<1> prev_valid; // reservation before the last LR
+  wire<32> prev_addr;
 };
 struct WaitMmuSTQEntry{
   wire<1> valid;
-- 
2.43.0


From 5c6daa98a17553eb4740e265e8493c4d381dc823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:29 +0000
Subject: [PATCH 25/36] fix: carry statistical-corrector and loop-predictor
 metadata from fetch to training

---
 rv_simu_mmu_v2.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index e01f5bb..0b20f6c 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -1163,6 +1163,17 @@ void SimCpu::front_cycle() {
       back.in.alt_pred[j] = front.out.alt_pred[j];
       back.in.altpcpn[j] = front.out.altpcpn[j];
       back.in.pcpn[j] = front.out.pcpn[j];
+      back.in.sc_used[j] = front.out.sc_used[j];
+      back.in.sc_pred[j] = front.out.sc_pred[j];
+      back.in.sc_sum[j] = front.out.sc_sum[j];
+      for (int t = 0; t < BPU_SCL_META_NTABLE; ++t) {
+        back.in.sc_idx[j][t] = front.out.sc_idx[j][t];
+      }
+      back.in.loop_used[j] = front.out.loop_used[j];
+      back.in.loop_hit[j] = front.out.loop_hit[j];
+      back.in.loop_pred[j] = front.out.loop_pred[j];
+      back.in.loop_idx[j] = front.out.loop_idx[j];
+      back.in.loop_tag[j] = front.out.loop_tag[j];
       for (int k = 0; k < 4; k++) { // TN_MAX = 4 (分支预测相关索引)
         back.in.tage_idx[j][k] = front.out.tage_idx[j][k];
         back.in.tage_tag[j][k] = front.out.tage_tag[j][k];
-- 
2.43.0


From b9f56bd35f6608fd6c943aadefac9c49135d301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:11 +0000
Subject: [PATCH 26/36] fix: stop on a missing, malformed or truncated image or
 checkpoint in release builds

The loader's checks were Assert(), which compiles to nothing under NDEBUG.
A truncated checkpoint looped forever and a bad header was accepted.
---
 back-end/BackTop.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/back-end/BackTop.cpp b/back-end/BackTop.cpp
index 03a44bd..3946f4a 100644
--- a/back-end/BackTop.cpp
+++ b/back-end/BackTop.cpp
@@ -412,6 +412,17 @@ void BackTop::seq() {
   lsu->seq();
 }
 
+// 以下为镜像/检查点加载代码。输入文件错误必须在任何构建下终止，
+// 而 util.h 的 Assert 在 NDEBUG 下为空操作。
+#undef Assert
+#define Assert(cond)                                                           \
+  do {                                                                         \
+    if (!(cond)) {                                                             \
+      std::cerr << "Load failed: " << #cond << std::endl;                      \
+      exit(1);                                                                 \
+    }                                                                          \
+  } while (0)
+
 // --- 辅助函数：简化 zlib 读写 POD 类型 ---
 template <typename T> void gz_write_pod(gzFile file, const T &data) {
   if (gzwrite(file, &data, sizeof(T)) != sizeof(T)) {
-- 
2.43.0


From f5de908001a422102742847f1e858d3470de68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:11 +0000
Subject: [PATCH 27/36] fix: lockstep reports a store the reference did not
 make

The store flag was compared only when the reference stored.
---
 diff/diff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff/diff.cpp b/diff/diff.cpp
index d0c1d54..77213a9 100644
--- a/diff/diff.cpp
+++ b/diff/diff.cpp
@@ -232,10 +232,10 @@ static void checkregs() {
       goto fault;
   }
 
-  if (ref_state.store) {
-    if (dut_cpu.store != ref_state.store)
-      goto fault;
+  if (dut_cpu.store != ref_state.store)
+    goto fault;
 
+  if (ref_state.store) {
     if (dut_cpu.store_data != ref_state.store_data)
       goto fault;
 
-- 
2.43.0


From eed480c08f92d866135842b71fc4d8a60913e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:14:43 +0000
Subject: [PATCH 28/36] fix: produce canonical NaNs and saturating conversions
 in single-precision operations

The bundled softfloat library follows the x86 conventions. NaN results
carried the operand payload or the wrong sign, and out-of-range conversions
to integers did not saturate.
---
 back-end/Exu/include/FPU.h | 34 ++++++++++++++++++++++--------
 diff/ref.cpp               | 42 +++++++++++++++++++++++++++-----------
 2 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/back-end/Exu/include/FPU.h b/back-end/Exu/include/FPU.h
index 1157f1b..48a9d73 100644
--- a/back-end/Exu/include/FPU.h
+++ b/back-end/Exu/include/FPU.h
@@ -41,6 +41,24 @@ protected:
     return ((v & 0x7F800000u) == 0x7F800000u) && ((v & 0x007FFFFFu) != 0);
   }
 
+  // An operation that produces a NaN produces the canonical one.
+  static inline uint32_t f32_result(float32_t f) {
+    return is_nan_u32(f.v) ? 0x7fc00000u : f.v;
+  }
+
+  // Invalid conversions saturate; NaN converts to the largest integer.
+  static inline uint32_t f32_to_i32_riscv(float32_t f, uint_fast8_t rm) {
+    bool negative = (f.v >> 31) && !is_nan_u32(f.v);
+    uint32_t res = static_cast<uint32_t>(f32_to_i32(f, rm, true));
+    return (res == 0x80000000u && !negative) ? 0x7fffffffu : res;
+  }
+
+  static inline uint32_t f32_to_ui32_riscv(float32_t f, uint_fast8_t rm) {
+    bool negative = (f.v >> 31) && !is_nan_u32(f.v);
+    uint32_t res = static_cast<uint32_t>(f32_to_ui32(f, rm, true));
+    return negative ? 0 : res;
+  }
+
   static inline uint32_t f32_classify(float32_t f) {
     uint32_t bits = f.v;
     uint32_t sign = (bits >> 31) & 1u;
@@ -147,9 +165,9 @@ protected:
         case FCVT_W_S: {
             uint32_t rs2_sel = inst.imm & 0x1F;
             if (rs2_sel == 0) {
-              inst.result = static_cast<uint32_t>(f32_to_i32(a, softfloat_roundingMode, true));
+              inst.result = f32_to_i32_riscv(a, softfloat_roundingMode);
             } else if (rs2_sel == 1) {
-              inst.result = f32_to_ui32(a, softfloat_roundingMode, true);
+              inst.result = f32_to_ui32_riscv(a, softfloat_roundingMode);
             } else {
               assert(0);
             }
@@ -169,17 +187,17 @@ protected:
         default:
           switch (inst.func7 >> 2) {
         case FADD:
-            inst.result = f32_add(a,b).v;
+            inst.result = f32_result(f32_add(a,b));
             break;
         case FSUB:
             b.v ^= 0x80000000;
-            inst.result = f32_add(a,b).v;
+            inst.result = f32_result(f32_add(a,b));
             break;
         case FMUL:
-            inst.result = f32_mul(a,b).v;
+            inst.result = f32_result(f32_mul(a,b));
             break;
         case FDIV:
-            inst.result = f32_div(a,b).v;
+            inst.result = f32_result(f32_div(a,b));
             break;
         default:
             switch (inst.func7) {
@@ -188,7 +206,7 @@ protected:
               if (rs2_sel != 0) {
                 assert(0);
               }
-              inst.result = f32_sqrt(a).v;
+              inst.result = f32_result(f32_sqrt(a));
               break;
             }
             case FSGNJ:
@@ -239,7 +257,7 @@ protected:
         break;
     }
     default: {
-        inst.result = f32_add(a,b).v;
+        inst.result = f32_result(f32_add(a,b));
         break;
     }
     }
diff --git a/diff/ref.cpp b/diff/ref.cpp
index c651ea5..3474ba0 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -105,6 +105,24 @@ static inline float32_t to_f32(uint32_t v) {
 
 static inline uint32_t from_f32(float32_t f) { return f.v; }
 
+// An operation that produces a NaN produces the canonical one.
+static inline uint32_t from_f32_result(float32_t f) {
+  return (f.v & 0x7fffffff) > 0x7f800000 ? 0x7fc00000 : f.v;
+}
+
+// Invalid conversions saturate; NaN converts to the largest integer.
+static inline uint32_t f32_to_i32_riscv(float32_t f, uint_fast8_t rm) {
+  bool negative = (f.v >> 31) && (f.v & 0x7fffffff) <= 0x7f800000;
+  uint32_t res = (uint32_t)f32_to_i32(f, rm, true);
+  return (res == 0x80000000 && !negative) ? 0x7fffffff : res;
+}
+
+static inline uint32_t f32_to_ui32_riscv(float32_t f, uint_fast8_t rm) {
+  bool negative = (f.v >> 31) && (f.v & 0x7fffffff) <= 0x7f800000;
+  uint32_t res = (uint32_t)f32_to_ui32(f, rm, true);
+  return negative ? 0 : res;
+}
+
 static inline bool is_nan(uint32_t v) {
   // 指数全1 (0xFF)，尾数不为0
   return ((v & 0x7F800000) == 0x7F800000) && ((v & 0x007FFFFF) != 0);
@@ -706,19 +724,19 @@ void RefCpu::RV32Zfinx() {
     switch (funct7) {
     case 0x00: // FADD.S
       f_res = f32_add(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_result(f_res);
       break;
     case 0x04: // FSUB.S
       f_res = f32_sub(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_result(f_res);
       break;
     case 0x08: // FMUL.S
       f_res = f32_mul(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_result(f_res);
       break;
     case 0x0C: // FDIV.S
       f_res = f32_div(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_result(f_res);
       break;
     case 0x2C: // FSQRT.S (rs2 必须为 0)
       if (rs2 != 0) {
@@ -726,7 +744,7 @@ void RefCpu::RV32Zfinx() {
         return;
       }
       f_res = f32_sqrt(f_rs1);
-      i_res = from_f32(f_res);
+      i_res = from_f32_result(f_res);
       break;
 
     // 注入符号 (FSGNJ) - 纯位操作，不触发异常
@@ -767,9 +785,9 @@ void RefCpu::RV32Zfinx() {
     // 转换 (Convert)
     case 0x60: // FCVT.W.S (Float to Int32)
       if (rs2 == 0)
-        i_res = (uint32_t)f32_to_i32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_i32_riscv(f_rs1, softfloat_roundingMode);
       else if (rs2 == 1)
-        i_res = f32_to_ui32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_ui32_riscv(f_rs1, softfloat_roundingMode);
       else
         illegal_exception = true;
       break;
@@ -783,7 +801,7 @@ void RefCpu::RV32Zfinx() {
         illegal_exception = true;
         return;
       }
-      i_res = from_f32(f_res);
+      i_res = from_f32_result(f_res);
       break;
 
       // Zfinx 特殊说明：
@@ -817,7 +835,7 @@ void RefCpu::RV32Zfinx() {
   // 结果 = (rs1 * rs2) + rs3
   case 0x43: // FMADD.S
     f_res = f32_mulAdd(f_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = from_f32_result(f_res);
     break;
   case 0x47: // FMSUB.S: (rs1 * rs2) - rs3
     // SoftFloat 的 mulAdd 定义通常是 a*b + c。
@@ -827,7 +845,7 @@ void RefCpu::RV32Zfinx() {
     {
       float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
       f_res = f32_mulAdd(f_rs1, f_rs2, f_neg_rs3);
-      i_res = from_f32(f_res);
+      i_res = from_f32_result(f_res);
     }
     break;
   case 0x4B: // FNMSUB.S: -(rs1 * rs2) + rs3
@@ -836,14 +854,14 @@ void RefCpu::RV32Zfinx() {
     // SoftFloat 可能并没有直接对应指令，可能需要操作 rs1 或 rs2 符号
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = from_f32_result(f_res);
   } break;
   case 0x4F: // FNMADD.S: -(rs1 * rs2) - rs3
   {
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_neg_rs3);
-    i_res = from_f32(f_res);
+    i_res = from_f32_result(f_res);
   } break;
 
   default:
-- 
2.43.0


From b94895ea9b41c062572affccdaa1dc510986acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:51:31 +0000
Subject: [PATCH 29/36] fix: loads answered from a held refill see stores
 merged into it

---
 MemSubSystem/RealDcache.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index e6127e9..dd5a7f8 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -517,6 +517,12 @@ void RealDcache::stage2_comb() {
                 fill_req_merge_wires[i].word_off = f.word_off;
                 fill_req_merge_wires[i].data = slot.data;
                 fill_req_merge_wires[i].strb = slot.strb;
+                // Loads answered from the held fill must see this store too.
+                out.dcache2mshr->mshr_req[iidx].valid = true;
+                out.dcache2mshr->mshr_req[iidx].addr = slot.addr;
+                out.dcache2mshr->mshr_req[iidx].is_store = true;
+                out.dcache2mshr->mshr_req[iidx].data = slot.data;
+                out.dcache2mshr->mshr_req[iidx].strb = slot.strb;
             }
 
             resp.valid  = true;
-- 
2.43.0


From 13d5d0d101b6b18b1afd800092066d2159e5138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:39:07 +0000
Subject: [PATCH 30/36] fix: do not start a device load behind an instruction
 that will flush it

The reorder buffer announces the oldest unfinished instruction of the head
line so that a device load may start. It skipped a finished fence, fault or
other flushing instruction of the same line. When that instruction could not
retire in the same cycle the load read the device, was flushed and read it
again.
---
 back-end/Rob.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 8393470..b7b813c 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -211,6 +211,12 @@ void Rob::comb_commit() {
         out.rob_bcast->head_incomplete_rob_idx = make_rob_idx(deq_ptr, i);
         break;
       }
+      // What follows in this line will be flushed when this one retires.
+      if (entry[i][deq_ptr].valid &&
+          (rob_is_flush_inst(entry[i][deq_ptr].uop) ||
+           rob_is_fence_inst(entry[i][deq_ptr].uop))) {
+        break;
+      }
     }
   }
   const bool front_stall =
-- 
2.43.0


From b75627467ee34999e7458fcaaed3b3e92a7c0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:12:37 +0000
Subject: [PATCH 31/36] fix: an interrupted LR restores a reservation only if
 it made one

The reservation in place before an LR was restored by matching the position
of the interrupted instruction in the window. Positions are reused, so an LR
that had not executed, or one that faults, could bring back a reservation
that a store-conditional had already used up.
---
 back-end/Lsu/RealLsu.cpp       | 17 ++++++++++-------
 back-end/Lsu/include/RealLsu.h |  1 +
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 3a3672a..b083e04 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -1034,6 +1034,7 @@ void RealLsu::comb_lsu2exe() {
         nxt.finish[finish_idx].valid = false; // 无论如何都需要将完成的条目标记为无效
 
         if (ldq_entry.is_lrsc && !ldq_entry.page_fault) {
+          nxt.lrsc_unit.lr_pending = true;
           nxt.lrsc_unit.prev_valid = nxt.lrsc_unit.reserve_valid;
           nxt.lrsc_unit.prev_addr = nxt.lrsc_unit.reserve_addr;
           nxt.lrsc_unit.reserve_valid = true;
@@ -1162,13 +1163,15 @@ void RealLsu::comb_flush() {
     if (!keep_uncached_store) {
       nxt.uncached_unit.valid = false;
     }
-    // An interrupted LR has not taken effect.
-    for (int i = 0; i < COMMIT_WIDTH; i++) {
-      const auto &uop = in.rob_commit->commit_entry[i].uop;
-      if (in.rob_bcast->interrupt && in.rob_commit->commit_entry[i].valid &&
-          decode_inst_type(uop.type) == AMO && (uop.func7 >> 2) == AmoOp::LR &&
-          nxt.lrsc_unit.reserve_rob_idx == uop.rob_idx &&
-          nxt.lrsc_unit.reserve_rob_flag == uop.rob_flag) {
+  }
+  // An interrupted LR has not taken effect.
+  for (int i = 0; i < COMMIT_WIDTH; i++) {
+    const auto &uop = in.rob_commit->commit_entry[i].uop;
+    if (nxt.lrsc_unit.lr_pending && in.rob_commit->commit_entry[i].valid &&
+        nxt.lrsc_unit.reserve_rob_idx == uop.rob_idx &&
+        nxt.lrsc_unit.reserve_rob_flag == uop.rob_flag) {
+      nxt.lrsc_unit.lr_pending = false;
+      if (in.rob_bcast->interrupt) {
         nxt.lrsc_unit.reserve_valid = nxt.lrsc_unit.prev_valid;
         nxt.lrsc_unit.reserve_addr = nxt.lrsc_unit.prev_addr;
       }
diff --git a/back-end/Lsu/include/RealLsu.h b/back-end/Lsu/include/RealLsu.h
index 379ef68..148ee9e 100644
--- a/back-end/Lsu/include/RealLsu.h
+++ b/back-end/Lsu/include/RealLsu.h
@@ -124,6 +124,7 @@ struct LrScUnit {
   wire<ROB_IDX_WIDTH> reserve_rob_idx;
   wire<1> reserve_rob_flag;
   wire<BR_MASK_WIDTH> reserve_br_mask;
+  wire<1> lr_pending; // the LR that made the reservation has not retired
   wire<1> prev_valid; // reservation before the last LR
   wire<32> prev_addr;
 };
-- 
2.43.0


From dbeb5877a81b192de69e0372b094db4051a2b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:39 +0000
Subject: [PATCH 32/36] fix: predict the following instruction for a branch
 without a stored target

The target buffer works on bank-local addresses.  Its fall-through was used
as a fetch address, so a known jump whose target was not stored sent fetch
to an unrelated, possibly misaligned address.
---
 front-end/BPU/BPU.h                      | 10 +++++++---
 front-end/BPU/target_predictor/BTB_top.h |  7 +++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/front-end/BPU/BPU.h b/front-end/BPU/BPU.h
index 521232b..ce49734 100644
--- a/front-end/BPU/BPU.h
+++ b/front-end/BPU/BPU.h
@@ -1109,8 +1109,12 @@ public:
         out.tage_calc_altpcpn_latch_next[i] =
             tage_valid ? tage_out[bank_sel].altpcpn_out : static_cast<pcpn_t>(0);
         out.tage_result_valid_latch_next[i] = tage_valid;
-        out.btb_pred_target_latch_next[i] =
-            btb_valid ? btb_out[bank_sel].pred_target : in.do_pred_for_this_pc[i] + 4;
+        // The BTB works on bank-local addresses, so its own fall-through is not
+        // the address after this instruction.
+        const uint32_t btb_target = (btb_valid && btb_out[bank_sel].pred_hit)
+                                        ? static_cast<uint32_t>(btb_out[bank_sel].pred_target)
+                                        : in.do_pred_for_this_pc[i] + 4;
+        out.btb_pred_target_latch_next[i] = btb_target;
         out.btb_result_valid_latch_next[i] = btb_valid;
         for (int k = 0; k < TN_MAX; ++k) {
           out.tage_pred_calc_tags_latch_next[i][k] =
@@ -1132,7 +1136,7 @@ public:
         out.out.out_loop_tag[i] = tage_valid ? tage_out[bank_sel].loop_tag_out : 0;
 
         if (pred_taken && !found_taken_branch && btb_valid) {
-          uint32_t chosen_target = btb_out[bank_sel].pred_target;
+          uint32_t chosen_target = btb_target;
           if (p_type == BR_RET && in.ras_has_entry_snapshot) {
             chosen_target = in.ras_top_snapshot;
           }
diff --git a/front-end/BPU/target_predictor/BTB_top.h b/front-end/BPU/target_predictor/BTB_top.h
index 5780667..5fb52e8 100644
--- a/front-end/BPU/target_predictor/BTB_top.h
+++ b/front-end/BPU/target_predictor/BTB_top.h
@@ -51,6 +51,7 @@ public:
 
   struct OutputPayload {
     target_addr_t pred_target;
+    wire1_t pred_hit; // pred_target is a trained target
     wire1_t btb_pred_out_valid;
     wire1_t btb_update_done;
     wire1_t busy;
@@ -453,6 +454,7 @@ public:
 
   struct BtbPredOutputCombOut {
     target_addr_t pred_target;
+    wire1_t pred_hit;
   };
 
   struct BtbVictimSelectCombIn {
@@ -771,6 +773,7 @@ public:
                               rd.pred_tc_mode},
           pred_out);
       out.pred_target = pred_out.pred_target;
+      out.pred_hit = pred_out.pred_hit;
       out.btb_pred_out_valid = true;
     }
 
@@ -1314,11 +1317,14 @@ private:
       }
       if (tc_pre_hit && (!tc_hit || tc_mode_prefers_pre(in.tc_mode))) {
         out.pred_target = tc_pre_target;
+        out.pred_hit = true;
       } else if (tc_hit) {
         out.pred_target = tc_target;
+        out.pred_hit = true;
 #if ENABLE_INDIRECT_BTB_FALLBACK
       } else if (in.hit_info.hit) {
         out.pred_target = in.set_data.bta[in.hit_info.hit_way];
+        out.pred_hit = true;
 #endif
       } else {
         out.pred_target = in.pc + 4;
@@ -1328,6 +1334,7 @@ private:
                type == BR_RET) {
       if (in.hit_info.hit) {
         out.pred_target = in.set_data.bta[in.hit_info.hit_way];
+        out.pred_hit = true;
         return;
       }
       out.pred_target = in.pc + 4;
-- 
2.43.0


From c3d6a04965b3ba6c3e83bad5a86b0a024b19087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:32 +0000
Subject: [PATCH 33/36] fix: keep a floating-point wake-up that is due together
 with a division's

---
 back-end/Isu.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/back-end/Isu.cpp b/back-end/Isu.cpp
index 48ab793..7b65acb 100644
--- a/back-end/Isu.cpp
+++ b/back-end/Isu.cpp
@@ -242,7 +242,16 @@ void Isu::comb_calc_latency_next() {
     }
   }
 
-  // FP 槽位：与 DIV 相同。
+  auto is_woken = [&](wire<PRF_IDX_WIDTH> preg) {
+    for (int k = 0; k < MAX_WAKEUP_PORTS; k++) {
+      if (out.iss_awake->wake[k].valid && out.iss_awake->wake[k].preg == preg) {
+        return true;
+      }
+    }
+    return false;
+  };
+
+  // FP 槽位：与 DIV 相同；唤醒通道被 DIV 占用时保留到下一拍。
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &cur = fp_wake_slots[i];
     auto &nxt = fp_wake_slots_1[i];
@@ -253,8 +262,10 @@ void Isu::comb_calc_latency_next() {
     if (cur.countdown > 0) {
       nxt = cur;
       nxt.countdown = cur.countdown - 1;
-    } else {
+    } else if (is_woken(cur.dest_preg)) {
       nxt = {};
+    } else {
+      nxt = cur;
     }
   }
 
@@ -404,7 +415,10 @@ void Isu::comb_awake() {
       int port = get_port_for_unit(OP_MASK_FP, i);
       int ch = delayed_ch_map[port];
       Assert(ch != -1);
-      Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
+      if (out.iss_awake->wake[ch].valid) {
+        // A DIV on the same port wakes its dependents now; this one waits.
+        continue;
+      }
       out.iss_awake->wake[ch].valid = true;
       out.iss_awake->wake[ch].preg = slot.dest_preg;
     }
-- 
2.43.0


From acd3cdeaee3d35c883904d29e2be68b91dcbeb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:45 +0000
Subject: [PATCH 34/36] fix: read memory for an instruction line only after the
 DCache probe is decided

The instruction cache raised its memory request and its DCache probe in the
same cycle. A dirty line written back between the two was missed by both, so
fetch after FENCE.I could return the old instruction. The memory request now
waits for the probe's answer.
---
 front-end/icache/icache_module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/front-end/icache/icache_module.cpp b/front-end/icache/icache_module.cpp
index 363c3d5..c90d153 100644
--- a/front-end/icache/icache_module.cpp
+++ b/front-end/icache/icache_module.cpp
@@ -1428,7 +1428,9 @@ void ICache::eval_state_machine() {
               static_cast<uint64_t>(sim_time);
         }
       } else {
-        io.out.mem_req_valid = true;
+        // Memory may only be read once the DCache probe is decided: a dirty
+        // line evicted between the two would be missed by both.
+        io.out.mem_req_valid = io.regs.dcache_probe_done_r;
         mem_axi_state_next = AXI_IDLE;
       }
     } else {
-- 
2.43.0


From 4017b3fc70358d29fae1e23e8664516e5e7c84df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:25 +0000
Subject: [PATCH 35/36] fix: count a checkpoint run towards its limit only
 after the warm-up

---
 main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index c803f04..10d09b3 100644
--- a/main.cpp
+++ b/main.cpp
@@ -473,7 +473,9 @@ int main(int argc, char *argv[]) {
         return 130;
       }
 
-    if (cpu.ctx.perf.commit_num >= config.max_commit_inst) {
+    // a checkpoint run counts towards the limit only after its warm-up
+    if ((!cpu.ctx.is_ckpt || cpu.ctx.perf.perf_start) &&
+        cpu.ctx.perf.commit_num >= config.max_commit_inst) {
         cpu.ctx.exit_reason = ExitReason::SIMPOINT;
         std::cout << "[sim] Reached MAX_COMMIT_INST=" << std::dec
                   << config.max_commit_inst << std::endl;
-- 
2.43.0


From beac40bcdbf7000907b689e3e8d805fb064ed4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:25 +0000
Subject: [PATCH 36/36] fix: return the program's exit code when it ends while
 fast-forwarding

---
 main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 10d09b3..01fde0f 100644
--- a/main.cpp
+++ b/main.cpp
@@ -402,8 +402,9 @@ int main(int argc, char *argv[]) {
     difftest_ref_set_device_effects(false);
     difftest_ref_set_ref_only(false);
 
+    // also when the program is over: its exit code is taken from the core
+    cpu.back.restore_from_ref();
     if (cpu.ctx.exit_reason == ExitReason::NONE) {
-      cpu.back.restore_from_ref();
 #ifndef CONFIG_BPU
       std::cout << "[Oracle] Synced with ref snapshot before switching to O3."
                 << std::endl;
-- 
2.43.0

