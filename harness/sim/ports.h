// Per-cycle observation of the back end's module ports.  Every section is one
// array per cycle with activity; cycles that repeat the previous observation
// and change nothing are left out.
#pragma once
#include <string>
static std::string pt;
static std::string ports_sel;
static void add(std::string &s, const char *f, ...);
static int I(uint32_t v);

static bool p_exc(const RobCommitIO::RobCommitInst &u) {
  return u.page_fault_inst || u.page_fault_load || u.page_fault_store || u.illegal_inst ||
         decode_inst_type(u.type) == ECALL;
}
static bool p_br(wire<INST_TYPE_WIDTH> t) { return decode_inst_type(t) == BR || decode_inst_type(t) == JALR; }

// R: rename.  [t, dec ready, dis ready, flush, interrupt, mispredicted tag or -1,
//   decoded [[da,den,s1en,s1a,s2en,s2a,tag]], slots [[ok,da,den,dp,old,s1en,s1a,s1p,s2en,s2a,s2p,tag]],
//   commits [[da,den,dp,old,exc]]]
static void ports_rename() {
  auto &r = *cpu.back.rename;
  std::string dec, slot, com;
  for (int i = 0; i < DECODE_WIDTH; i++)
    if (r.in.dec2ren->valid[i]) {
      auto &u = r.in.dec2ren->uop[i];
      add(dec, "[%d,%d,%d,%d,%d,%d,%d]", (int)u.dest_areg, (int)u.dest_en, (int)u.src1_en, (int)u.src1_areg,
          (int)u.src2_en, (int)u.src2_areg, p_br(u.type) ? (int)u.br_id : -1);
    }
  bool any = false;
  for (int i = 0; i < DECODE_WIDTH; i++)
    if (r.out.ren2dis->valid[i]) {
      auto &u = r.out.ren2dis->uop[i];
      any = true;
      add(slot, "[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]", (int)u.dest_areg, (int)u.dest_en, (int)u.dest_preg,
          (int)u.old_dest_preg, (int)u.src1_en, (int)u.src1_areg, (int)u.src1_preg, (int)u.src2_en, (int)u.src2_areg,
          (int)u.src2_preg, p_br(u.type) ? (int)u.br_id : -1);
    }
  bool change = any && r.in.dis2ren->ready;
  for (int i = 0; i < COMMIT_WIDTH; i++)
    if (r.in.rob_commit->commit_entry[i].valid) {
      auto &u = r.in.rob_commit->commit_entry[i].uop;
      change = true;
      add(com, "[%d,%d,%d,%d,%d]", (int)u.dest_areg, (int)u.dest_en, (int)u.dest_preg, (int)u.old_dest_preg,
          (int)p_exc(u));
    }
  const bool fl = r.in.rob_bcast->flush, mis = r.in.dec_bcast->mispred, rdy = r.out.ren2dec->ready;
  if (fl || mis || (rdy && !dec.empty())) change = true;
  std::string body;
  add(body, "%d,%d,%d,%d,%d,[%s],[%s],[%s]]", (int)rdy, (int)r.in.dis2ren->ready, (int)fl,
      (int)r.in.rob_bcast->interrupt, mis ? (int)r.in.dec_bcast->br_id : -1, dec.c_str(), slot.c_str(), com.c_str());
  static std::string last;
  if (!change && body == last) return;
  last = change ? "" : body;
  add(pt, "[%lld,", sim_time);
  pt += body;
}

// B: reorder buffer.  [t, [ready, empty, flush, interrupt, interrupt request, redirect index or -1, stores pending,
//   front stall], [exception, ecall, mret, sret, pfi, pfl, pfs, illegal, fence, fence_i, trap value, pc, csr commit],
//   [head valid, index, incomplete head valid, index],
//   dispatched [[id, expect, kind, pfi, illegal, diag, pc, rest..]], completed [[bit, id, pfi, pfl, pfs, flush_pipe,
//   branch, mispredicted, taken, diag, result]], retired [[id, kind, pfi, illegal, pfl, pfs, flush_pipe, mispredicted,
//   taken, diag, pc, rest..]]]
static int p_kind(wire<INST_TYPE_WIDTH> t) {
  switch (decode_inst_type(t)) {
  case CSR: return 1;
  case ECALL: return 2;
  case MRET: return 3;
  case SRET: return 4;
  case SFENCE_VMA: return 5;
  case FENCE_I: return 6;
  case EBREAK: return 7;
  case FENCE: return 8;
  case WFI: return 9;
  case BR: case JALR: return 10;
  default: return 0;
  }
}
static void p_row(std::string &s, const std::string &row) { s += (s.empty() ? "[" : ",[") + row + "]"; }
static void ports_rob() {
  auto &r = *cpu.back.rob;
  auto &b = *r.out.rob_bcast;
  std::string dis, cpl, com;
  for (int i = 0; i < DECODE_WIDTH; i++)
    if (r.in.dis2rob->valid[i] && r.in.dis2rob->dis_fire[i]) {
      auto &u = r.in.dis2rob->uop[i];
      std::string x;
      add(x, "%d,%d,%d,%d,%d,%d,%d", (int)u.rob_idx, (int)(u.expect_mask & ~u.cplt_mask), p_kind(u.type), (int)u.page_fault_inst,
          (int)u.illegal_inst, I(u.diag_val), I(u.dbg.pc));
      add(x, "%d,%d,%d,%d,%d,%d,%d,%d", (int)u.dest_en, (int)u.dest_areg, (int)u.dest_preg, (int)u.old_dest_preg,
          (int)u.ftq_idx, (int)u.ftq_offset, (int)u.stq_idx, (int)u.rob_flag);
      p_row(dis, x);
    }
  for (int i = 0; i < ISSUE_WIDTH; i++)
    if (r.in.exu2rob->entry[i].valid) {
      auto &u = r.in.exu2rob->entry[i].uop;
      const bool br = decode_uop_type(u.op) == UOP_BR || decode_uop_type(u.op) == UOP_JUMP;
      std::string x;
      add(x, "%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d", (int)rob_cplt_mask_from_issue_port(i), (int)u.rob_idx,
          (int)u.page_fault_inst, (int)u.page_fault_load, (int)u.page_fault_store, (int)u.flush_pipe, (int)br,
          br ? (int)u.mispred : 0, br ? (int)u.br_taken : 0, I(u.diag_val), I(u.result));
      p_row(cpl, x);
    }
  for (int i = 0; i < COMMIT_WIDTH; i++)
    if (r.out.rob_commit->commit_entry[i].valid) {
      auto &u = r.out.rob_commit->commit_entry[i].uop;
      std::string x;
      add(x, "%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d", (int)u.rob_idx, p_kind(u.type), (int)u.page_fault_inst,
          (int)u.illegal_inst, (int)u.page_fault_load, (int)u.page_fault_store, (int)u.flush_pipe, (int)u.mispred,
          (int)u.br_taken, I(u.diag_val), I(u.dbg.pc));
      add(x, "%d,%d,%d,%d,%d,%d,%d,%d", (int)u.dest_en, (int)u.dest_areg, (int)u.dest_preg, (int)u.old_dest_preg,
          (int)u.ftq_idx, (int)u.ftq_offset, (int)u.stq_idx, (int)u.rob_flag);
      p_row(com, x);
    }
  const bool mis = r.in.dec_bcast->mispred;
  std::string body;
  add(body, "[%d,%d,%d,%d,%d,%d,%d,%d],[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d],[%d,%d,%d,%d],", (int)r.out.rob2dis->ready,
      (int)r.out.rob2dis->empty, (int)b.flush, (int)b.interrupt, (int)r.in.csr2rob->interrupt_req,
      mis ? (int)r.in.dec_bcast->redirect_rob_idx : -1, (int)r.in.lsu2rob->committed_store_pending,
      (int)(r.in.front_stall && *r.in.front_stall), (int)b.exception, (int)b.ecall, (int)b.mret, (int)b.sret, (int)b.page_fault_inst,
      (int)b.page_fault_load, (int)b.page_fault_store, (int)b.illegal_inst, (int)b.fence, (int)b.fence_i, I(b.trap_val),
      I(b.pc), (int)r.out.rob2csr->commit, (int)b.head_valid, (int)b.head_rob_idx, (int)b.head_incomplete_valid,
      (int)b.head_incomplete_rob_idx);
  body += "[" + dis + "],[" + cpl + "],[" + com + "]]";
  const bool change = !dis.empty() || !cpl.empty() || !com.empty() || b.flush || mis;
  static std::string last;
  if (!change && body == last) return;
  last = change ? "" : body;
  add(pt, "[%lld,", sim_time);
  pt += body;
}

// one cycle's observation; cycles that change nothing and repeat the previous one are dropped
static void p_emit(const std::string &body, bool change) {
  static std::string last;
  if (!change && body == last) return;
  last = change ? "" : body;
  add(pt, "[%lld,", sim_time);
  pt += body;
}

// T: branch tags.  [t, [flush, redirect tag or -1, redirect index, clear mask], [rename ready, interrupt],
//   decoded [[branch, tag, mask]] for every offered slot (mask -1 if refused), dispatched [[branch, mask, id]],
//   resolved [[id, mispredicted]], report [mispredicted, tag, id, clear mask], moving [[id, mask, tag or -1]], number retired]
template <class U> static void p_mov(std::string &s, const U &u) {
  const bool br = decode_uop_type(u.op) == UOP_BR || decode_uop_type(u.op) == UOP_JUMP;
  add(s, "[%d,%d,%d]", (int)u.rob_idx, (int)u.br_mask, br ? (int)u.br_id : -1);
}
static void ports_tags() {
  auto &d = *cpu.back.idu;
  auto &x = *cpu.back.exu;
  auto &r = *cpu.back.rob;
  std::string dec, dis, res, mov;
  for (int i = 0; i < DECODE_WIDTH; i++)
    if (d.in.issue->entries[i].valid) {
      auto &u = d.out.dec2ren->uop[i];
      add(dec, "[%d,%d,%d]", (int)p_br(u.type), (int)u.br_id, d.out.dec2ren->valid[i] ? (int)u.br_mask : -1);
    }
  for (int i = 0; i < DECODE_WIDTH; i++)
    if (r.in.dis2rob->valid[i] && r.in.dis2rob->dis_fire[i]) {
      auto &u = r.in.dis2rob->uop[i];
      add(dis, "[%d,%d,%d]", (int)p_br(u.type), (int)u.br_mask, (int)u.rob_idx);
    }
  for (int i = 0; i < ISSUE_WIDTH; i++) {
    auto &e = x.out.exu2rob->entry[i];
    if (e.valid && (decode_uop_type(e.uop.op) == UOP_BR || decode_uop_type(e.uop.op) == UOP_JUMP))
      add(res, "[%d,%d]", (int)e.uop.rob_idx, (int)e.uop.mispred);
    if (x.in.prf2exe->iss_entry[i].valid) p_mov(mov, x.in.prf2exe->iss_entry[i].uop);
  }
  for (int q = 0; q < IQ_NUM; q++)
    for (int i = 0; i < MAX_IQ_DISPATCH_WIDTH; i++) {
      auto &e = cpu.back.dis->out.dis2iss->req[q][i];
      if (e.valid) p_mov(mov, e.uop);
    }
  int com = 0;
  for (int i = 0; i < COMMIT_WIDTH; i++) com += r.out.rob_commit->commit_entry[i].valid;
  auto &b = *d.out.dec_bcast;
  auto &z = *x.out.exu2id;
  const bool fl = r.out.rob_bcast->flush, rdy = d.in.ren2dec->ready;
  std::string body;
  add(body, "[%d,%d,%d,%d],[%d,%d],", (int)fl, b.mispred ? (int)b.br_id : -1, b.mispred ? (int)b.redirect_rob_idx : -1,
      (int)b.clear_mask, (int)rdy, (int)r.out.rob_bcast->interrupt);
  body += "[" + dec + "],[" + dis + "],[" + res + "],";
  std::string rep;
  add(rep, "[%d,%d,%d,%d],", (int)z.mispred, z.mispred ? (int)z.br_id : -1, z.mispred ? (int)z.redirect_rob_idx : -1,
      (int)z.clear_mask);
  body += rep + "[" + mov + "]," + std::to_string(com) + "]";
  p_emit(body, fl || b.mispred || b.clear_mask || z.mispred || z.clear_mask || com || !mov.empty() || !res.empty() ||
                   !dis.empty() || (rdy && !dec.empty()));
}

// I: issue.  [t, [flush, redirect index or -1], dispatched [[id, dest or -1, parts]], queued [[queue part, id, op, s1 or -1,
//   s2 or -1, dest or -1, s1 unused]], issued [[port able, id, op, s1 or -1, s2 or -1, dest or -1, v1, v2]],
//   produced [[preg, value, by a CSR instruction]], number retired]
static void ports_issue() {
  auto &x = *cpu.back.exu;
  auto &r = *cpu.back.rob;
  std::string dis, que, iss, pro;
  for (int i = 0; i < DECODE_WIDTH; i++)
    if (r.in.dis2rob->valid[i] && r.in.dis2rob->dis_fire[i]) {
      auto &u = r.in.dis2rob->uop[i];
      add(dis, "[%d,%d,%d]", (int)u.rob_idx, u.dest_en ? (int)u.dest_preg : -1, (int)(u.expect_mask & ~u.cplt_mask));
    }
  for (int q = 0; q < IQ_NUM; q++)
    for (int i = 0; i < MAX_IQ_DISPATCH_WIDTH; i++) {
      auto &e = cpu.back.dis->out.dis2iss->req[q][i];
      if (!e.valid) continue;
      auto &u = e.uop;
      // the data half of an atomic swap takes the loaded value but does not use it
      const bool unused = decode_uop_type(u.op) == UOP_STD && u.is_atomic && (u.func7 >> 2) == AmoOp::SWAP;
      add(que, "[%d,%d,%d,%d,%d,%d,%d]", (int)rob_cplt_mask_from_iq(q), (int)u.rob_idx, (int)u.op,
          u.src1_en ? (int)u.src1_preg : -1, u.src2_en ? (int)u.src2_preg : -1, u.dest_en ? (int)u.dest_preg : -1,
          (int)unused);
    }
  for (int i = 0; i < ISSUE_WIDTH; i++) {
    auto &e = x.in.prf2exe->iss_entry[i];
    if (!e.valid) continue;
    auto &u = e.uop;
    bool able = false;
    for (const auto &c : GLOBAL_ISSUE_PORT_CONFIG)
      if (c.port_idx == i) able = (c.support_mask >> (int)u.op) & 1;
    add(iss, "[%d,%d,%d,%d,%d,%d,%d,%d]", (int)able, (int)u.rob_idx, (int)u.op, u.src1_en ? (int)u.src1_preg : -1,
        u.src2_en ? (int)u.src2_preg : -1, u.dest_en ? (int)u.dest_preg : -1, I(u.src1_rdata), I(u.src2_rdata));
  }
  for (auto &e : x.out.exe2prf->entry)
    if (e.valid && e.uop.dest_en && e.uop.dest_preg) 
      add(pro, "[%d,%d,%d]", (int)e.uop.dest_preg, I(e.uop.result), (int)(decode_uop_type(e.uop.op) == UOP_CSR));
  for (auto &e : x.out.exe2prf->bypass)
    // a CSR instruction's value comes from the CSR file and a load's or SC's from memory, not from their units
    if (e.valid && e.uop.dest_en && e.uop.dest_preg && decode_uop_type(e.uop.op) != UOP_CSR &&
        decode_uop_type(e.uop.op) != UOP_LOAD && decode_uop_type(e.uop.op) != UOP_STA)
      add(pro, "[%d,%d,0]", (int)e.uop.dest_preg, I(e.uop.result));
  int com = 0;
  for (int i = 0; i < COMMIT_WIDTH; i++) com += r.out.rob_commit->commit_entry[i].valid;
  const bool fl = r.out.rob_bcast->flush, mis = r.in.dec_bcast->mispred;
  std::string body;
  add(body, "[%d,%d],", (int)fl, mis ? (int)r.in.dec_bcast->redirect_rob_idx : -1);
  body += "[" + dis + "],[" + que + "],[" + iss + "],[" + pro + "]," + std::to_string(com) + "]";
  if (fl || mis || com || !dis.empty() || !que.empty() || !iss.empty() || !pro.empty()) p_emit(body, true);
}

// F: fetch-target queue and instruction buffer.  [t, [flush, redirect block or -1, ready, offered], accepted [[offset,
//   inst, pc, fault, predicted, metadata]] with next pc appended as the last element, waiting [[inst, pc, fault, block,
//   offset, last]], number consumed, lookups [[block, offset, pc, predicted, next]] by issue and [[block, offset, pc]]
//   by retirement, retired [[block, offset, last, mispredicted, pc, predicted, metadata]]]
static uint32_t p_h;
static void p_mix(uint64_t v) {
  for (int k = 0; k < 8; k++, v >>= 8) p_h = (p_h ^ (uint32_t)(v & 255)) * 16777619u;
}
template <class M> static int p_meta1(const M &m) { // metadata record of one retired instruction
  p_h = 2166136261u;
  p_mix(m.alt_pred), p_mix(m.altpcpn), p_mix(m.pcpn), p_mix(m.sc_used), p_mix(m.sc_pred), p_mix(m.sc_sum);
  for (auto &v : m.sc_idx) p_mix(v);
  p_mix(m.loop_used), p_mix(m.loop_hit), p_mix(m.loop_pred), p_mix(m.loop_idx), p_mix(m.loop_tag);
  for (int j = 0; j < 4; j++) p_mix(m.tage_idx[j]), p_mix(m.tage_tag[j]);
  return (int)(p_h >> 2);
}
template <class F> static int p_meta(const F &f, int i) { // the same fields of one fetched slot
  p_h = 2166136261u;
  p_mix(f.alt_pred[i]), p_mix(f.altpcpn[i]), p_mix(f.pcpn[i]), p_mix(f.sc_used[i]), p_mix(f.sc_pred[i]);
  p_mix(f.sc_sum[i]);
  for (auto &v : f.sc_idx[i]) p_mix(v);
  p_mix(f.loop_used[i]), p_mix(f.loop_hit[i]), p_mix(f.loop_pred[i]), p_mix(f.loop_idx[i]), p_mix(f.loop_tag[i]);
  for (int j = 0; j < 4; j++) p_mix(f.tage_idx[i][j]), p_mix(f.tage_tag[i][j]);
  return (int)(p_h >> 2);
}
static int p_latch_ftq; // block named by the resolution that is announced in the current cycle
static void ports_ftq() {
  auto &q = *cpu.back.pre;
  auto &f = *q.in.front2pre;
  std::string acc, wait, lp, lr, com;
  int offered = 0, used = 0;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    offered += f.valid[i];
    if (q.out.pre2front->fire[i])
      add(acc, "[%d,%d,%d,%d,%d,%d]", i, I(f.inst[i]), I(f.pc[i]), (int)f.page_fault_inst[i], (int)f.predict_dir[i],
          p_meta(f, i));
  }
  if (!acc.empty()) add(acc, "[%d]", I(f.predict_next_fetch_address[0]));
  for (int i = 0; i < DECODE_WIDTH; i++) {
    auto &e = q.out.issue->entries[i];
    if (e.valid)
      add(wait, "[%d,%d,%d,%d,%d,%d]", I(e.inst), I(e.pc), (int)e.page_fault_inst, (int)e.ftq_idx, (int)e.ftq_offset,
          (int)e.ftq_is_last);
    used += q.in.idu_consume->fire[i];
  }
  for (int i = 0; i < FTQ_PRF_PC_PORT_NUM; i++) {
    auto &a = q.in.ftq_prf_pc_req->req[i];
    auto &b = q.out.ftq_prf_pc_resp->resp[i];
    if (a.valid)
      add(lp, "[%d,%d,%d,%d,%d]", (int)a.ftq_idx, (int)a.ftq_offset, I(b.pc), b.valid ? (int)b.pred_taken : -1,
          I(b.next_pc));
  }
  for (int i = 0; i < FTQ_ROB_PC_PORT_NUM; i++) {
    auto &a = q.in.ftq_rob_pc_req->req[i];
    if (a.valid) add(lr, "[%d,%d,%d]", (int)a.ftq_idx, (int)a.ftq_offset, I(q.out.ftq_rob_pc_resp->resp[i].pc));
  }
  for (int i = 0; i < COMMIT_WIDTH; i++)
    if (q.in.rob_commit->commit_entry[i].valid) {
      auto &u = q.in.rob_commit->commit_entry[i].uop;
      auto &m = q.out.ftq_commit_info->resp[i];
      add(com, "[%d,%d,%d,%d,%d,%d,%d]", (int)u.ftq_idx, (int)u.ftq_offset, (int)u.ftq_is_last, (int)u.mispred, I(m.pc),
          (int)m.pred_taken, p_meta1(m));
    }
  const bool fl = q.in.rob_bcast->flush, mis = cpu.back.idu->out.dec_bcast->mispred;
  std::string body;
  add(body, "[%d,%d,%d,%d],[", (int)fl, mis ? p_latch_ftq : -1, (int)q.out.pre2front->ready, offered);
  body += acc + "],[" + wait + "]," + std::to_string(used) + ",[" + lp + "],[" + lr + "],[" + com + "]]";
  p_latch_ftq = cpu.back.idu->br_latch.ftq_idx;
  p_emit(body, fl || mis || used || !acc.empty() || !lp.empty() || !com.empty());
}

#include "front.h"

static void ports_start() {
  const char *e = getenv("PORTS");
  ports_sel = e ? e : "";
  q = {ports_sel == "Q"};
  if (ports_sel == "R") {
    std::string a;
    for (int i = 0; i <= ARF_NUM; i++) add(a, "%d", (int)cpu.back.rename->arch_RAT[i]);
    add(pt, "[");
    pt += a + "]";
  }
  if (ports_sel == "I") {
    std::string a;
    for (int i = 0; i < PRF_NUM; i++) add(a, "%d", I(cpu.back.prf->reg_file[i]));
    pt += "[" + a + "]";
  }
}
static void ports_cycle() {
  if (ports_sel == "R") ports_rename();
  if (ports_sel == "B") ports_rob();
  if (ports_sel == "T") ports_tags();
  if (ports_sel == "I") ports_issue();
  if (ports_sel == "F") ports_ftq();
  if (ports_sel == "Q") ports_front();
}
