// Drives decode, split into operations, register read and the execution units directly.
//   exu SCRIPT OUT.ndjson
//   E id  v1..v63 (initial registers)  ncycles, then per cycle
//     flush killmask clearmask csrvalue ninst
//       (word pc dest s1 s2 tag mask rob robflag predtaken prednext side loadvalue delay)...
// An operation waits until its unit is ready, its sources have been produced and nothing is being squashed; an
// instruction whose destination is in use is left out; a CSR instruction executes alone.
#include "Dispatch.h"
#include "Exu.h"
#include "Idu.h"
#include "IssueQueue.h"
#include "Prf.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
using std::string;
long long sim_time = 0;

static void add(string &s, const char *f, ...) {
  char b[6000];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (!s.empty() && s.back() != '[') s += ',';
  s += b;
}
static int I(uint32_t v) { return (int)v; }
static int code(int op) {
  switch ((UopType)op) {
  case UOP_JUMP: return 0;
  case UOP_ADD: return 1;
  case UOP_BR: return 2;
  case UOP_LOAD: return 3;
  case UOP_STA: return 4;
  case UOP_STD: return 5;
  case UOP_CSR: return 6;
  case UOP_MUL: return 7;
  case UOP_DIV: return 8;
  case UOP_FP: return 9;
  default: return 10;
  }
}
static int group(int op) { int c = code(op); return c == 10 ? 1 : c == 0 ? 2 : c; }

struct Ins { uint32_t word, pc, dp, s1, s2, tag, mask, rob, flag, pt, nxt, side, ldv, delay; };
struct Op { int id; IssPrfIO::IssPrfUop u; bool issued; };
struct Fly { int id, op; uint32_t mask, preg; bool den; int state; };  // state: 0 in a unit, 1 in the LSU, 2 done
struct Ans { int id, left; bool load; uint32_t mask; };

struct Unit {
  PrfExeIO prf2exe; DecBroadcastIO dec; RobBroadcastIO rob; CsrExeIO csr2exe; LsuExeIO lsu2exe; CsrStatusIO csrst{};
  ExePrfIO exe2prf; ExeIssIO exe2iss; ExeCsrIO exe2csr; ExeLsuIO exe2lsu; ExuIdIO exu2id; ExuRobIO exu2rob;
  IssPrfIO iss2prf; PrfAwakeIO awake; FtqPrfPcReqIO preq; FtqPrfPcRespIO presp;
  Exu x{nullptr};
  Prf p{nullptr};
  Idu idu{nullptr};
  Dispatch dis{nullptr};
  Unit() {
    x.in.prf2exe = &prf2exe; x.in.dec_bcast = &dec; x.in.rob_bcast = &rob; x.in.csr2exe = &csr2exe;
    x.in.lsu2exe = &lsu2exe; x.in.csr_status = &csrst;
    x.out.exe2prf = &exe2prf; x.out.exe2iss = &exe2iss; x.out.exe2csr = &exe2csr; x.out.exe2lsu = &exe2lsu;
    x.out.exu2id = &exu2id; x.out.exu2rob = &exu2rob;
    p.in.iss2prf = &iss2prf; p.in.exe2prf = &exe2prf; p.in.dec_bcast = &dec; p.in.rob_bcast = &rob;
    p.in.ftq_prf_pc_resp = &presp;
    p.out.prf2exe = &prf2exe; p.out.prf_awake = &awake; p.out.ftq_prf_pc_req = &preq;
    x.init();
    p.init();
  }
};

static string run(std::istringstream &in, const string &id) {
  Unit *U = new Unit;
  Unit &u = *U;
  sim_time = 0;
  bool known[PRF_NUM];
  uint32_t vmask[PRF_NUM] = {};
  string regs, insj, v;
  for (int k = 0; k < PRF_NUM; k++) {
    uint32_t x = 0;
    if (k) in >> x;
    u.p.reg_file[k] = x, u.p.reg_file_1[k] = x, known[k] = true;
    add(regs, "%d", I(x));
  }
  int n;
  in >> n;
  std::vector<Ins> ins;
  std::vector<Op> wait;
  std::vector<Fly> fly;
  std::vector<Ans> ans;
  std::vector<int> slotof(FTQ_SIZE * 4, -1);
  for (int t = 0; t < n; t++) {
    uint32_t flush, kill, clear, csrv;
    int ni;
    in >> flush >> kill >> clear >> csrv >> ni;
    for (int k = 0; k < ni; k++) {
      Ins a;
      in >> a.word >> a.pc >> a.dp >> a.s1 >> a.s2 >> a.tag >> a.mask >> a.rob >> a.flag >> a.pt >> a.nxt >> a.side >> a.ldv >> a.delay;
      if (wait.size() > 8 || flush) continue;
      DecRenIO::DecRenInst d;
      u.idu.decode(d, a.word);
      if (d.illegal_inst) continue;
      const int dr = d.dest_areg, r1 = d.src1_areg, r2 = d.src2_areg;
      if (d.dest_en) {
        bool used = !a.dp || (d.src1_en && r1 && a.s1 == a.dp) || (d.src2_en && r2 && a.s2 == a.dp);
        for (auto &f : fly) used |= f.state < 2 && f.den && f.preg == a.dp;
        for (auto &f : fly) used |= f.id >= 0 && f.state < 2 && code(f.op) == 3 && ins[f.id].dp == a.dp;
        for (auto &w : wait) used |= (w.u.dest_en && w.u.dest_preg == a.dp) || (w.u.src1_en && w.u.src1_preg == a.dp) ||
                                     (w.u.src2_en && w.u.src2_preg == a.dp);
        if (used) continue;
      }
      if ((d.src1_en && r1 && !a.s1) || (d.src2_en && r2 && !a.s2)) continue;
      bool busy = false;
      for (auto &f : fly) busy |= f.state < 2 && f.id % (FTQ_SIZE * 4) == (int)ins.size() % (FTQ_SIZE * 4);
      for (auto &w : wait) busy |= w.id % (FTQ_SIZE * 4) == (int)ins.size() % (FTQ_SIZE * 4);
      if (busy) continue;
      auto rd = RenDisIO::RenDisInst::from_dec_ren_inst(d);
      auto di = Dispatch::DispatchInst::from_ren_dis_inst(rd);
      const int self = (int)ins.size(), slot = self % (FTQ_SIZE * 4);
      di.dest_preg = d.dest_en ? a.dp : 0;
      di.src1_preg = r1 ? a.s1 : 0;
      di.src2_preg = r2 ? a.s2 : 0;
      di.br_id = a.tag, di.br_mask = a.mask, di.rob_idx = a.rob, di.rob_flag = a.flag;
      di.ftq_idx = slot / 4, di.ftq_offset = slot % 4;
      di.stq_idx = a.rob % 16, di.stq_flag = a.rob / 16 % 2, di.ldq_idx = a.rob / 2 % 16;
      UopPacket up[MAX_UOPS_PER_INST];
      int c = u.dis.decompose_inst(di, up);
      slotof[slot] = self;
      string ops;
      for (int j = 0; j < c; j++) {
        Op o;
        o.id = self, o.issued = false;
        o.u = IqStoredUop::from_dis_iss_uop(up[j].uop).to_iss_prf_uop();
        wait.push_back(o);
        add(ops, "%d", code(o.u.op));
      }
      if (d.dest_en) known[a.dp] = false;
      ins.push_back(a);
      add(insj, "[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,[%s]]", I(a.word), I(a.pc), a.dp, a.s1, a.s2, a.tag, a.rob, a.flag, a.pt, I(a.nxt),
          I(a.ldv), ops.c_str());
    }
    // inputs of the cycle
    u.rob = RobBroadcastIO(), u.dec = DecBroadcastIO();
    u.rob.flush = flush;
    u.dec.mispred = kill != 0, u.dec.br_mask = kill, u.dec.clear_mask = clear;
    u.csr2exe.rdata = csrv;
    u.lsu2exe = LsuExeIO();
    string lwb;
    int nl = 0, ns = 0;
    std::vector<int> loaded;
    for (size_t k = 0; k < ans.size(); k++) {
      Ans &a = ans[k];
      if (a.left > 0) { a.left--; continue; }
      const Ins &q = ins[a.id];
      const bool sc = !a.load && (q.word & 127) == 0x2F && q.word >> 27 == 3, ld = a.load || sc;
      int &c = ld ? nl : ns;
      if (c >= (ld ? LSU_LOAD_WB_WIDTH : LSU_STA_COUNT)) continue;
      auto &e = (ld ? u.lsu2exe.wb_req : u.lsu2exe.sta_wb_req)[c];
      e.valid = true;
      e.uop.result = q.ldv, e.uop.dest_preg = ld ? q.dp : 0, e.uop.br_mask = a.mask, e.uop.rob_idx = q.rob;
      const int rdx = q.word >> 7 & 31;
      e.uop.dest_en = (a.load && (rdx || (q.word & 127) == 0x2F && q.word >> 27 != 2)) || (sc && rdx);
      e.uop.op = ld ? UOP_LOAD : UOP_STA;
      e.uop.page_fault_load = a.load && (q.ldv & 1), e.uop.page_fault_store = !a.load && (q.ldv & 1), e.uop.diag_val = q.nxt;
      add(lwb, "[%d,%d,%d,%d,%d,%d,%d]", (ld ? IQ_LD_PORT_BASE : IQ_STA_PORT_BASE) + c, a.id, (int)e.uop.dest_en, (int)e.uop.dest_preg,
          I(q.ldv), (int)a.mask, (int)a.load);
      c++;
      for (auto &f : fly)
        if (f.id == a.id && f.state == 1 && (code(f.op) == 3) == a.load) f.state = 2;
      if (e.uop.dest_en) loaded.push_back(e.uop.dest_preg);
      ans.erase(ans.begin() + k--);
    }
    u.iss2prf = IssPrfIO();
    u.p.comb_begin();
    u.x.comb_begin();
    u.p.comb_complete();
    u.p.comb_awake();
    u.p.comb_write();
    u.x.comb_to_csr();
    u.x.comb_exec();
    u.x.comb_ready();

    // what came out
    string byp, robj, lsu, wake;
    for (int k = 0; k < TOTAL_FU_COUNT; k++)
      if (u.exe2prf.bypass[k].valid) {
        auto &b = u.exe2prf.bypass[k].uop;
        add(byp, "[%d,%d,%d,%d]", code(b.op), (int)b.dest_en, (int)b.dest_preg, I(b.result));
        if (b.dest_en && code(b.op) == 6) loaded.push_back(b.dest_preg);
        else if (b.dest_en && code(b.op) != 3 && code(b.op) != 4 && code(b.op) != 5) known[b.dest_preg] = true;
      }
    for (int k = 0; k < ISSUE_WIDTH; k++)
      if (u.exu2rob.entry[k].valid) {
        auto &b = u.exu2rob.entry[k].uop;
        add(robj, "[%d,%d,%d,%d,%d,%d,%d,%d]", k, code(b.op), (int)b.rob_idx, I(b.result), (int)b.mispred, (int)b.br_taken, I(b.diag_val),
            (int)b.page_fault_load + 2 * (int)b.page_fault_store);
        for (auto &f : fly)
          if (f.state == 0 && ins[f.id].rob == b.rob_idx && f.op == (int)b.op) f.state = 2;
      }
    for (int k = 0; k < LSU_AGU_COUNT + LSU_SDU_COUNT; k++) {
      auto &e = k < LSU_AGU_COUNT ? u.exe2lsu.agu_req[k] : u.exe2lsu.sdu_req[k - LSU_AGU_COUNT];
      if (!e.valid) continue;
      auto &b = e.uop;
      add(lsu, "[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]", k, code(b.op), (int)b.rob_idx, I(b.result), (int)b.func3,
          (int)b.stq_idx + 16 * (int)b.stq_flag + 32 * (int)b.ldq_idx + 512 * (int)b.rob_flag, (int)b.dest_en, (int)b.dest_preg,
          (int)b.br_mask, (int)b.is_atomic);
      for (auto &f : fly)
        if (f.state == 0 && ins[f.id].rob == b.rob_idx && f.op == (int)b.op) {
          f.state = code(f.op) == 5 ? 2 : 1;
          if (code(f.op) != 5) ans.push_back({f.id, (int)ins[f.id].delay, code(f.op) == 3, (uint32_t)b.br_mask});
        }
    }
    for (int k = 0; k < LSU_LOAD_WB_WIDTH; k++)
      if (u.awake.wake[k].valid) add(wake, "%d", (int)u.awake.wake[k].preg);
    string rdy;
    for (int k = 0; k < ISSUE_WIDTH; k++) {
      int m = 0;
      for (int o = 0; o < MAX_UOP_TYPE; o++)
        if (u.exe2iss.fu_ready_mask[k] >> o & 1) m |= 1 << group(o);
      add(rdy, "%d", m);
    }
    // issue
    string iss;
    if (!flush && !kill) {
      bool portused[ISSUE_WIDTH] = {};
      for (auto &w : wait) {
        auto &q = w.u;
        if ((q.src1_en && !known[q.src1_preg]) || (q.src2_en && !known[q.src2_preg])) continue;
        int live = 0;
        bool csr = false;
        for (auto &f : fly) live += f.state < 2, csr |= f.state < 2 && code(f.op) == 6;
        for (int k = 0; k < ISSUE_WIDTH; k++)
          if (u.iss2prf.iss_entry[k].valid) live++, csr |= code(u.iss2prf.iss_entry[k].uop.op) == 6;
        if (csr || (code(q.op) == 6 && live)) continue;
        for (int k = 0; k < ISSUE_WIDTH; k++) {
          int p = ins[w.id].side ? ISSUE_WIDTH - 1 - k : k;
          if (portused[p] || !(u.exe2iss.fu_ready_mask[p] >> q.op & 1)) continue;
          portused[p] = true;
          u.iss2prf.iss_entry[p].valid = true;
          u.iss2prf.iss_entry[p].uop = q;
          w.issued = true;
          fly.push_back({w.id, (int)q.op, (uint32_t)q.br_mask, (uint32_t)q.dest_preg, (bool)q.dest_en, 0});
          if (q.dest_en) vmask[q.dest_preg] = q.br_mask;
          break;
        }
      }
    }
    u.p.comb_req_ftq();
    u.presp = FtqPrfPcRespIO();
    for (int k = 0; k < FTQ_PRF_PC_PORT_NUM; k++)
      if (u.preq.req[k].valid) {
        int s = slotof[u.preq.req[k].ftq_idx * 4 + u.preq.req[k].ftq_offset];
        if (s < 0) continue;
        auto &r = u.presp.resp[k];
        r.valid = r.entry_valid = true, r.pc = ins[s].pc, r.pred_taken = ins[s].pt, r.next_pc = ins[s].nxt;
      }
    u.p.comb_read();
    for (int k = 0; k < ISSUE_WIDTH; k++)
      if (u.prf2exe.iss_entry[k].valid) {
        auto &q = u.prf2exe.iss_entry[k].uop;
        add(iss, "[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]", k, code(q.op), slotof[q.ftq_idx * 4 + q.ftq_offset], (int)q.br_mask, (int)q.src1_en,
            (int)q.src1_preg, (int)q.src2_en, (int)q.src2_preg, I(q.src1_rdata), I(q.src2_rdata), (int)q.dest_en, (int)q.dest_preg);
      }
    auto &c = u.exe2csr;
    auto &r = u.exu2id;
    add(v, "[[%d,%d,%d,%d],[%s],[%s],[%s],[%s],[%s],[%s],[%s],[%d,%d,%d,%d,%d],[%d,%d,%d,%d,%d,%d]]", flush, kill, clear, I(csrv), iss.c_str(), lwb.c_str(),
        byp.c_str(), robj.c_str(), lsu.c_str(), wake.c_str(), rdy.c_str(), (int)c.we, (int)c.re, (int)c.idx, (int)c.wcmd, I(c.wdata),
        (int)r.mispred, I(r.redirect_pc), (int)r.redirect_rob_idx, (int)r.br_id,
        r.mispred ? slotof[(int)r.ftq_idx * 4] >= 0 ? (int)r.ftq_idx : -1 : 0, (int)r.clear_mask);
    u.x.comb_pipeline();
    u.p.comb_pipeline();
    u.x.seq();
    u.p.seq();
    // squashed work and resolved branches
    for (int d : loaded) known[d] = true;
    auto dead = [&](uint32_t m) { return flush || (m & kill); };
    for (auto &f : fly)
      if (f.state < 2 && dead(f.mask)) f.state = 3;
    for (auto &f : fly) f.mask &= ~clear;
    for (size_t k = 0; k < ans.size(); k++)
      if (dead(ans[k].mask)) ans.erase(ans.begin() + k--);
      else ans[k].mask &= ~clear;
    for (size_t k = 0; k < wait.size(); k++) {
      Op &w = wait[k];
      if (w.issued || dead(w.u.br_mask)) { wait.erase(wait.begin() + k--); continue; }
      w.u.br_mask &= ~clear;
    }
    // registers of squashed work hold nothing
    for (auto &f : fly)
      if (f.state == 3 && f.den) known[f.preg] = false;
    for (int k = 1; k < PRF_NUM; k++) {
      if (kill & vmask[k]) known[k] = false, vmask[k] = 0;
      vmask[k] &= ~clear;
    }
    if (flush)
      for (int k = 0; k < ISSUE_WIDTH; k++)
        if (u.exe2prf.entry[k].valid && u.exe2prf.entry[k].uop.dest_en) known[u.exe2prf.entry[k].uop.dest_preg] = false;
    if (flush)
      for (int k = 0; k < TOTAL_FU_COUNT; k++)
        if (u.exe2prf.bypass[k].valid && u.exe2prf.bypass[k].uop.dest_en) known[u.exe2prf.bypass[k].uop.dest_preg] = false;
    for (size_t k = 0; k < fly.size(); k++)
      if (fly[k].state >= 2) fly.erase(fly.begin() + k--);
    known[0] = true;
    sim_time++;
  }
  delete U;
  string s = "{\"id\":\"" + id + "\",\"r\":[" + regs + "],\"ins\":[" + insj + "],\"v\":[" + v + "]}";
  return s;
}

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    string k, id;
    if (!(ss >> k >> id)) continue;
    fprintf(out, "%s\n", run(ss, id).c_str());
    fflush(out);
  }
  fclose(out);
}
