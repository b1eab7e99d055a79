// Drives the load/store unit directly: the driver plays dispatch, address and data units, translation, data cache,
// peripheral bus, branch resolution and in-order retirement, all with timing of its own.
//   lsu SCRIPT OUT.ndjson
//   U id seed dlat plat pmiss preplay pfill pintr pstall pdis  nwords (addr value)*  nops (kind f3 va data lat wrong)*
// kind: 0 plain, 1 load, 2 store, 3 LR, 4 SC, 5 AMOADD, 6 AMOSWAP, 7 branch (data = 1: mispredicted, with `wrong`
// operations of the wrong path following), 8 an instruction that empties the pipeline, 9 the same after older stores
// have reached memory.  Probabilities are per mille.  Pages of 0x4000n000: 0 and 1 are the same memory, 2 other
// memory, 3 unmapped, 4 a device, 5 the memory of 2 without write permission, 6 another device.
#include "RealLsu.h"
#include "SimCpu.h"
#include "util.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
using std::string;
using std::vector;
long long sim_time = 0;

static void add(string &s, const char *f, ...) {
  char b[400];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (!s.empty() && s.back() != '[') s += ',';
  s += b;
}
static int I(uint32_t v) { return (int)v; }

struct Script {
  int kind, f3, lat, wrong;
  uint32_t va, data;
};
enum { LD = 1, STA = 2, STD = 4, EX = 8 };
struct Op { // an operation in the window
  int at;
  bool valid, killed;
  int need, done, sent;
  uint32_t result, amo;
  bool pfl, pfs;
  int rob, flag, stq, stqflag, ldq;
  mask_t br;
  int tag; // -1 no branch
  bool open; // branch not yet announced
  long born, ready2;
};
struct Pend {
  long due;
  bool store;
  uint32_t addr, data, strb, id, val;
  bool early;
};

int main(int argc, char **argv) {
  if (argc != 3) return 2;
  std::ifstream f(argv[1]);
  FILE *o = fopen(argv[2], "w");
  if (!f || !o) return 2;
  string line;
  while (std::getline(f, line)) {
    std::istringstream in(line);
    string kind, id;
    uint64_t seed;
    int dlat, plat, pmiss, preplay, pfill, pintr, pstall, pdis, nw, no;
    in >> kind >> id >> seed >> dlat >> plat >> pmiss >> preplay >> pfill >> pintr >> pstall >> pdis >> nw;
    std::map<uint32_t, uint32_t> mem;
    string words, ev, dev;
    while (nw--) {
      uint32_t a, v;
      in >> a >> v;
      mem[a] = v;
      add(words, "[%d,%d]", I(a), I(v));
    }
    in >> no;
    vector<Script> ops(no);
    for (auto &p : ops) in >> p.kind >> p.f3 >> p.va >> p.data >> p.lat >> p.wrong;
    if (!in) return 2;
    uint64_t rs = seed * 0x9E3779B97F4A7C15ull + 1;
    auto rnd = [&]() {
      rs ^= rs << 13, rs ^= rs >> 7, rs ^= rs << 17;
      return (uint32_t)(rs >> 32);
    };
    auto per = [&](int p) { return (int)(rnd() % 1000) < p; };

    SimContext *ctx = new SimContext();
    RealLsu *u = new RealLsu(ctx);
    RobCommitIO commit;
    RobBroadcastIO bc;
    DecBroadcastIO dec;
    CsrStatusIO st;
    DisLsuIO dis;
    ExeLsuIO exe;
    PeripheralRespIO presp;
    DcacheLsuIO dresp;
    MMULsuIO mresp;
    LsuDisIO todis;
    LsuRobIO torob;
    LsuExeIO toexe;
    PeripheralReqIO preq;
    LsuDcacheIO dreq;
    LsuMMUIO mreq;
    memset((void *)&dreq.req_ports, 0, sizeof dreq.req_ports);
    u->in.rob_commit = &commit, u->in.rob_bcast = &bc, u->in.dec_bcast = &dec, u->in.csr_status = &st, u->in.dis2lsu = &dis,
    u->in.exe2lsu = &exe, u->in.peripheral_resp = &presp, u->in.dcache2lsu = &dresp, u->in.mmu2lsu = &mresp;
    u->out.lsu2dis = &todis, u->out.lsu2rob = &torob, u->out.lsu2exe = &toexe, u->out.peripheral_req = &preq,
    u->out.lsu2dcache = &dreq, u->out.lsu2mmu = &mreq;
    u->init();

    static Op rob[ROB_LINE_NUM][ROB_BANK_NUM];
    for (auto &l : rob)
      for (auto &e : l) e = {};
    int enq = 0, deq = 0;
    bool eflag = false, dflag = false;
    int fetch = 0;
    bool lmis = false; // branch outcome announced in the next cycle
    int lrob = 0, ltag = 0, lat_at = 0;
    mask_t lclear = 0;
    std::deque<Pend> dq;
    bool want = false; // an interrupt is requested
    bool pbusy = false, panswer = false;
    long pdue = 0;
    uint32_t pdata = 0, accesses = 0;
    int ended = 0, idle = 0;
    vector<uint32_t> fills;

    auto slots = [&](auto fn) { // the window, oldest first
      for (int l = deq, n = 0; n < ROB_LINE_NUM; n++, l = (l + 1) % ROB_LINE_NUM) {
        if (l == enq && (eflag == dflag || n)) break;
        for (int b = 0; b < ROB_BANK_NUM; b++)
          if (rob[l][b].valid) fn(rob[l][b]);
      }
    };
    auto store_like = [&](const Op &e) { int k = ops[e.at].kind; return k == 2 || (k >= 4 && k <= 6); };
    auto complete = [&](const Op &e) { return (e.done & e.need) == e.need; };
    auto flushing = [&](const Op &e) { int k = ops[e.at].kind; return k == 8 || k == 9 || e.pfl || e.pfs; };
    auto fence = [&](const Op &e) { return ops[e.at].kind == 9; };

    for (long t = 1; t < 30000 && !ended; t++) {
      ctx->perf.cycle = t;
      sim_time = t;
      u->comb_cal();
      u->comb_lsu2dis();
      u->comb_lsu2rob();
      const bool empty = enq == deq && eflag == dflag, full = enq == deq && eflag != dflag;

      // branch outcomes of the previous cycle
      dec = {};
      dec.mispred = lmis, dec.clear_mask = lclear;
      if (lmis) dec.br_mask = mask_t(1) << ltag, dec.br_id = ltag, dec.redirect_rob_idx = lrob;
      lmis = false, lclear = 0;
      const bool mis = dec.mispred;
      const mask_t kill = dec.br_mask;

      // retirement
      bc = {};
      for (auto &c : commit.commit_entry) c.valid = false;
      if (!want && per(pintr)) want = true;
      bool stall = false;
      if (!empty) {
        for (int b = 0; b < ROB_BANK_NUM; b++) {
          Op &e = rob[deq][b];
          if (!e.valid) continue;
          if (!bc.head_valid) bc.head_valid = true, bc.head_rob_idx = e.rob;
          if (!complete(e) && !bc.head_incomplete_valid && !stall) bc.head_incomplete_valid = true, bc.head_incomplete_rob_idx = e.rob;
          if (flushing(e)) stall = true;
        }
      }
      int refetch = -1;
      if (!empty && !mis) {
        bool group = !per(pstall), has = false, special = false;
        int first = -1;
        for (int b = 0; b < ROB_BANK_NUM; b++) {
          Op &e = rob[deq][b];
          if (!e.valid) continue;
          if (first < 0) first = b;
          has = true;
          group = group && complete(e);
          special = special || flushing(e) || fence(e);
        }
        bool single = special || want;
        if (!has) {
          deq = (deq + 1) % ROB_LINE_NUM;
          if (!deq) dflag = !dflag;
          group = single = false;
        } else {
          Op &h = rob[deq][first];
          if (!want && !complete(h)) single = false;
          if (!want && fence(h) && torob.committed_store_pending) single = group = false;
          if (special && !single) group = false;
          if (!group && !single && !want && complete(h) && !flushing(h) && !fence(h) && (stall || !per(pstall))) single = true;
          const bool intr = single && want;
          if (group || single) {
            for (int b = 0; b < ROB_BANK_NUM; b++) {
              Op &e = rob[deq][b];
              if (!e.valid || (single && b != first)) continue;
              const Script &p = ops[e.at];
              auto &c = commit.commit_entry[b];
              c.valid = true;
              c.uop = {};
              c.uop.rob_idx = e.rob, c.uop.rob_flag = e.flag, c.uop.stq_idx = e.stq, c.uop.stq_flag = e.stqflag;
              c.uop.type = encode_inst_type(p.kind == 1 ? LOAD : p.kind == 2 ? STORE : p.kind >= 3 && p.kind <= 6 ? AMO : ADD);
              if (p.kind >= 3 && p.kind <= 6)
                c.uop.func7 = (p.kind == 3 ? AmoOp::LR : p.kind == 4 ? AmoOp::SC : p.kind == 5 ? AmoOp::ADD : AmoOp::SWAP) << 2;
              c.uop.page_fault_load = e.pfl, c.uop.page_fault_store = e.pfs;
              if (single && (intr || flushing(e))) {
                bc.flush = true, bc.interrupt = intr;
                bc.exception = intr || e.pfl || e.pfs;
                refetch = intr ? e.at : e.at + 1;
              }
              if (intr || (p.kind != 7 && p.kind != 0))
                add(ev, "[%d,%d,%d,%d,%d,%d,%d]", p.kind, p.f3, I(p.va), I(p.data), intr ? 0 : I(e.result),
                    intr ? 0 : e.pfl + 2 * e.pfs, intr);
              e.valid = false;
            }
            if (intr) want = false;
            bool left = false;
            for (auto &e : rob[deq]) left = left || e.valid;
            if (!left) {
              deq = (deq + 1) % ROB_LINE_NUM;
              if (!deq) dflag = !dflag;
            }
          }
        }
      }
      u->comb_stq_commit();

      // answers of the bus and the cache
      presp = {};
      presp.ready = !pbusy;
      if (panswer) presp.is_mmio = 1, presp.mmio_rdata = pdata;
      panswer = false;
      memset((void *)&dresp, 0, sizeof dresp);
      for (int l = 0, s = 0; !dq.empty() && dq.front().due <= t;) {
        Pend p = dq.front();
        dq.pop_front();
        ReplayType r = per(preplay) ? (ReplayType)(1 + rnd() % 3) : ReplayType::HIT;
        if (r != ReplayType::HIT) fills.push_back(p.addr);
        if (p.store) {
          if (r == ReplayType::HIT && !p.early) {
            uint32_t m = 0;
            for (int k = 0; k < 4; k++)
              if (p.strb >> k & 1) m |= 0xFFu << 8 * k;
            mem[p.addr & ~3u] = (mem[p.addr & ~3u] & ~m) | (p.data & m);
          }
          if (p.early) r = ReplayType::HIT;
          auto &x = dresp.resp_ports.store_resps[s++];
          x.valid = true, x.replay = r, x.req_id = p.id;
        } else {
          auto &x = dresp.resp_ports.load_resps[l++];
          x.valid = true, x.replay = r, x.req_id = p.id;
          x.data = r != ReplayType::HIT ? 0xDEAD0000u : p.early ? p.val : mem[p.addr & ~3u];
        }
      }
      if (!fills.empty() && per(pfill)) {
        size_t k = rnd() % fills.size();
        dresp.mshr_fill = true, dresp.mshr_fill_addr = fills[k] & ~63u;
        fills.erase(fills.begin() + k);
      }
      u->comb_mmio_in();
      u->comb_dcache2lsu_ldq();
      u->comb_dcache2lsu_stq();
      u->comb_lsu2exe();
      struct Wb { int rob, bit; uint32_t v; bool pfl, pfs; };
      vector<Wb> wb;
      if (!bc.flush) {
        for (auto &w : toexe.wb_req)
          if (w.valid && !(w.uop.br_mask & kill)) wb.push_back({(int)w.uop.rob_idx, LD, w.uop.result, (bool)w.uop.page_fault_load, (bool)w.uop.page_fault_store});
        for (auto &w : toexe.sta_wb_req)
          if (w.valid && !(w.uop.br_mask & kill)) wb.push_back({(int)w.uop.rob_idx, STA, w.uop.result, (bool)w.uop.page_fault_load, (bool)w.uop.page_fault_store});
      }

      // execution
      exe = {};
      int nl = 0, ns = 0, nd = 0, nb = 0;
      if (!bc.flush) {
        slots([&](Op &e) {
          const Script &p = ops[e.at];
          if ((e.br & kill) || t <= e.born) return;
          auto fill = [&](ExeLsuIO::ExeLsuReqUop &q, int op, uint32_t v) {
            q.result = v, q.dest_preg = e.rob % PRF_NUM, q.func3 = p.f3;
            q.is_atomic = p.kind >= 3 && p.kind <= 6;
            q.func7 = (p.kind == 3 ? AmoOp::LR : p.kind == 4 ? AmoOp::SC : p.kind == 6 ? AmoOp::SWAP : AmoOp::ADD) << 2;
            q.br_mask = e.br & ~dec.clear_mask, q.rob_idx = e.rob, q.rob_flag = e.flag, q.stq_idx = e.stq, q.stq_flag = e.stqflag,
            q.ldq_idx = e.ldq, q.dest_en = op == LD, q.op = encode_uop_type(op == LD ? UOP_LOAD : op == STA ? UOP_STA : UOP_STD);
          };
          const long a = e.born + p.lat % 64, d = e.born + p.lat / 64;
          if (ops[e.at].kind == 7 && !(e.done & EX) && t > a && nb < BRU_NUM) {
            nb++;
            wb.push_back({e.rob, EX, 0, false, false});
            lclear |= mask_t(1) << e.tag;
            if ((p.data & 1) && !lmis) lmis = true, lrob = e.rob, ltag = e.tag, lat_at = e.at;
            return;
          }
          if (p.kind != 7 && (e.need & EX) && !(e.done & EX) && t > a) wb.push_back({e.rob, EX, 0, false, false});
          const bool lpart = p.kind == 1 || p.kind == 3 || p.kind == 5 || p.kind == 6;
          if (lpart && !(e.sent & LD) && t > a && nl < LSU_LDU_COUNT) {
            auto &q = exe.agu_req[nl++];
            q.valid = true, e.sent |= LD;
            fill(q.uop, LD, p.va);
          }
          if (store_like(e) && !(e.sent & STA) && t > a && ns < LSU_STA_COUNT) {
            auto &q = exe.agu_req[LSU_LDU_COUNT + ns++];
            q.valid = true, e.sent |= STA;
            fill(q.uop, STA, p.va);
          }
          const bool dataok = p.kind != 5 || ((e.done & LD) && t > e.ready2);
          if (store_like(e) && !(e.sent & STD) && t > d && dataok && nd < LSU_SDU_COUNT) {
            auto &q = exe.sdu_req[nd++];
            q.valid = true, e.sent |= STD;
            fill(q.uop, STD, p.kind == 5 ? e.result + p.data : p.data);
            wb.push_back({e.rob, STD, 0, false, false});
          }
        });
      }
      u->comb_exe2lsu();
      u->comb_tlb_out();
      memset((void *)&mresp, 0, sizeof mresp);
      auto walk = [&](const MMUReq &q, MMUResp &r, bool store) {
        if (!q.valid) return;
        r.valid = true, r.entry_idx = q.entry_idx, r.wait_idx = q.wait_idx;
        static const uint32_t page[8] = {0x80010000u, 0x80010000u, 0x80011000u, 0, 0x10000000u, 0x80011000u, 0x0C000000u, 0};
        const uint32_t n = (q.vaddr >> 12) & 7;
        if (per(pmiss)) r.result = MMUResultType::MISS;
        else if (n == 3 || n == 7 || (n == 5 && store)) r.result = MMUResultType::PAGE_FAULT;
        else r.result = MMUResultType::HIT, r.paddr = page[n] | (q.vaddr & 0xFFF);
      };
      for (int k = 0; k < LSU_LDU_COUNT; k++) walk(mreq.ldq_req[k], mresp.ldq_resp[k], false);
      for (int k = 0; k < LSU_STA_COUNT; k++) walk(mreq.stq_req[k], mresp.stq_resp[k], true);
      u->comb_tlb_in_ldq();
      u->comb_tlb_in_stq();
      u->comb_stlf();

      // completions reach the window
      for (auto &w : wb) {
        Op &e = rob[w.rob / ROB_BANK_NUM][w.rob % ROB_BANK_NUM];
        e.done |= w.bit;
        if (w.bit == LD || w.bit == STA) e.pfl = e.pfl || w.pfl, e.pfs = e.pfs || w.pfs;
        if (w.bit == LD) e.result = w.v, e.ready2 = t + rnd() % 4;
      }

      // dispatch
      dis = {};
      const int denq = enq;
      bool fired = false;
      int limit = no;
      mask_t opened = 0;
      slots([&](Op &e) {
        if (e.open) opened |= mask_t(1) << e.tag;
        if (e.open && (ops[e.at].data & 1)) limit = std::min(limit, e.at + 1 + ops[e.at].wrong);
      });
      if (!bc.flush && !mis && !stall && !full && !per(pdis)) {
        int ld = 0, sn = 0;
        bool line_branch_wrong = false;
        for (int b = 0; b < ROB_BANK_NUM && fetch < limit; b++) {
          const Script &p = ops[fetch];
          const bool amo = p.kind >= 3 && p.kind <= 6;
          const bool lpart = p.kind == 1 || p.kind == 3 || p.kind == 5 || p.kind == 6, spart = p.kind == 2 || (p.kind >= 4 && p.kind <= 6);
          if ((amo || p.kind == 8) && (!empty || b)) break;
          if (lpart && !(ld < todis.ldq_free && ld < MAX_LDQ_DISPATCH_WIDTH && todis.ldq_alloc_valid[ld])) break;
          if (spart && !(sn < todis.stq_free && sn < MAX_STQ_DISPATCH_WIDTH)) break;
          Op e = {};
          e.at = fetch, e.valid = true, e.tag = -1, e.born = t;
          e.need = p.kind == 4 ? LD | STD : (lpart ? LD : 0) | (spart ? STA | STD : 0);
          if (!e.need) e.need = EX;
          e.rob = denq * ROB_BANK_NUM + b, e.flag = eflag;
          e.br = opened & ~dec.clear_mask;
          const int pos = todis.stq_tail + sn;
          e.stq = pos % STQ_SIZE, e.stqflag = todis.stq_tail_flag ^ (pos / STQ_SIZE & 1);
          if (p.kind == 7) {
            int tag = 0;
            while (tag < MAX_BR_NUM && (opened >> tag & 1)) tag++;
            if (tag == MAX_BR_NUM || (dec.clear_mask >> tag & 1)) break;
            e.tag = tag, e.open = true;
            opened |= mask_t(1) << tag;
            if (p.data & 1) limit = std::min(limit, fetch + 1 + p.wrong);
          }
          if (lpart) {
            e.ldq = todis.ldq_alloc_idx[ld];
            dis.ldq_alloc_req[ld] = true, dis.ldq_idx[ld] = e.ldq, dis.ldq_br_mask[ld] = e.br, dis.ldq_rob_idx[ld] = e.rob,
            dis.ldq_rob_flag[ld] = e.flag;
            ld++;
          }
          if (spart) {
            dis.alloc_req[sn] = true, dis.br_mask[sn] = e.br, dis.func3[sn] = p.f3, dis.rob_idx[sn] = e.rob, dis.rob_flag[sn] = e.flag,
            dis.stq_flag[sn] = e.stqflag;
            sn++;
          }
          rob[denq][b] = e;
          fetch++, fired = true;
          if (amo || per(pdis)) break;
        }
      }
      u->comb_dis2lsu();
      u->comb_flush();
      u->comb_lsu2dcache_ldq();
      u->comb_lsu2dcache_stq();
      u->comb_mmio_out();
      u->comb_check();

      // announced branches, squashes
      if (dec.clear_mask)
        for (auto &l : rob)
          for (auto &e : l) {
            if (e.valid && (e.br & kill)) continue;
            e.br &= ~dec.clear_mask;
            if (e.valid && e.open && (dec.clear_mask >> e.tag & 1) && e.born < t) e.open = false;
          }
      if (mis) {
        const int l0 = dec.redirect_rob_idx / ROB_BANK_NUM, b0 = dec.redirect_rob_idx % ROB_BANK_NUM;
        const int at = rob[l0][b0].at;
        for (int b = b0 + 1; b < ROB_BANK_NUM; b++) rob[l0][b].valid = false;
        for (int l = (l0 + 1) % ROB_LINE_NUM; l != enq; l = (l + 1) % ROB_LINE_NUM)
          for (auto &e : rob[l]) e.valid = false;
        const int ne = (l0 + 1) % ROB_LINE_NUM;
        if (ne > enq) eflag = !eflag;
        enq = ne;
        fetch = at + 1 + ops[at].wrong;
      } else if (fired) {
        enq = (enq + 1) % ROB_LINE_NUM;
        if (!enq) eflag = !eflag;
      }
      if (bc.flush) {
        for (auto &l : rob)
          for (auto &e : l) e.valid = false;
        enq = deq = 0, eflag = dflag = false;
        fetch = refetch;
        lmis = false, lclear = 0;
      }

      // requests taken by the bus and the cache
      if (pbusy && t >= pdue) pbusy = false, panswer = true;
      if (preq.is_mmio && presp.ready) {
        accesses++;
        pdata = preq.wen ? 0 : accesses * 0x01003001u;
        add(dev, "[%d,%d,%d,%d,%d]", (int)preq.wen, I(preq.mmio_addr), I(preq.mmio_wdata), (int)preq.mmio_fun3, I(pdata));
        const int n = plat ? rnd() % plat : 0;
        if (n) pbusy = true, pdue = t + n;
        else panswer = true;
      }
      for (auto &q : dreq.req_ports.store_ports)
        if (q.valid) {
          Pend p{t + dlat, true, (uint32_t)q.addr, (uint32_t)q.data, (uint32_t)q.strb, (uint32_t)q.req_id, 0, false};
          if (per(300)) { // written at once, so it cannot be refused later
            p.early = true;
            uint32_t m = 0;
            for (int k = 0; k < 4; k++)
              if (p.strb >> k & 1) m |= 0xFFu << 8 * k;
            mem[p.addr & ~3u] = (mem[p.addr & ~3u] & ~m) | (p.data & m);
          }
          dq.push_back(p);
        }
      for (auto &q : dreq.req_ports.load_ports)
        if (q.valid) {
          const uint32_t w = mem.count(q.addr & ~3u) ? mem[q.addr & ~3u] : 0;
          dq.push_back({t + dlat, false, (uint32_t)q.addr, 0, 0, (uint32_t)q.req_id, w, per(500)});
        }
      u->seq();
      if (fetch >= no && enq == deq && eflag == dflag && u->cur.stq_count == 0 && !pbusy && !panswer) {
        if (++idle > 12) ended = 1;
      } else idle = 0;
    }
    string fin;
    for (auto &w : mem) add(fin, "[%d,%d]", I(w.first), I(w.second));
    fprintf(o, "{\"id\":\"%s\",\"ended\":%d,\"m\":[%s],\"v\":[%s],\"d\":[%s],\"e\":[%s]}\n", id.c_str(), ended, words.c_str(),
            ev.c_str(), dev.c_str(), fin.c_str());
    fflush(o);
    delete u;
    delete ctx;
  }
  fclose(o);
  return 0;
}
