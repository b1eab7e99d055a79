// Drives the memory subsystem through its ports: loads and stores of the load/store unit, probes of the instruction
// cache, words and walks of the page walker, over a fabric that answers late and out of order.
//   dc SCRIPT OUT.ndjson
//   D id seed nwords (addr value).. nops (kind addr data strb).. knobs: issue rlat wlat raccept waccept wait
// kind: 0 load, 1 store, 2 instruction-cache probe, 3 and 4 word read by the walker for data and fetch,
// 5 and 6 walk for data and fetch (addr = virtual address, data = satp), 7 and 8 drop the walk of that client,
// 9 wait until everything before is done.
// A replayed load or store is asked again later, a store never before an older one to the same bytes is done.
#include "AXI_Interconnect.h"
#include "MemSubsystem.h"
#include "PtwMemPort.h"
#include "PtwWalkPort.h"
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
using std::string;
using std::vector;

long long sim_time = 0;
extern uint32_t *p_memory;
namespace axi_interconnect { // the private fabric of the subsystem stays idle
FabricCfg g_fabric;
uint32_t fabric_read_word(uint32_t) { return 0; }
void fabric_write_word(uint32_t, uint32_t, uint32_t) {}
void fabric_on_read(int, uint32_t, uint32_t) {}
void fabric_on_write(int, uint32_t, uint32_t) {}
} // namespace axi_interconnect

struct Op {
  int kind;
  uint32_t addr, data, strb;
  int state;   // 0 waiting, 1 asked, 2 done
  long ready;  // not before this cycle
  uint32_t id; // tag of the last request
};
static uint64_t rs;
static uint32_t rnd() {
  rs ^= rs << 13, rs ^= rs >> 7, rs ^= rs << 17;
  return (uint32_t)(rs >> 11);
}
static bool chance(uint32_t percent) { return rnd() % 100 < percent; }
static void add(string &s, const char *f, ...) {
  char b[400];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (!s.empty() && s.back() != '[') s += ',';
  s += b;
}
static int I(uint32_t v) { return (int)v; }

struct Read {
  uint32_t addr;
  int id;
  long due;
  bool sampled;
  uint32_t data[DCACHE_WORD_NUM];
};

int main(int argc, char **argv) {
  if (argc != 3) return 2;
  std::ifstream f(argv[1]);
  FILE *o = fopen(argv[2], "w");
  if (!f || !o) return 2;
  freopen("/dev/null", "w", stdout);
  p_memory = (uint32_t *)calloc(1 << 20, 1);
  string line;
  while (std::getline(f, line)) {
    std::istringstream in(line);
    string kind, id;
    in >> kind >> id >> rs;
    rs = rs * 0x9E3779B97F4A7C15ull + 0x1234567;
    uint32_t nw, no;
    std::map<uint32_t, vector<uint32_t>> mem; // the memory below, by line
    auto lineof = [&](uint32_t a) -> vector<uint32_t> & {
      auto &l = mem[a / DCACHE_LINE_SIZE];
      if (l.empty()) l.resize(DCACHE_WORD_NUM);
      return l;
    };
    auto wordof = [&](uint32_t a) -> uint32_t & { return lineof(a)[(a % DCACHE_LINE_SIZE) / 4]; };
    string words;
    in >> nw;
    vector<uint32_t> known;
    for (uint32_t k = 0; k < nw; k++) {
      uint32_t a, v;
      in >> a >> v;
      wordof(a) = v;
      known.push_back(a);
      add(words, "[%d,%d]", I(a), I(v));
    }
    in >> no;
    vector<Op> ops(no);
    for (auto &p : ops) in >> p.kind >> p.addr >> p.data >> p.strb, p.state = 0, p.ready = 0;
    uint32_t kissue, krlat, kwlat, kracc, kwacc, kwait;
    in >> kissue >> krlat >> kwlat >> kracc >> kwacc >> kwait;
    if (!in) return 2;

    SimContext *ctx = new SimContext();
    MemSubsystem *ms = new MemSubsystem(ctx);
    LsuDcacheIO lsu;
    memset((void *)&lsu.req_ports, 0, sizeof lsu.req_ports);
    DcacheLsuIO resp{};
    ICacheMemPortReq icq{};
    ICacheMemPortResp icr{};
    PeripheralReqIO pq{};
    PeripheralRespIO pr{};
    CsrInterruptInjectIO inj{};
    ms->lsu2dcache = &lsu, ms->dcache2lsu = &resp, ms->icache_req = &icq, ms->icache_resp = &icr;
    ms->peripheral_req = &pq, ms->peripheral_resp = &pr, ms->csr_interrupt_inject = &inj, ms->memory = p_memory;
    ms->set_internal_axi_runtime_active(false);
    ms->init();

    std::deque<Read> reads;
    bool racc = false, wacc = false, rshow = false;
    int raccid = 0;
    size_t rsel = 0;
    bool wbusy = false, wdone = false;
    long wdue = 0, wapply = 0;
    uint32_t waddr = 0, wdata[DCACHE_WORD_NUM];
    uint64_t wstrb = 0;
    string v, stuck;
    size_t done = 0;
    uint32_t tag = 1;
    int probe = -1, mop[2] = {-1, -1}, wop[2] = {-1, -1};
    PtwMemPort *mport[2] = {ms->dtlb_ptw_port, ms->itlb_ptw_port};
    PtwWalkPort *wport[2] = {ms->dtlb_walk_port, ms->itlb_walk_port};
    vector<int> pend[2]; // asked loads and stores
    bool drained = false;
    long t = 0, quiet = 0;
    for (; t < 60000; t++) {
      sim_time = t;
      ctx->perf.cycle = t;
      string ev;
      // the fabric's side of this cycle
      ms->mshr_axi_in = {};
      ms->wb_axi_in = {};
      ms->mshr_axi_in.req_ready = true, ms->wb_axi_in.req_ready = true;
      if (racc) ms->mshr_axi_in.req_accepted = true, ms->mshr_axi_in.req_accepted_id = raccid;
      if (wacc) ms->wb_axi_in.req_accepted = true;
      if (wbusy && !wdone && t >= wapply) {
        auto &l = lineof(waddr);
        for (int b = 0; b < DCACHE_LINE_SIZE; b++)
          if (wstrb >> b & 1) l[b / 4] = (l[b / 4] & ~(0xffu << b % 4 * 8)) | (wdata[b / 4] & 0xffu << b % 4 * 8);
        wdone = true;
      }
      for (auto &r : reads)
        if (!r.sampled && (r.due <= t || chance(30))) {
          auto &l = lineof(r.addr);
          for (int w = 0; w < DCACHE_WORD_NUM; w++) r.data[w] = l[w];
          r.sampled = true;
        }
      if (!rshow) {
        vector<size_t> can;
        for (size_t k = 0; k < reads.size(); k++)
          if (reads[k].due <= t) can.push_back(k);
        if (!can.empty()) rshow = true, rsel = can[rnd() % can.size()];
      }
      if (rshow) {
        ms->mshr_axi_in.resp_valid = true;
        ms->mshr_axi_in.resp_id = reads[rsel].id;
        for (int w = 0; w < DCACHE_WORD_NUM; w++) ms->mshr_axi_in.resp_data[w] = reads[rsel].data[w];
      }
      if (wbusy && t >= wdue) ms->wb_axi_in.resp_valid = true, wbusy = false;
      racc = wacc = false;

      // answers of the walker, from the end of the last cycle
      for (int c = 0; c < 2; c++) {
        if (mop[c] >= 0 && mport[c]->resp_valid()) {
          add(ev, "[%d,%d,0,%d,0,0]", 3 + c, mop[c] + 1, I(mport[c]->resp_data()));
          mport[c]->consume_resp();
          ops[mop[c]].state = 2, done++, mop[c] = -1;
        }
        if (wop[c] >= 0 && wport[c]->resp_valid()) {
          PtwWalkResp r = wport[c]->resp();
          add(ev, "[%d,%d,%d,%d,%d,%d]", 5 + c, wop[c] + 1, (int)r.fault, I(r.leaf_pte), (int)r.leaf_level, I(r.vaddr));
          wport[c]->consume_resp();
          ops[wop[c]].state = 2, done++, wop[c] = -1;
        }
      }
      icq.req_valid = false;
      int ask = -1;
      if (chance(kissue) && (probe < 0 || chance(5)))
        for (size_t k = 0; k < ops.size() && k < done + 12; k++)
          if (ops[k].state == 0 && (ops[k].kind == 9 || ops[k].kind == 2)) {
            ask = ops[k].kind == 2 ? (int)k : -1;
            break;
          }
      if (ask >= 0) {
        if (probe >= 0) add(ev, "[2,%d,9,0,0,0]", probe + 1), ops[probe].state = 2, done++; // dropped
        probe = ask, ops[ask].state = 1;
        icq.req_valid = true, icq.req_addr = ops[ask].addr;
        add(ev, "[12,%d,0,0,0,0]", ask + 1);
      }
      ms->comb_outputs();

      // answers to the load/store unit and the instruction cache
      for (int i = 0; i < LSU_STA_COUNT; i++) {
        auto &r = resp.resp_ports.store_resps[i];
        if (!r.valid) continue;
        int k = -1;
        for (int p : pend[1])
          if (ops[p].id == r.req_id) k = p;
        add(ev, "[1,%d,%d,0,%d,%d]", k + 1, (int)r.replay, i, I(r.req_id));
        if (k < 0) continue;
        std::erase(pend[1], k);
        if (r.replay == ReplayType::HIT) ops[k].state = 2, done++;
        else ops[k].state = 0, ops[k].ready = t + rnd() % (kwait + 1);
      }
      for (int i = 0; i < LSU_LDU_COUNT; i++) {
        auto &r = resp.resp_ports.load_resps[i];
        if (!r.valid) continue;
        int k = -1;
        for (int p : pend[0])
          if (ops[p].id == r.req_id) k = p;
        add(ev, "[0,%d,%d,%d,%d,%d]", k + 1, (int)r.replay, I(r.data), i, I(r.req_id));
        if (k < 0) continue;
        std::erase(pend[0], k);
        if (r.replay == ReplayType::HIT) ops[k].state = 2, done++;
        else ops[k].state = 0, ops[k].ready = t + rnd() % (kwait + 1);
      }
      if (icr.resp_valid && probe >= 0 && ask < 0) {
        add(ev, "[2,%d,%d,%d,0,0]", probe + 1, (int)icr.resp_miss, I(icr.resp_miss ? wordof(ops[probe].addr) : icr.resp_data));
        ops[probe].state = 2, done++, probe = -1;
      }

      // new requests
      lsu.req_ports.clear();
      int np = 0, ns = 0;
      for (size_t k = 0; k < ops.size() && k < done + 12; k++) {
        Op &p = ops[k];
        if (p.kind == 9) {
          if (p.state == 0 && done == k) p.state = 2, done++;
          if (p.state == 0) break;
        }
        if (p.state != 0 || p.ready > t || !chance(kissue)) continue;
        if (p.kind == 0 && np < LSU_LDU_COUNT) {
          auto &q = lsu.req_ports.load_ports[np++];
          p.id = tag++ & 0x7fffffff;
          q.valid = true, q.addr = p.addr, q.req_id = p.id, p.state = 1;
          pend[0].push_back((int)k);
          add(ev, "[10,%d,0,0,0,0]", (int)k + 1);
        } else if (p.kind == 1 && ns < LSU_STA_COUNT) {
          bool older = false;
          for (size_t j = 0; j < k; j++)
            older |= ops[j].kind == 1 && ops[j].state != 2 && (ops[j].addr >> 2) == (p.addr >> 2) && (ops[j].strb & p.strb);
          if (older) continue;
          auto &q = lsu.req_ports.store_ports[ns++];
          p.id = tag++ & 0x7fffffff;
          q.valid = true, q.addr = p.addr, q.data = p.data, q.strb = p.strb, q.req_id = p.id, p.state = 1;
          pend[1].push_back((int)k);
          add(ev, "[11,%d,0,0,0,0]", (int)k + 1);
        } else if (p.kind == 3 || p.kind == 4) {
          int c = p.kind - 3;
          if (mop[c] >= 0 || !mport[c]->send_read_req(p.addr)) continue;
          mop[c] = (int)k, p.state = 1;
          add(ev, "[%d,%d,0,0,0,0]", 13 + c, (int)k + 1);
        } else if (p.kind == 5 || p.kind == 6) {
          int c = p.kind - 5;
          PtwWalkReq q;
          q.vaddr = p.addr, q.satp = p.data, q.access_type = c == 0 ? 1 : 0;
          if (wop[c] >= 0 || !wport[c]->send_walk_req(q)) continue;
          wop[c] = (int)k, p.state = 1;
          add(ev, "[%d,%d,0,0,0,0]", 15 + c, (int)k + 1);
        } else if (p.kind == 7 || p.kind == 8) {
          int c = p.kind - 7;
          wport[c]->flush_client();
          if (wop[c] >= 0) {
            add(ev, "[%d,%d,9,0,0,0]", 5 + c, wop[c] + 1);
            ops[wop[c]].state = 2, done++, wop[c] = -1;
          }
          p.state = 2, done++;
          break; // as in the core, nothing is asked by a client in the cycle it is flushed
        }
      }
      ms->comb_inputs();

      // the fabric takes requests and the reply it was showing
      if (rshow && ms->mshr_axi_out.resp_ready) reads.erase(reads.begin() + rsel), rshow = false;
      if (ms->mshr_axi_out.req_valid && chance(kracc)) {
        Read r{};
        r.addr = ms->mshr_axi_out.req_addr, r.id = ms->mshr_axi_out.req_id, r.due = t + 1 + rnd() % (krlat + 1);
        racc = true, raccid = r.id;
        add(ev, "[20,0,%d,%d,%d,0]", r.id, I(r.addr), (int)ms->mshr_axi_out.req_total_size);
        reads.push_back(r);
      }
      if (ms->wb_axi_out.req_valid && !wbusy && chance(kwacc)) {
        waddr = ms->wb_axi_out.req_addr, wstrb = ms->wb_axi_out.req_wstrb;
        for (int w = 0; w < DCACHE_WORD_NUM; w++) wdata[w] = ms->wb_axi_out.req_wdata[w];
        wbusy = true, wdone = false, wacc = true;
        wdue = t + 1 + rnd() % (kwlat + 1), wapply = t + 1 + rnd() % (wdue - t);
        add(ev, "[21,0,0,%d,%d,0]", I(waddr), (int)ms->wb_axi_out.req_total_size);
      }
      ms->seq();
      ms->mshr_axi_in.req_accepted = false;
      if (!ev.empty()) add(v, "[%s]", ev.c_str());
      quiet = ev.empty() ? quiet + 1 : 0;
      if (done == ops.size() && !wbusy && reads.empty() && pend[0].empty() && pend[1].empty() && quiet > 6 && !ms->wb_axi_out.req_valid && !ms->mshr_axi_out.req_valid) {
        drained = true;
        break;
      }
      if (quiet > 3000) break;
    }
    string fin;
    for (uint32_t a : known) add(fin, "%d", I(wordof(a)));
    string os;
    for (auto &p : ops) add(os, "[%d,%d,%d,%d]", p.kind, I(p.addr), I(p.data), I(p.strb));
    int extra = 0; // words of the memory below, outside those of the run, that are no longer zero
    for (auto &[l, d] : mem)
      for (int w = 0; w < DCACHE_WORD_NUM; w++) {
        uint32_t a = l * DCACHE_LINE_SIZE + 4 * w;
        bool k = false;
        for (uint32_t x : known) k |= x == a;
        if (!k && d[w]) extra++;
      }
    fprintf(o, "{\"id\":\"%s\",\"w\":[%s],\"ops\":[%s],\"drained\":%d,\"fin\":[%s],\"extra\":%d,\"v\":[%s]}\n", id.c_str(),
            words.c_str(), os.c_str(), drained ? 1 : 0, fin.c_str(), extra, v.c_str());
    fflush(o);
    delete ms;
    delete ctx;
  }
  fclose(o);
  return 0;
}
