// Drives the instruction cache and its translation unit directly: the driver plays the fetch pipeline, the page-table
// walker, the memory fabric and the data cache that is asked for lines newer than memory.
//   ic SCRIPT OUT.ndjson
//   U id seed wlat flat plat pacc pidle pstep  nwords (addr value)*  nsteps (what a b c)*
// what: 0 fetch from a, 1 satp, privilege, mstatus := a, b, c, 2 table word a := b and a translation fence, 3 code word
// a := b, 4 instruction fence, 5 the line of a leaves the data cache, 6 redirect, 7 the block just fetched is dropped,
// 8 the line of a enters the data cache.  wlat, flat, plat: latencies of walks, memory and probes; pacc, pidle, pstep
// (per mille): requests accepted, cycles without a request, steps taken while a fetch is under way.
#include "AXI_Interconnect_IO.h"
#include "FrontTop.h"
#include "PtwMemPort.h"
#include "SimCpu.h"
#include "front_IO.h"
#include "front_module.h"
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
using std::string;
using std::vector;
long long sim_time = 0;
void icache_set_context(SimContext *ctx);
void icache_peek_ready(struct icache_in *in, struct icache_out *out);

static void add(string &s, const char *f, ...) {
  char b[300];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (!s.empty()) s += ',';
  s += b;
}
static int I(uint32_t v) { return (int)v; }
static uint64_t x = 1;
static uint32_t rnd() { return x ^= x << 13, x ^= x >> 7, x ^= x << 17, (uint32_t)(x >> 11); }
static bool per(int p) { return (int)(rnd() % 1000) < p; }

struct Walker : PtwWalkPort {
  std::map<uint32_t, uint32_t> mem;
  bool ready = false, busy = false, full = false;
  long due = 0, now = 0;
  int lat = 0;
  PtwWalkReq req;
  PtwWalkResp ans;
  uint32_t rd(uint32_t a) const { auto i = mem.find(a & ~3u); return i == mem.end() ? 0 : i->second; }
  void answer() {
    ans = {};
    ans.vaddr = req.vaddr;
    const uint32_t v = req.vaddr, p1 = rd(((uint32_t)req.satp << 12) + (v >> 22) * 4);
    auto bad = [](uint32_t p) { return !(p & 1) || (!(p & 2) && (p & 4)); };
    auto leaf = [](uint32_t p) { return p & 10; };
    if (bad(p1)) ans.fault = 1;
    else if (leaf(p1)) ans.fault = (p1 >> 10 & 0x3FF) != 0, ans.leaf_pte = p1, ans.leaf_level = 1;
    else {
      const uint32_t p0 = rd((p1 >> 10 << 12) + (v >> 12 & 0x3FF) * 4);
      ans.fault = bad(p0) || !leaf(p0), ans.leaf_pte = p0, ans.leaf_level = 0;
    }
  }
  void tick(long t, bool r) {
    now = t, ready = r && !busy;
    if (busy && !full && t >= due) answer(), full = true;
  }
  bool send_walk_req(const PtwWalkReq &q) override {
    if (!ready) return false;
    req = q, ready = false, busy = true, full = false, due = now + 1 + (lat ? rnd() % lat : 0);
    return true;
  }
  bool resp_valid() const override { return full; }
  PtwWalkResp resp() const override { return ans; }
  PtwWalkPortCombOut comb_output() const override {
    PtwWalkPortCombOut o;
    o.req_ready = ready, o.resp_valid = full;
    if (full) o.resp = ans;
    return o;
  }
  void consume_resp() override { full = busy = false; }
  void flush_client() override { full = busy = false; }
};

struct Step {
  int what;
  uint32_t a, b, c;
};
struct Read {
  uint32_t addr;
  uint8_t id;
  long due;
  bool early, shown;
  vector<uint32_t> data;
};
static Walker w;
static axi_interconnect::ReadMasterPort_t port;
static ICacheMemPortReq preq;
static ICacheMemPortResp presp;
static SimContext ctx;

int main(int argc, char **argv) {
  if (argc != 3) return 2;
  std::ifstream f(argv[1]);
  FILE *o = fopen(argv[2], "w");
  if (!f || !o) return 2;
  icache_ptw_walk_port = &w, icache_mem_read_port = &port;
  icache_mem_req_port = &preq, icache_mem_resp_port = &presp;
  icache_set_context(&ctx);
  const uint32_t LINE = ICACHE_LINE_SIZE, WORDS = LINE / 4;
  string line;
  while (std::getline(f, line)) {
    std::istringstream in(line);
    string kind, id;
    uint64_t seed;
    int wlat, flat, plat, pacc, pidle, pstep, nw, ns;
    in >> kind >> id >> seed >> wlat >> flat >> plat >> pacc >> pidle >> pstep >> nw;
    x = seed * 2654435761u + 88172645463325252ull;
    w = Walker(), w.lat = wlat;
    port = {}, preq = {}, presp = {};
    std::map<uint32_t, uint32_t> mem;              // memory; zero elsewhere
    std::map<uint32_t, vector<uint32_t>> held;     // lines of the data cache
    string words, v;
    for (uint32_t a, d; nw--;) in >> a >> d, w.mem[a] = d, add(words, "[%d,%d]", I(a), I(d));
    in >> ns;
    vector<Step> st(ns);
    for (auto &s : st) in >> s.what >> s.a >> s.b >> s.c;
    auto rd = [&](uint32_t a) { auto i = mem.find(a); return i == mem.end() ? 0u : i->second; };
    auto hold = [&](uint32_t a) -> vector<uint32_t> & {
      auto i = held.find(a & -LINE);
      if (i == held.end()) {
        i = held.emplace(a & -LINE, vector<uint32_t>(WORDS)).first;
        for (uint32_t k = 0; k < WORDS; k++) i->second[k] = rd((a & -LINE) + 4 * k);
      }
      return i->second;
    };
    vector<Read> reads;
    bool probe = false;
    uint32_t paddr = 0;
    long pdue = 0;
    CsrStatusIO cs;
    cs = {};
    icache_in q;
    icache_out r;
    memset((void *)&q, 0, sizeof q);
    memset((void *)&r, 0, sizeof r);
    q.reset = true;
    icache_comb_calc(&q, &r);
    size_t at = 0;
    bool busy = false;
    uint32_t want = 0;
    long since = 0;
    bool stuck = false, odd = false, accepted = false, dropped = false;
    uint8_t accid = 0;
    for (long t = 1; (at < st.size() || busy) && !stuck && !odd; t++) {
      sim_time = t;
      w.tick(t, per(700));
      // what the cache sees of the fabric and of the data cache this cycle
      port.req.ready = true, port.req.accepted = accepted, port.req.accepted_id = accid;
      Read *sh = nullptr;
      for (auto &d : reads) if (d.shown) sh = &d;
      if (!sh) {
        vector<size_t> c;
        for (size_t k = 0; k < reads.size(); k++) if (reads[k].due <= t) c.push_back(k);
        if (!c.empty()) {
          sh = &reads[c[rnd() % c.size()]], sh->shown = true;
          if (!sh->early) for (uint32_t k = 0; k < WORDS; k++) sh->data[k] = rd(sh->addr + 4 * k);
        }
      }
      port.resp.valid = sh != nullptr;
      if (sh) {
        port.resp.id = sh->id;
        for (uint32_t k = 0; k < WORDS; k++) port.resp.data[k] = sh->data[k];
      } else port.resp.data[0] = 0xDEADDEAD;
      presp = {};
      if (probe && t >= pdue) {
        probe = false, presp.resp_valid = true;
        auto i = held.find(paddr & -LINE);
        presp.resp_miss = i == held.end();
        presp.resp_data = presp.resp_miss ? 0xDEADBEEF : i->second[(paddr & (LINE - 1)) / 4];
      }
      preq = {};
      // steps that are not fetches
      memset((void *)&q, 0, sizeof q);
      q.csr_status = &cs;
      bool drop = false, table = false;
      q.refetch = dropped, dropped = false; // the pipeline redirects in the cycle after it dropped a block
      while (at < st.size() && st[at].what != 0 && (!busy || per(pstep))) {
        const Step &s = st[at];
        if (s.what == 3) hold(s.a)[(s.a & (LINE - 1)) / 4] = s.b, add(v, "[2,%d,%d]", I(s.a), I(s.b));
        else if (s.what == 5) {
          auto i = held.find(s.a & -LINE);
          if (i != held.end()) {
            for (uint32_t k = 0; k < WORDS; k++) mem[(s.a & -LINE) + 4 * k] = i->second[k];
            held.erase(i);
          }
        } else if (s.what == 8) hold(s.a);
        else {
          if (s.what == 1) q.refetch = true, cs.satp = s.a, cs.privilege = s.b, cs.mstatus = s.c, add(v, "[1,%d,%d,%d]", I(s.a), I(s.b), I(s.c));
          if (s.what == 2) q.refetch = q.itlb_flush = table = true;
          if (s.what == 4) q.refetch = q.fence_i = true;
          if (s.what == 6) q.refetch = true;
          if (s.what == 7) drop = dropped = true;
          at++;
          break;
        }
        at++;
      }
      icache_peek_ready(&q, &r);
      const bool ready = r.icache_read_ready;
      if (ready && !q.refetch && !busy && at < st.size() && st[at].what == 0 && !per(pidle))
        q.icache_read_valid = true, q.fetch_address = st[at].a;
      icache_comb_calc(&q, &r);
      if (q.icache_read_valid) {
        if (!r.icache_read_ready) add(v, "[7,1]"), odd = true;
        busy = true, want = q.fetch_address, since = t, at++;
        add(v, "[4,%d]", I(want));
      }
      if (r.icache_read_complete) {
        string g;
        int vm = 0, fm = 0;
        for (int k = 0; k < FETCH_WIDTH; k++) vm |= (int)r.inst_valid[k] << k, fm |= (int)r.page_fault_inst[k] << k, add(g, "%d", I(r.fetch_group[k]));
        add(v, "[5,%d,%d,%d,[%s]]", I(r.fetch_pc), vm, fm, g.c_str());
        busy = false;
      }
      if (drop) {
        icache_in z;
        memset((void *)&z, 0, sizeof z);
        z.invalidate_req = true, z.csr_status = &cs;
        icache_comb_calc(&z, &r);
        if (r.icache_read_complete) add(v, "[7,2]"), odd = true;
      }
      if (q.refetch || drop) busy = false, add(v, q.fence_i ? "[3]" : "[6]");
      if (table) {
        w.flush_client();
        w.mem[st[at - 1].a] = st[at - 1].b;
        add(v, "[0,%d,%d]", I(st[at - 1].a), I(st[at - 1].b));
      }
      // the environment takes what the cache asked for
      if (port.resp.valid && port.resp.ready)
        for (size_t k = 0; k < reads.size(); k++)
          if (reads[k].shown) { reads.erase(reads.begin() + k); break; }
      if (preq.req_valid) probe = true, paddr = preq.req_addr, pdue = t + 1 + rnd() % (plat + 1);
      accepted = false;
      if (port.req.valid && per(pacc)) {
        accepted = true, accid = port.req.id;
        Read d{port.req.addr, port.req.id, t + 1 + (long)(rnd() % (flat + 1)), per(500), false, vector<uint32_t>(WORDS)};
        for (auto &e : reads) if (e.id == d.id) add(v, "[7,3]"), odd = true;
        if (d.addr % LINE || port.req.total_size != LINE - 1) add(v, "[7,4]"), odd = true;
        for (uint32_t k = 0; k < WORDS; k++) d.data[k] = rd(d.addr + 4 * k);
        reads.push_back(d);
      }
      if (busy && t - since > 6000) stuck = true;
      if (!busy && at < st.size() && st[at].what == 0 && !ready) { if (t - since > 6000) stuck = true; }
      else if (!busy) since = t;
    }
    if (stuck) add(v, "[7,5]");
    fprintf(o, "{\"id\":\"%s\",\"m\":[%s],\"v\":[%s]}\n", id.c_str(), words.c_str(), v.c_str());
    fflush(o);
  }
  fclose(o);
}
