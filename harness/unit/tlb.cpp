// Drives the address translation units directly: the driver plays the requesters, the page-table walker (or the memory
// behind the unit's own walker), pipeline recovery and translation fences.
//   tlb SCRIPT OUT.ndjson
//   U id seed unit lat pready pcancel  nwords (addr value)*  nsteps (what a b c)*
// unit: 0 data side, 1 instruction side, 2 data side walking by itself.  what: 0 access (a = type, b = address),
// 1 satp, privilege, mstatus := a, b, c, 2 table word a := b followed by a translation fence.  Probabilities per mille.
#include "PtwMemPort.h"
#include "TlbMmu.h"
#include "util.h"
#include <cstdarg>
#include <cstdio>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
using std::string;
using std::vector;
long long sim_time = 0;

static void add(string &s, const char *f, ...) {
  char b[200];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (!s.empty()) s += ',';
  s += b;
}
static int I(uint32_t v) { return (int)v; }

struct Walker : PtwWalkPort, PtwMemPort {
  std::map<uint32_t, uint32_t> mem;
  bool ready = false, busy = false, full = false;
  long due = 0, now = 0;
  int lat = 0;
  uint64_t x = 1;
  PtwWalkReq req;
  PtwWalkResp ans;
  uint32_t addr = 0, word = 0;
  uint32_t rnd() { return x ^= x << 13, x ^= x >> 7, x ^= x << 17, (uint32_t)(x >> 11); }
  uint32_t rd(uint32_t a) const { auto i = mem.find(a & ~3u); return i == mem.end() ? 0 : i->second; }
  void take() { busy = true, full = false, due = now + 1 + (lat ? rnd() % lat : 0); }
  // the walk of a table, permissions left to the requester
  void answer() {
    ans = {};
    ans.vaddr = req.vaddr;
    const uint32_t v = req.vaddr, p1 = rd(((uint32_t)req.satp << 12) + (v >> 22) * 4);
    auto bad = [](uint32_t p) { return !(p & 1) || (!(p & 2) && (p & 4)); };
    auto leaf = [](uint32_t p) { return p & 10; };
    if (bad(p1)) ans.fault = 1;
    else if (leaf(p1)) ans.fault = (p1 >> 10 & 0x3FF) != 0, ans.leaf_pte = p1, ans.leaf_level = 1;
    else {
      const uint32_t p0 = rd((p1 >> 10 << 12) + (v >> 12 & 0x3FF) * 4);
      ans.fault = bad(p0) || !leaf(p0), ans.leaf_pte = p0, ans.leaf_level = 0;
    }
  }
  void tick(long t, bool r) {
    now = t, ready = r && !busy;
    if (busy && !full && t >= due) answer(), word = rd(addr), full = true;
  }
  bool send_walk_req(const PtwWalkReq &q) override {
    if (!ready) return false;
    req = q, ready = false, take();
    return true;
  }
  bool send_read_req(uint32_t a) override {
    if (!ready) return false;
    addr = a, ready = false, take();
    return true;
  }
  bool resp_valid() const override { return full; }
  PtwWalkResp resp() const override { return ans; }
  uint32_t resp_data() const override { return word; }
  PtwWalkPortCombOut comb_output() const override {
    PtwWalkPortCombOut o;
    o.req_ready = ready, o.resp_valid = full;
    if (full) o.resp = ans;
    return o;
  }
  void consume_resp() override { full = busy = false; }
  void flush_client() override { full = busy = false; }
};

struct Step {
  int what;
  uint32_t a, b, c;
};
struct Acc {
  uint32_t type, va;
  long since;
};

int main(int argc, char **argv) {
  if (argc != 3) return 2;
  std::ifstream f(argv[1]);
  FILE *o = fopen(argv[2], "w");
  if (!f || !o) return 2;
  string line;
  while (std::getline(f, line)) {
    std::istringstream in(line);
    string kind, id;
    uint64_t seed;
    int unit, lat, pready, pcancel, nw, ns;
    in >> kind >> id >> seed >> unit >> lat >> pready >> pcancel >> nw;
    Walker w;
    w.x = seed * 2654435761u + 88172645463325252ull, w.lat = lat;
    string words, v;
    for (uint32_t a, d; nw--;) in >> a >> d, w.mem[a] = d, add(words, "[%d,%d]", I(a), I(d));
    in >> ns;
    vector<Step> st(ns);
    for (auto &s : st) in >> s.what >> s.a >> s.b >> s.c;
    auto per = [&](int p) { return (int)(w.rnd() % 1000) < p; };
    TlbMmu u(nullptr, unit == 2 ? &w : nullptr, unit == 1 ? ITLB_ENTRIES : DTLB_ENTRIES, unit == 1 ? TlbMmu::Kind::ITLB : TlbMmu::Kind::DTLB);
    if (unit != 2) u.set_ptw_walk_port(&w);
    CsrStatusIO cs;
    cs = {};
    vector<Acc> pool;
    size_t at = 0;
    bool stuck = false;
    const size_t room = unit == 0 ? 6 : 1;
    for (long t = 1; (at < st.size() || !pool.empty()) && !stuck; t++) {
      sim_time = t;
      w.tick(t, per(pready));
      while (at < st.size() && st[at].what == 0 && pool.size() < room && (pool.empty() || per(600))) {
        pool.push_back({st[at].a, st[at].b, t});
        at++;
      }
      const bool ctl = at < st.size() && st[at].what != 0 && (pool.empty() || per(30));
      if (ctl && st[at].what == 2) {
        u.flush();
        pool.clear();
        const uint32_t a = st[at].a, d = st[at].b;
        w.flush_client();
        w.mem[a] = d;
        add(v, "[0,%d,%d,0,0]", I(a), I(d));
        at++;
      } else if (ctl || per(pcancel)) {
        u.cancel_pending_walk();
        if (unit == 2) w.flush_client();
        if (ctl) {
          pool.clear();
          cs.satp = st[at].a, cs.privilege = st[at].b, cs.mstatus = st[at].c;
          add(v, "[1,%d,%d,%d,0]", I(st[at].a), I(st[at].b), I(st[at].c));
          at++;
        } else if (!pool.empty()) pool.resize(w.rnd() % pool.size() + (w.rnd() & 1));
      } else if (unit == 0) {
        LsuMMUIO q;
        MMULsuIO r;
        memset((void *)&q, 0, sizeof q);
        memset((void *)&r, 0, sizeof r);
        q.csr_status = cs;
        int nl = 0, nst = 0;
        vector<int> port(pool.size(), -1);
        for (size_t k = 0; k < pool.size(); k++) {
          const bool store = pool[k].type == 2;
          if (per(200) || (store ? nst == LSU_STA_COUNT : nl == LSU_LDU_COUNT)) continue;
          MMUReq &x = store ? q.stq_req[nst] : q.ldq_req[nl];
          port[k] = store ? nst++ : nl++;
          x.valid = true, x.vaddr = pool[k].va, x.entry_idx = k, x.wait_idx = k + 1;
        }
        u.translate_lsu_ports(q, r);
        vector<Acc> rest;
        for (size_t k = 0; k < pool.size(); k++) {
          const bool store = pool[k].type == 2;
          if (port[k] >= 0) {
            const MMUResp &x = store ? r.stq_resp[port[k]] : r.ldq_resp[port[k]];
            if (!x.valid || x.entry_idx != k || x.wait_idx != k + 1) add(v, "[4,%d,%d,0,0]", (int)pool[k].type, I(pool[k].va));
            if (x.result != MMUResultType::MISS) {
              add(v, "[2,%d,%d,%d,%d]", (int)pool[k].type, I(pool[k].va), x.result == MMUResultType::HIT, I(x.paddr));
              continue;
            }
          }
          rest.push_back(pool[k]);
        }
        pool = rest;
      } else if (!pool.empty() && !per(150)) {
        uint32_t p = 0;
        const auto r = u.translate(p, pool[0].va, pool[0].type, &cs);
        if (r != TlbMmu::Result::RETRY) {
          add(v, "[2,%d,%d,%d,%d]", (int)pool[0].type, I(pool[0].va), r == TlbMmu::Result::OK, r == TlbMmu::Result::OK ? I(p) : 0);
          pool.clear();
        }
      }
      u.seq();
      for (auto &a : pool)
        if (t - a.since > 6000) stuck = true;
    }
    if (stuck) add(v, "[3,%d,%d,0,0]", (int)pool[0].type, I(pool[0].va));
    fprintf(o, "{\"id\":\"%s\",\"m\":[%s],\"v\":[%s]}\n", id.c_str(), words.c_str(), v.c_str());
    fflush(o);
  }
  fclose(o);
}
