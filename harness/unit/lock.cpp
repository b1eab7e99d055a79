// Drives the lockstep checker with a scripted reference model.
//   lock SCRIPT OUT.ndjson ;  L id n op...
//   D 66 words (core)  N 67+5 words (reference after its next step, step information)  S check thi tlo
//   Y priv   M addr size   W addr data (core memory)   V addr data (reference memory)   Q   F kind on
//   K priv   G na addr*   I size na addr*
#include "PhysMemory.h"
#include "config.h"
#include "diff.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
using std::string;
long long sim_time = 0;

struct RefCpuContext {
  RefCpuState s{}, next{};
  RefCpuStepInfo info{}, ninfo{};
  uint32_t *ram;
  std::map<uint32_t, uint32_t> io;
  bool fi = false, fl = false, fs = false, dev = true, ref_only = false, uart = true;
  uint64_t time = ~0ull;
  long steps = 0, sets = 0;
};
static RefCpuContext *cur;
static RefCpuState nexts;
static RefCpuStepInfo ninfo;
static long inits, destroys;
static size_t synced;
RefCpuContext *refcpu_init(uint32_t, uint32_t n) {
  cur = new RefCpuContext;
  cur->ram = (uint32_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  inits++;
  return cur;
}
void refcpu_destroy(RefCpuContext *c) { munmap(c->ram, RAM_SIZE); delete c; destroys++; }
void refcpu_get_state(RefCpuContext *c, RefCpuState *s) { *s = c->s; }
void refcpu_set_state(RefCpuContext *c, const RefCpuState *s) { c->s = *s; c->sets++; }
void refcpu_get_step_info(RefCpuContext *c, RefCpuStepInfo *i) { *i = c->info; }
void refcpu_step(RefCpuContext *c, uint64_t n) { c->steps += n; c->s = nexts; c->info = ninfo; }
void refcpu_clear_io_words(RefCpuContext *c) { c->io.clear(); }
void refcpu_set_io_word(RefCpuContext *c, uint32_t a, uint32_t v) { if (v) c->io[a] = v; else c->io.erase(a); }
uint32_t refcpu_get_io_word(RefCpuContext *c, uint32_t a) { auto i = c->io.find(a); return i == c->io.end() ? 0 : i->second; }
uint32_t *refcpu_get_ram_ptr(RefCpuContext *c) { return c->ram; }
static uint32_t rd(RefCpuContext *c, uint32_t a) { return pmem_is_ram_addr(a & ~3u, 4) ? c->ram[(a - PMEM_RAM_BASE) >> 2] : refcpu_get_io_word(c, a & ~3u); }
uint32_t refcpu_load_word(RefCpuContext *c, uint32_t a) { return rd(c, a); }
bool refcpu_probe_pc_translation(RefCpuContext *) { return true; }
void refcpu_set_device_effects(RefCpuContext *c, bool b) { c->dev = b; }
void refcpu_set_dut_expected_faults(RefCpuContext *c, bool a, bool b, bool d) { c->fi = a, c->fl = b, c->fs = d; }
void refcpu_set_ref_only(RefCpuContext *c, bool b) { c->ref_only = b; }
void refcpu_set_sim_end(RefCpuContext *, bool) {}
void refcpu_set_sim_time(RefCpuContext *c, uint64_t t) { c->time = t; }
void refcpu_set_uart_print(RefCpuContext *c, bool b) { c->uart = b; }
// only nonzero words are copied into the (fresh) reference memory, page by page
void refcpu_sync_ram_from_dut(RefCpuContext *c, const uint32_t *p, size_t n) {
  synced = n;
  static const uint8_t zero[4096] = {};
  for (size_t k = 0; k < n; k += 4096) {
    size_t m = std::min<size_t>(4096, n - k);
    if (memcmp((const char *)p + k, zero, m)) memcpy((char *)c->ram + k, (const char *)p + k, m);
  }
}
void refcpu_sync_ram_range_from_dut(RefCpuContext *c, uint32_t a, const void *p, size_t n) {
  memcpy((char *)c->ram + (a - PMEM_RAM_BASE), p, n);
}

struct Exit { int code; };
extern "C" void __wrap_exit(int code) { throw Exit{code}; }

static string out;
static void emit(const string &s) { out += (out.empty() ? "[" : ",[") + s + "]"; }
static string I(uint32_t v) { return std::to_string((int32_t)v); }
static string L(const std::vector<uint32_t> &v) {
  string s;
  for (auto x : v) s += (s.empty() ? "" : ",") + I(x);
  return "[" + s + "]";
}
template <class S> static std::vector<uint32_t> vec(const S &s) {
  std::vector<uint32_t> v(s.gpr, s.gpr + 32);
  v.insert(v.end(), s.csr, s.csr + 21);
  v.insert(v.end(), {s.pc, s.store_addr, s.store_data, s.store_strb, s.store, s.instruction, s.page_fault_inst,
                     s.page_fault_load, s.page_fault_store, s.inst_idx, s.commit_pc, s.reserve_valid, s.reserve_addr});
  return v;
}
template <class S> static void fill(S &s, std::istringstream &is) {
  for (auto &x : s.gpr) is >> x;
  for (auto &x : s.csr) is >> x;
  is >> s.pc >> s.store_addr >> s.store_data >> s.store_strb >> s.store >> s.instruction >> s.page_fault_inst >>
      s.page_fault_load >> s.page_fault_store >> s.inst_idx >> s.commit_pc >> s.reserve_valid >> s.reserve_addr;
}
static std::vector<uint32_t> addrs(std::istringstream &is) {
  int n;
  is >> n;
  std::vector<uint32_t> a(n);
  for (auto &x : a) is >> x;
  return a;
}
static string sample(const std::vector<uint32_t> &as, bool ref) {
  string s;
  for (uint32_t a : as) s += (s.empty() ? "[" : ",[") + I(a) + "," + I(ref ? rd(cur, a) : pmem_read(a)) + "]";
  return "[" + s + "]";
}

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  FILE *f = fopen(argv[2], "w");
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  pmem_init();
  init_difftest(0);
  string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    string key, id, op;
    int n;
    is >> key >> id >> n;
    out.clear();
    dut_cpu = CPU_state{};
    std::map<uint32_t, int> touched;
    cur->s = RefCpuState{};
    cur->info = RefCpuStepInfo{};
    cur->io.clear();
    cur->fi = cur->fl = cur->fs = cur->dev = cur->ref_only = cur->uart = false;
    for (int j = 0; j < n; j++) {
      is >> op;
      uint32_t a = 0, b = 0;
      if (op == "D") { fill(dut_cpu, is); emit("1," + L(vec(dut_cpu))); }
      else if (op == "N") {
        fill(nexts, is);
        uint32_t p;
        is >> p >> ninfo.instruction >> ninfo.page_fault_inst >> ninfo.page_fault_load >> ninfo.page_fault_store >> ninfo.sim_end;
        nexts.privilege = p;
        auto v = vec(nexts);
        v.push_back(p);
        emit("2," + L(v) + "," + L({ninfo.instruction, ninfo.page_fault_inst, ninfo.page_fault_load, ninfo.page_fault_store, ninfo.sim_end}));
      } else if (op == "S") {
        int check;
        is >> check >> a >> b;
        sim_time = (long long)((uint64_t)a << 32 | b);
        long s0 = cur->steps;
        int v = 0;
        try { difftest_step(check); } catch (Exit e) { v = e.code ? 1 : 2; }
        emit("3," + std::to_string(check) + "," + std::to_string(v) + "," + std::to_string(cur->steps - s0) + "," +
             L({cur->fi, cur->fl, cur->fs}) + "," + L({a, b}) + "," + L({(uint32_t)(cur->time >> 32), (uint32_t)cur->time}));
      } else if (op == "Y") {
        is >> a >> b;
        sim_time = b;
        difftest_sync_from_dut(a);
        auto v = vec(cur->s);
        v.push_back(cur->s.privilege);
        emit("4," + I(a) + "," + L(v) + "," + L({cur->fi, cur->fl, cur->fs}) + "," + L({0, b}) + "," + L({(uint32_t)(cur->time >> 32), (uint32_t)cur->time}));
      } else if (op == "M") { is >> a >> b; difftest_sync_ram_range_from_dut(a, b); emit("5," + I(a) + "," + I(b)); }
      else if (op == "W") { is >> a >> b; pmem_write(a, b); touched[a]; emit("6," + I(a) + "," + I(b)); }
      else if (op == "V") {
        is >> a >> b;
        if (pmem_is_ram_addr(a, 4)) cur->ram[(a - PMEM_RAM_BASE) >> 2] = b; else refcpu_set_io_word(cur, a, b);
        touched[a];
        emit("7," + I(a) + "," + I(b));
      } else if (op == "R") { is >> a; emit("8," + I(a) + "," + I(pmem_read(a)) + "," + I(rd(cur, a))); }
      else if (op == "Q") emit("9," + std::to_string(difftest_ref_sim_end()) + "," + std::to_string(difftest_ref_last_inst_is_wfi()));
      else if (op == "F") {
        is >> a >> b;
        if (a == 0) difftest_ref_set_uart_print(b);
        if (a == 1) difftest_ref_set_ref_only(b);
        if (a == 2) difftest_ref_set_device_effects(b);
        emit("10," + I(a) + "," + I(b) + "," + L({cur->uart, cur->ref_only, cur->dev}));
      } else if (op == "K") {
        is >> a;
        init_diff_ckpt(dut_cpu, a);
        auto v = vec(cur->s);
        v.push_back(cur->s.privilege);
        emit("11," + I(a) + "," + L(v) + "," + std::to_string(cur->dev) + "," + std::to_string(inits - destroys));
      } else if (op == "G") {
        CPU_state s{};
        uint8_t p = 99;
        get_state(s, p);
        auto v = vec(s);
        v.push_back(p);
        emit("12," + L(v));
      } else if (op == "I") { is >> a; init_difftest(a); emit("13," + I(a) + "," + std::to_string(cur->dev) + "," + std::to_string(inits - destroys)); }
    }
    for (auto &t : touched) {
      pmem_write(t.first, 0);
      if (pmem_is_ram_addr(t.first, 4)) cur->ram[(t.first - PMEM_RAM_BASE) >> 2] = 0;
    }
    fprintf(f, "{\"id\":\"%s\",\"v\":[%s]}\n", id.c_str(), out.c_str());
  }
  fclose(f);
  _exit(0);
}
