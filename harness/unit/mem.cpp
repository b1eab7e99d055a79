// Drives the backing memory and the device model directly.
//   mem SCRIPT OUT.ndjson
//   M id n op...   r addr | w addr data | t addr len seed | f addr len | i addr size | z | p addr | x addr len dir
//   P id n op...   S addr data f3 | L addr f3 | T hi lo (time, then a tick) | W addr data | R addr | C src dst len (block compare)
#include "PeripheralModel.h"
#include <cstdio>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
using std::string;
long long sim_time = 0;

static string out;
static void emit(const string &s) { out += (out.empty() ? "[" : ",[") + s + "]"; }
static string I(uint32_t v) { return std::to_string((int32_t)v); }
static string bytes(const uint8_t *b, size_t n) {
  string s = "[";
  for (size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(b[i]);
  return s + "]";
}
static uint8_t gen(uint32_t seed, uint32_t k) { uint32_t h = (seed + k) * 2654435761u; return (h ^ h >> 13) >> 5; }

static void mem(std::istringstream &is, int n) {
  pmem_init();
  for (int j = 0; j < n; j++) {
    string op;
    uint32_t a = 0, b = 0, c = 0;
    is >> op;
    if (op != "z") is >> a;
    if (op == "r") emit("1," + I(a) + "," + I(pmem_read(a)));
    else if (op == "w") { is >> b; pmem_write(a, b); emit("2," + I(a) + "," + I(b)); }
    else if (op == "t") {
      is >> b >> c;
      std::vector<uint8_t> v(b);
      for (uint32_t k = 0; k < b; k++) v[k] = gen(c, k);
      pmem_memcpy_to_ram(a, v.data(), b);
      emit("3," + I(a) + "," + bytes(v.data(), b));
    } else if (op == "f") {
      is >> b;
      std::vector<uint8_t> v(b + 2, 0xA5);
      pmem_memcpy_from_ram(v.data() + 1, a, b);
      emit("4," + I(a) + "," + bytes(v.data() + 1, b) + "," + std::to_string(v[0] == 0xA5 && v[b + 1] == 0xA5));
    } else if (op == "i") { is >> b; emit("5," + I(a) + "," + I(b) + "," + std::to_string((int)pmem_is_ram_addr(a, b))); }
    else if (op == "z") { pmem_clear_all(); emit("6"); }
    else if (op == "p") emit("8," + I(a) + "," + I(pmem_ram_ptr()[(a - PMEM_RAM_BASE) >> 2]));
    else if (op == "x") {
      is >> b >> c;
      pid_t p = fork();
      if (p == 0) {
        fclose(stderr);
        std::vector<uint8_t> v(b);
        if (c) pmem_memcpy_to_ram(a, v.data(), b); else pmem_memcpy_from_ram(v.data(), a, b);
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      emit("7," + I(a) + "," + I(b) + "," + std::to_string(st != 0));
    }
  }
}

static void dev(std::istringstream &is, int n) {
  pmem_init();
  PeripheralModel m;
  CsrInterruptInjectIO inj{};
  m.bind(&inj, pmem_ram_ptr());
  sim_time = 0;
  std::ostringstream tty;
  auto *old = std::cout.rdbuf(tty.rdbuf());
  for (int j = 0; j < n; j++) {
    string op, s;
    uint32_t a = 0, b = 0, c = 0;
    is >> op >> a;
    if (op == "S") { is >> b >> c; m.on_commit_store(a, b, c); s = "1," + I(a) + "," + I(b) + "," + std::to_string(c); }
    else if (op == "L") { is >> c; s = "2," + I(a) + "," + std::to_string(c) + "," + I(m.read_load(a, c)); }
    else if (op == "T") { is >> b; sim_time = (long long)((uint64_t)a << 32 | b); m.tick(); s = "3," + I(a) + "," + I(b) + ",0"; }
    else if (op == "W") { is >> b; pmem_write(a, b); s = "4," + I(a) + "," + I(b) + ",0"; }
    else if (op == "R") s = "5," + I(a) + "," + I(pmem_read(a)) + ",0";
    string t = tty.str();
    tty.str("");
    s += "," + bytes((const uint8_t *)t.data(), t.size());
    s += "," + std::to_string(inj.timer_irq_pending_valid ? (int)inj.timer_irq_pending : -1);
    s += "," + std::to_string(inj.external_irq_pending_valid ? (int)inj.external_irq_pending : -1);
    s += "," + std::to_string((int)m.timer_irq_level());
    inj = {};
    emit(s);
  }
  std::cout.rdbuf(old);
}

int main(int argc, char **argv) {
  std::ifstream f(argv[1]);
  FILE *o = fopen(argv[2], "w");
  string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    string k, id;
    int n;
    if (!(is >> k >> id >> n)) continue;
    out.clear();
    fflush(o);
    if (k == "M") mem(is, n); else dev(is, n);
    fprintf(o, "{\"id\":\"%s\",\"what\":\"%s\",\"v\":[%s]}\n", id.c_str(), k.c_str(), out.c_str());
    fflush(o);
    if (k == "M") pmem_release();
    else pmem_release();
  }
  return 0;
}
