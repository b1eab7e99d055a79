// Runs the simulator's own main() with generated command lines and records
// what it did with the reference model and the core, and how it ended.
//   mainrun SCRIPT OUT.ndjson
//   T id  |  O mode warmup maxcommit forward ok interval refend refwfi refa0 sig   (as understood; see MainTrace)
//   A n arg*  |  W n words* (program)  |  F seed lat_lo lat_hi  |  E
// The argument @ stands for the name of the program or checkpoint, @none for
// no argument at all and @empty for the empty string.
#include "PhysMemory.h"
#include "RISCV.h"
#include "SimCpu.h"
#include "config.h"
#include "diff.h"
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <vector>
#include "ckpt.h"

int sim_main(int argc, char *argv[]);
extern long long sim_time;
extern SimCpu cpu;
CPU_state dut_cpu;
namespace axi_interconnect {
FabricCfg g_fabric;
uint32_t fabric_read_word(uint32_t a) { return pmem_read(a); }
void fabric_write_word(uint32_t a, uint32_t d, uint32_t s) {
  uint32_t m = 0;
  for (int i = 0; i < 4; i++) if (s >> i & 1) m |= 0xFFu << (8 * i);
  pmem_write(a, (pmem_read(a) & ~m) | (d & m));
}
void fabric_on_read(int, uint32_t, uint32_t) {}
void fabric_on_write(int, uint32_t, uint32_t) {}
}

static long O[10];
enum { MODE, WARM, MAXC, FWD, OK, INTERVAL, REFEND, REFWFI, REFA0, SIG };
static std::vector<std::string> args;
static std::vector<uint32_t> prog;

static std::string ev;
static long steps, ncommit, taken = -1;
static bool alone;
static CPU_state ref;
static uint8_t ref_priv = 3;

static void rec() {
  ncommit++;
  char b[96];
  snprintf(b, sizeof b, "%s[%lld,%d,%d]", ev.empty() ? "" : ",", sim_time, (int)dut_cpu.instruction,
           (int)cpu.back.rob->out.rob_bcast->interrupt);
  ev += b;
  if (ncommit == O[SIG]) raise(SIGINT);
}
void init_difftest(int) { ref = CPU_state(); ref.pc = 0x80000000; }
void init_diff_ckpt(CPU_state s, uint8_t p) { ref = s; ref_priv = p; }
// the state handed over says after how many steps it was taken
void get_state(CPU_state &s, uint8_t &p) {
  s = ref;
  s.gpr[31] = steps;
  if (O[REFEND] >= 0 && steps >= O[REFEND]) s.gpr[10] = O[REFA0];
  p = ref_priv;
}
void difftest_step(bool) {
  if (!alone) { rec(); return; }
  steps++;
  if (O[MODE] == 3 && steps == O[SIG]) raise(SIGINT);
}
void difftest_sync_from_dut(uint8_t) { rec(); }
void difftest_sync_ram_range_from_dut(uint32_t, size_t) {}
bool difftest_ref_sim_end() { return O[REFEND] >= 0 && steps >= O[REFEND]; }
bool difftest_ref_last_inst_is_wfi() { return O[REFWFI]; }
void difftest_ref_set_uart_print(bool) {}
void difftest_ref_set_ref_only(bool b) { alone = b; }
void difftest_ref_set_device_effects(bool) {}
uint64_t difftest_get_oracle_timer() { return 0; }
void difftest_dump_memory_line(const char *, uint32_t) {}
void push_oracle_timer(uint32_t) {}
void get_oracle(struct front_top_in &, struct front_top_out &) {}

static std::string given;
static void child(char *buf, size_t cap) {
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1), dup2(nul, 2);
  if (O[MODE] == 1) {
    ck.name = given;
    for (size_t k = 0; k < prog.size(); k++) ck.ram[4 * k] = prog[k];
    ck.st[53] = 0x80000000u;
    ck.count = O[INTERVAL];
    ck_finish();
  } else {
    std::ofstream(given, std::ios::binary).write((char *)prog.data(), 4 * prog.size());
  }
  std::vector<char *> av;
  static char name[] = "simulator";
  av.push_back(name);
  for (auto &a : args) {
    if (a == "@") a = given;
    if (a == "@empty") a = "";
    if (a != "@none") av.push_back(&a[0]);
  }
  int n = av.size();
  av.push_back(nullptr);
  int rc = sim_main(n, av.data());
  const auto &pf = cpu.ctx.perf;
  char b[400];
  const bool up = O[OK] == 1 && cpu.back.prf;
  snprintf(b, sizeof b, "\"rc\":%d,\"exit\":%d,\"steps\":%ld,\"x31\":%d,\"a0\":%d,\"end\":%lld,\"perf\":[%lld,%lld,%lld,%lld,%lld],\"v\":[",
           rc, (int)cpu.ctx.exit_reason, steps, up ? (int)cpu.get_reg(31) : 0, up ? (int)cpu.get_reg(10) : 0, sim_time,
           (long long)pf.cycle, (long long)pf.commit_num, (long long)pf.commit_load_num, (long long)pf.commit_store_num,
           (long long)pf.cond_br_num);
  std::string o = b + ev + "]";
  if (o.size() + 1 > cap) _exit(9);
  memcpy(buf, o.c_str(), o.size() + 1);
  _exit(0);
}

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  given = std::string(argv[2]) + ".img";
  const size_t cap = 4 << 20;
  char *buf = (char *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string line, key, id;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    is >> key;
    if (key == "T") {
      is >> id;
      ck = CkptFile();
    } else if (key == "K") {
      for (auto &h : ck.hdr) is >> h;
    } else if (key == "G") {
      CkptFile::Io r;
      is >> r.base >> r.size;
      ck.io.push_back(r);
    } else if (key == "O") for (auto &v : O) is >> v;
    else if (key == "A") {
      size_t n;
      is >> n;
      args.assign(n, "");
      for (auto &a : args) is >> a;
    } else if (key == "W") {
      size_t n;
      is >> n;
      prog.assign(n, 0);
      for (auto &w : prog) is >> w;
    } else if (key == "F") {
      auto &f = axi_interconnect::g_fabric;
      is >> f.seed >> f.lat_lo >> f.lat_hi;
    } else if (key == "E") {
      buf[0] = 0;
      fflush(out);
      pid_t p = fork();
      if (p == 0) { alarm(60); child(buf, cap); }
      int stt = 0;
      waitpid(p, &stt, 0);
      unlink(given.c_str());
      std::string o = "{\"id\":\"" + id + "\",\"opt\":[";
      for (int k = 0; k < 10; k++) o += (k ? "," : "") + std::to_string(O[k]);
      o += "],";
      if (buf[0]) o += buf;
      else
        o += "\"rc\":" + std::to_string(WIFSIGNALED(stt) ? -WTERMSIG(stt) : WEXITSTATUS(stt) ? WEXITSTATUS(stt) : -99) +
             ",\"exit\":0,\"steps\":0,\"x31\":0,\"a0\":0,\"end\":0,\"perf\":[0,0,0,0,0],\"v\":[]";
      fprintf(out, "%s}\n", o.c_str());
    }
  }
  fclose(out);
  return 0;
}
