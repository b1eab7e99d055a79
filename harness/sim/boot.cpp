// Starts the simulator from program images and checkpoint files and records
// the machine it came up with, or that it refused.
//   boot SCRIPT OUT.ndjson
//   T id  |  K open magic version priv ram count ra, X 59 state words, C hi lo, R n (off word)*,
//   G base size n (off word)*, Z cut broken  |  I open size a b  |  A n addr*  |  E
// Every run is a forked child of the freshly initialised simulator.
#include "PhysMemory.h"
#include "RISCV.h"
#include "SimCpu.h"
#include "config.h"
#include "diff.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "ckpt.h"

long long sim_time = 0;
CPU_state dut_cpu;
namespace axi_interconnect {
FabricCfg g_fabric;
uint32_t fabric_read_word(uint32_t a) { return pmem_read(a); }
void fabric_write_word(uint32_t, uint32_t, uint32_t) {}
void fabric_on_read(int, uint32_t, uint32_t) {}
void fabric_on_write(int, uint32_t, uint32_t) {}
}
SimCpu cpu;

static int I(uint32_t v) { return (int)v; }
static void add(std::string &s, const char *f, ...) {
  char b[400];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (!s.empty()) s += ',';
  s += b;
}

// what the reference model was given
static CPU_state ref;
static uint8_t ref_priv;
static long given, given_size = -1;
void init_difftest(int n) { given_size = n; }
void init_diff_ckpt(CPU_state s, uint8_t p) { ref = s; ref_priv = p; given++; }
void get_state(CPU_state &s, uint8_t &p) { s = ref; p = ref_priv; }
void difftest_step(bool) {}
void difftest_sync_from_dut(uint8_t) {}
void difftest_sync_ram_range_from_dut(uint32_t, size_t) {}
bool difftest_ref_sim_end() { return false; }
bool difftest_ref_last_inst_is_wfi() { return false; }
void difftest_ref_set_uart_print(bool) {}
void difftest_ref_set_ref_only(bool) {}
void difftest_ref_set_device_effects(bool) {}
uint64_t difftest_get_oracle_timer() { return 0; }
void difftest_dump_memory_line(const char *, uint32_t) {}
void push_oracle_timer(uint32_t) {}
void get_oracle(struct front_top_in &, struct front_top_out &) {}

static bool image;
static int openas;
static uint32_t isize, ia, ib;
static std::vector<uint32_t> addrs;

static std::string list(const uint32_t *p, int n) {
  std::string s;
  for (int i = 0; i < n; i++) add(s, "%d", I(p[i]));
  return "[" + s + "]";
}
static std::string flat(const CPU_state &s) {
  std::vector<uint32_t> v(s.gpr, s.gpr + 32);
  v.insert(v.end(), s.csr, s.csr + 21);
  v.insert(v.end(), {s.pc, s.store_addr, s.store_data, s.store_strb, s.store, s.reserve_valid, s.reserve_addr});
  return list(v.data(), v.size());
}

static std::string given_name;
static void child(char *buf, size_t cap) {
  dup2(open("/dev/null", O_WRONLY), 1);
  if (image) {
    if (openas == 0) {
      std::string d(isize, 0);
      for (uint32_t k = 0; k < isize; k++) d[k] = (char)((k * ia + ib + (k >> 8)) % 251);
      std::ofstream(given_name, std::ios::binary) << d;
    } else if (openas == 2) {
      { std::ofstream f(given_name, std::ios::binary); }
      truncate(given_name.c_str(), (long)kCkRam + isize);
    }
    cpu.back.load_image(given_name);
  } else {
    ck.name = openas == 0 ? "ck" : openas == 1 ? "ck.gz" : "other";
    ck_finish();
    cpu.back.restore_checkpoint("ck");
  }
  // it came up: first as loaded, then as handed over from the reference model
  std::string o = "\"rej\":0,\"size\":", w, regs;
  o += std::to_string(given_size) + ",\"given\":" + std::to_string(given) + ",\"refpriv\":" + std::to_string(ref_priv) +
       ",\"interval\":" + list(std::vector<uint32_t>{(uint32_t)(cpu.back.ckpt_interval_inst_count >> 32), (uint32_t)cpu.back.ckpt_interval_inst_count}.data(), 2) +
       ",\"ref\":" + flat(ref) + ",\"dut\":" + flat(dut_cpu);
  std::vector<uint32_t> m;
  for (int i = 0; i < 32; i++) m.push_back(cpu.back.prf->reg_file[i]);
  for (int i = 0; i < 21; i++) m.push_back(cpu.back.csr->CSR_RegFile[i]);
  m.insert(m.end(), {cpu.back.number_PC, cpu.back.csr->privilege, (uint32_t)cpu.back.lsu->cur.lrsc_unit.reserve_valid,
                     (uint32_t)cpu.back.lsu->cur.lrsc_unit.reserve_addr});
  o += ",\"mach\":" + list(m.data(), m.size());
  for (uint32_t a : addrs) add(w, "[%d,%d]", I(a), I(pmem_read(a)));
  o += ",\"v\":[" + w + "]";
  if (o.size() + 1 > cap) _exit(9);
  memcpy(buf, o.c_str(), o.size() + 1);
  _exit(0);
}

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  given_name = std::string(argv[2]) + ".img";
  const size_t cap = 1 << 20;
  char *buf = (char *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pmem_init();
  int so = dup(1), nul = open("/dev/null", O_WRONLY);
  fflush(stdout);
  dup2(nul, 1);
  cpu.init();
  std::cout.flush();
  fflush(stdout);
  dup2(so, 1);
  std::string line, key, id;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    is >> key;
    if (key == "T") {
      is >> id;
      ck = CkptFile();
      image = false;
      addrs.clear();
    } else if (key == "K") {
      is >> openas;
      for (auto &h : ck.hdr) is >> h;
      is >> ck_ra;
    } else if (key == "X") for (auto &v : ck.st) is >> v;
    else if (key == "C") { uint64_t h, l; is >> h >> l; ck.count = h << 32 | l; }
    else if (key == "R") {
      size_t n; uint32_t a, v;
      is >> n;
      while (n--) { is >> a >> v; ck.ram[a] = v; }
    } else if (key == "G") {
      CkptFile::Io r;
      size_t n; uint32_t a, v;
      is >> r.base >> r.size >> n;
      while (n--) { is >> a >> v; r.w[a] = v; }
      ck.io.push_back(r);
    } else if (key == "Z") { long long c; is >> c >> ck.broken; ck.cut = c < 0 ? ~0ull : c; }
    else if (key == "I") { image = true; is >> openas >> isize >> ia >> ib; }
    else if (key == "A") {
      size_t n; uint32_t a;
      is >> n;
      while (n--) { is >> a; addrs.push_back(a); }
    } else if (key == "E") {
      buf[0] = 0;
      unlink(given_name.c_str());
      fflush(out);
      pid_t p = fork();
      if (p == 0) { alarm(40); child(buf, cap); }
      int stt = 0;
      waitpid(p, &stt, 0);
      unlink(given_name.c_str());
      std::string o;
      if (image) {
        o = "{\"id\":\"" + id + "\",\"what\":\"I\",\"open\":" + std::to_string(openas) + ",\"img\":[" +
            std::to_string(isize) + "," + std::to_string(ia) + "," + std::to_string(ib) + "],";
      } else {
        std::string rm, gs;
        for (auto &w : ck.ram) add(rm, "[%d,%d]", I(w.first), I(w.second));
        for (auto &g : ck.io) {
          std::string w;
          for (auto &x : g.w) add(w, "[%d,%d]", I(x.first), I(x.second));
          if (!gs.empty()) gs += ',';
          gs += "[" + std::to_string(I(g.base)) + "," + std::to_string(I(g.size)) + ",[" + w + "]]";
        }
        o = "{\"id\":\"" + id + "\",\"what\":\"K\",\"open\":" + std::to_string(openas) + ",\"hdr\":" + list(ck.hdr, 5) +
            ",\"st\":" + list(ck.st, 59) + ",\"ra\":" + std::to_string(I(ck_ra)) + ",\"cnt\":[" +
            std::to_string(I(ck.count >> 32)) + "," + std::to_string(I(ck.count)) + "],\"ram\":[" + rm + "],\"io\":[" + gs +
            "],\"cut\":" + (ck.cut == ~0ull ? "-1" : std::to_string(ck.cut)) + ",";
      }
      if (WIFSIGNALED(stt)) o += "\"rej\":2,\"sig\":" + std::to_string(WTERMSIG(stt)) + ",\"v\":[]";
      else if (WEXITSTATUS(stt)) o += "\"rej\":1,\"v\":[]";
      else if (!buf[0]) o += "\"rej\":3,\"v\":[]";
      else o += buf;
      fprintf(out, "%s}\n", o.c_str());
    }
  }
  fclose(out);
  return 0;
}
