// Runs the complete simulator from scripted machine states under a modelled
// memory fabric and records every committed instruction.
//   simrec SCRIPT OUT.ndjson
// Script lines, one block per run:
//   T id maxcommits maxcycles      S pc priv rv ra      X x0..x31     C csr0..csr20
//   M offh offl cmph cmpl          W addr n words...    F seed lat_lo lat_hi stall_pct reorder
//   E (run)
// Every run is a forked child of the freshly initialised simulator, so runs
// cannot influence each other and a crash ends one run only.
#include "PhysMemory.h"
#include "RISCV.h"
#include "SimCpu.h"
#include "config.h"
#include "diff.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

long long sim_time = 0;
#ifndef LOCKSTEP
CPU_state dut_cpu;
#endif
namespace axi_interconnect {
FabricCfg g_fabric;
uint32_t fabric_read_word(uint32_t a) { return pmem_read(a); }
void fabric_write_word(uint32_t a, uint32_t d, uint32_t s) {
  uint32_t m = 0;
  for (int i = 0; i < 4; i++) if (s >> i & 1) m |= 0xFFu << (8 * i);
  pmem_write(a, (pmem_read(a) & ~m) | (d & m));
}
void fabric_on_read(int, uint32_t, uint32_t) {}
void fabric_on_write(int, uint32_t, uint32_t) {}
}

SimCpu cpu;
static std::string ev, io, train, pend;
static CPU_state prev, start;
static uint8_t start_priv;
static long ncommit, maxcommit;
static long long last_commit;

static int I(uint32_t v) { return (int)v; }
static void add(std::string &s, const char *f, ...) {
  char b[8192];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (!s.empty()) s += ',';
  s += b;
}

#include "ports.h"
#include "ckpt.h"

// the prediction read with each instruction when it went to execute
static FtqPcReadResp predicted[FTQ_SIZE][FETCH_WIDTH];
static void note_predictions() {
  const auto &q = *cpu.back.pre;
  for (int i = 0; i < FTQ_PRF_PC_PORT_NUM; i++) {
    const auto &a = q.in.ftq_prf_pc_req->req[i];
    if (a.valid) predicted[a.ftq_idx][a.ftq_offset] = q.out.ftq_prf_pc_resp->resp[i];
  }
}

// one committed (or interrupted) instruction
static void rec() {
  ncommit++;
  last_commit = sim_time;
  std::string xs, cs, st;
  uint32_t csr[21];
  for (int i = 0; i < 21; i++) csr[i] = cpu.back.csr->CSR_RegFile_1[i];
  csr[csr_mip] &= ~0x880u;
  for (int i = 0; i < 32; i++)
    if (dut_cpu.gpr[i] != prev.gpr[i]) { add(xs, "%d,%d", i, I(dut_cpu.gpr[i])); prev.gpr[i] = dut_cpu.gpr[i]; }
  for (int i = 0; i < 21; i++)
    if (csr[i] != prev.csr[i]) { add(cs, "%d,%d", i, I(csr[i])); prev.csr[i] = csr[i]; }
  if (dut_cpu.store) add(st, "%d,%d", I(dut_cpu.store_addr), I(dut_cpu.store_data));
  const bool irq = cpu.back.rob->out.rob_bcast->interrupt;
  add(ev, "[%lld,%d,%d,%d,%d,[%s],[%s],[%s],%d,%d,%d,[", sim_time, I(dut_cpu.commit_pc),
      I(dut_cpu.instruction), I(dut_cpu.pc), (int)cpu.back.csr->privilege_1, xs.c_str(), cs.c_str(), st.c_str(),
      I((uint32_t)cpu.back.csr->CSR_RegFile[csr_mip] & 0x880u), (int)irq,
      dut_cpu.page_fault_inst | dut_cpu.page_fault_load << 1 | dut_cpu.page_fault_store << 2);
  // what was predicted for it when it was fetched
  static long long slot_cycle = -1;
  static int slot;
  slot = slot_cycle == sim_time ? slot + 1 : 0;
  slot_cycle = sim_time;
  const auto &com = cpu.back.rob->out.rob_commit->commit_entry;
  while (slot < COMMIT_WIDTH - 1 && !com[slot].valid) slot++;
  const auto &fe = predicted[com[slot].uop.ftq_idx][com[slot].uop.ftq_offset];
  char pr[64];
  snprintf(pr, sizeof pr, "],%d,%d]", (int)fe.pred_taken, I(fe.next_pc));
  ev += io + pr;
  io.clear();
}
#ifdef LOCKSTEP
// the real lockstep checker, with the interpreter of the repository as reference
#include "refapi.h"
struct Flagged {};
static bool stepping;
extern "C" void __real_exit(int);
extern "C" void __wrap_exit(int c) {
  if (stepping && c) throw Flagged{};
  __real_exit(c);
}
void __real__Z13difftest_stepb(bool) asm("__real__Z13difftest_stepb");
void __real__Z22difftest_sync_from_duth(uint8_t) asm("__real__Z22difftest_sync_from_duth");
void wrap_step(bool c) asm("__wrap__Z13difftest_stepb");
void wrap_sync(uint8_t p) asm("__wrap__Z22difftest_sync_from_duth");
void wrap_get(CPU_state &s, uint8_t &p) asm("__wrap__Z9get_stateR9CPU_stateRh");
void wrap_step(bool c) { rec(); stepping = true; __real__Z13difftest_stepb(c); stepping = false; }
void wrap_sync(uint8_t p) { rec(); __real__Z22difftest_sync_from_duth(p); }
void wrap_get(CPU_state &s, uint8_t &p) { s = start; p = start_priv; }
static CPU_state loaded;
static uint8_t loaded_priv;
#else
static CPU_state loaded;
static uint8_t loaded_priv;
void init_difftest(int) {}
void init_diff_ckpt(CPU_state s, uint8_t p) { loaded = s; loaded_priv = p; }
void get_state(CPU_state &s, uint8_t &p) { s = start; p = start_priv; }
void difftest_step(bool) { rec(); }
void difftest_sync_from_dut(uint8_t) { rec(); }
void difftest_sync_ram_range_from_dut(uint32_t, size_t) {}
bool difftest_ref_sim_end() { return false; }
bool difftest_ref_last_inst_is_wfi() { return false; }
void difftest_ref_set_uart_print(bool) {}
void difftest_ref_set_ref_only(bool) {}
void difftest_ref_set_device_effects(bool) {}
void difftest_dump_memory_line(const char *, uint32_t) {}
#endif
void push_oracle_timer(uint32_t) {}
void get_oracle(struct front_top_in &, struct front_top_out &) {}
uint64_t difftest_get_oracle_timer() { return 0; }

struct Run {
  std::string id;
  long maxcommit = 0;
  long long maxcycle = 0, quiet = 6000;
  uint32_t pc = 0, priv = 3, rv = 0, ra = 0, x[32] = {}, c[21] = {}, off[2] = {}, cmp[2] = {};
  std::vector<std::pair<uint32_t, std::vector<uint32_t>>> mem;
  axi_interconnect::FabricCfg f;
};

static void emit(int fd, const std::string &out) {
  size_t o = 0;
  while (o < out.size()) {
    ssize_t n = write(fd, out.data() + o, out.size() - o);
    if (n <= 0) _exit(9);
    o += n;
  }
  _exit(0);
}

// BOOT=ckpt: the machine comes from a checkpoint file instead of being handed over
static void boot_ckpt(const Run &r) {
  static const uint32_t io[4][2] = {{BOOT_IO_BASE, BOOT_IO_SIZE}, {UART_ADDR_BASE, UART_MMIO_SIZE},
                                    {PLIC_ADDR_BASE, PLIC_MMIO_SIZE}, {OPENSBI_TIMER_BASE, OPENSBI_TIMER_MMIO_SIZE}};
  ck.name = "ck";
  const uint32_t h[5] = {0x006d6552u, 2, r.priv, 1u << 30, 4};
  memcpy(ck.hdr, h, sizeof h);
  memcpy(ck.st, r.x, sizeof r.x);
  memcpy(ck.st + 32, r.c, sizeof r.c);
  ck.st[53] = r.pc;
  ck.st[58] = r.rv;
  ck_ra = r.ra;
  for (auto &g : io) ck.io.push_back({g[0], g[1], {}});
  std::vector<std::pair<uint32_t, uint32_t>> other;
  for (auto &m : r.mem)
    for (size_t k = 0; k < m.second.size(); k++) {
      uint32_t a = m.first + 4 * k;
      if (a >= 0x80000000u && a < 0xC0000000u) { ck.ram[a - 0x80000000u] = m.second[k]; continue; }
      bool in = false;
      for (int i = 0; i < 4 && !in; i++)
        if (a >= io[i][0] && a - io[i][0] < io[i][1]) { ck.io[i].w[a - io[i][0]] = m.second[k]; in = true; }
      if (!in) other.push_back({a, m.second[k]});
    }
  ck_finish();
  cpu.back.restore_checkpoint("ck");
  for (auto &o : other) pmem_write(o.first, o.second);
  start = loaded;
  start_priv = loaded_priv;
}

static void child(const Run &r, int fd) {
  char name[] = "/tmp/simrec.XXXXXX";
  int uart = mkstemp(name);
  unlink(name);
  fflush(stdout);
  dup2(uart, 1);
  for (auto &m : r.mem)
    for (size_t k = 0; k < m.second.size(); k++) pmem_write(m.first + 4 * k, m.second[k]);
  start = {};
  memcpy(start.gpr, r.x, sizeof r.x);
  memcpy(start.csr, r.c, sizeof r.c);
  start.pc = r.pc;
  start.reserve_valid = r.rv;
  start.reserve_addr = r.ra;
  start_priv = r.priv;
  prev = start;
  prev.csr[csr_mip] &= ~0x880u;
  sim_time = 0;
  cpu.mem_subsystem.on_commit_store(OPENSBI_TIMER_LOW_ADDR, r.off[1], 2);
  cpu.mem_subsystem.on_commit_store(OPENSBI_TIMER_HIGH_ADDR, r.off[0], 2);
  cpu.mem_subsystem.on_commit_store(OPENSBI_TIMERCMP_LOW_ADDR, r.cmp[1], 2);
  cpu.mem_subsystem.on_commit_store(OPENSBI_TIMERCMP_HIGH_ADDR, r.cmp[0], 2);
  if (getenv("BOOT")) boot_ckpt(r);
  axi_interconnect::g_fabric = r.f;
  cpu.axi_interconnect.init();
#ifdef LOCKSTEP
  init_diff_ckpt(start, start_priv);
#endif
  cpu.back.restore_from_ref();
  cpu.restore_pc(cpu.back.number_PC);
  maxcommit = r.maxcommit;
  ports_start();
  fflush(stdout);
  ftruncate(uart, 0);
  lseek(uart, 0, SEEK_SET);
  const char *why = "cycles";
  std::string tr;
  for (sim_time = 0; sim_time < r.maxcycle; sim_time++) {
#ifdef LOCKSTEP
    try { cpu.cycle(); } catch (Flagged) { why = "flagged"; break; }
#else
    cpu.cycle();
#endif
    ports_cycle();
    note_predictions();
    const auto &q = cpu.back.out.peripheral_req;
    if (q.is_mmio)
      add(io, "[%d,%d,%d,%d,%d]", (int)q.wen, I(q.mmio_addr), I(q.mmio_wdata), (int)q.mmio_fun3, (int)sim_time);
    for (int i = 0; i < COMMIT_WIDTH; i++)
      if (cpu.front.in.back2front_valid[i])
        add(tr, "[%d,%d,%d,%d,%d,%d,%d]", I(cpu.front.in.predict_base_pc[i]), (int)cpu.front.in.actual_dir[i],
            I(cpu.front.in.actual_target[i]), (int)cpu.front.in.actual_br_type[i], (int)cpu.front.in.predict_dir[i],
            p_meta(cpu.front.in, i), p_meta1(cpu.back.ftq_commit_info.resp[i]));
    if (cpu.ctx.exit_reason == ExitReason::EBREAK) { why = "ebreak"; break; }
    if (cpu.ctx.exit_reason == ExitReason::WFI) { why = "wfi"; break; }
    if (cpu.ctx.exit_reason != ExitReason::NONE) { why = "other"; break; }
    if (ncommit >= maxcommit) { why = "limit"; break; }
    if (sim_time - last_commit > r.quiet) { why = "stuck"; break; }
  }
  std::cout.flush();
  fflush(stdout);
  std::string us, out, xs, cs;
  {
    std::vector<unsigned char> b(1 << 16);
    ssize_t n = pread(uart, b.data(), b.size(), 0);
    // the exit message of the simulator is not device output
    std::string s((char *)b.data(), n > 0 ? n : 0);
    size_t p = s.find("Simulation Exited");
    if (p != std::string::npos) s.resize(p);
    for (unsigned char c : s) add(us, "%d", c);
  }
  if (!ports_sel.empty()) {
    add(out, "{\"id\":\"%s\",\"end\":\"%s\",\"cycles\":%lld,\"commits\":%ld,\"pt\":[", r.id.c_str(), why, sim_time, ncommit);
    out += pt + "]}\n";
    emit(fd, out);
  }
  for (int i = 0; i < 32; i++) add(xs, "%d", I(r.x[i]));
  for (int i = 0; i < 21; i++) add(cs, "%d", I(r.c[i]));
  add(out, "{\"id\":\"%s\",\"end\":\"%s\",\"cycles\":%lld,\"init\":[%d,%d,%d,%d,[", r.id.c_str(), why, sim_time,
      I(r.pc), I(r.priv), I(r.rv), I(r.ra));
  out += xs + "],[" + cs + "],[";
  char b[400];
  snprintf(b, sizeof b, "%d,%d,%d,%d]],\"mem\":[", I(r.off[0]), I(r.off[1]), I(r.cmp[0]), I(r.cmp[1]));
  out += b;
  bool first = true;
  for (auto &m : r.mem) {
    std::string w;
    for (uint32_t v : m.second) add(w, "%d", I(v));
    out += first ? "" : ",";
    first = false;
    snprintf(b, sizeof b, "[%d,[", I(m.first >> 2));
    out += b + w + "]]";
  }
  const auto &pf = cpu.ctx.perf;
  snprintf(b, sizeof b,
           "\"perf\":[%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld],", (long long)pf.cycle,
           (long long)pf.commit_num, (long long)pf.commit_load_num, (long long)pf.commit_store_num,
           (long long)pf.cond_br_num, (long long)pf.jalr_br_num, (long long)pf.ret_br_num,
           (long long)pf.cond_mispred_num, (long long)pf.jalr_mispred_num, (long long)pf.ret_mispred_num,
           (long long)pf.cond_dir_mispred, (long long)pf.cond_addr_mispred, (long long)pf.jalr_dir_mispred,
           (long long)pf.jalr_addr_mispred, (long long)pf.ret_dir_mispred, (long long)pf.ret_addr_mispred);
  out += "],\"uart\":[" + us + "]," + b + "\"train\":[" + tr + "],\"lastio\":[" + io + "],\"ev\":[" + ev + "]}\n";
  emit(fd, out);
}

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  int fd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  pmem_init();
  int so = dup(1), nul = open("/dev/null", O_WRONLY);
  fflush(stdout);
  dup2(nul, 1);
  cpu.init();
  cpu.sync_mmio_devices_from_backing();
  std::cout.flush();
  fflush(stdout);
  dup2(so, 1);
  std::string line, key;
  Run r;
  int ran = 0;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    is >> key;
    if (key == "T") {
      r = Run();
      is >> r.id >> r.maxcommit >> r.maxcycle;
    } else if (key == "S") is >> r.pc >> r.priv >> r.rv >> r.ra;
    else if (key == "X") for (auto &v : r.x) is >> v;
    else if (key == "C") for (auto &v : r.c) is >> v;
    else if (key == "M") is >> r.off[0] >> r.off[1] >> r.cmp[0] >> r.cmp[1];
    else if (key == "F") is >> r.f.seed >> r.f.lat_lo >> r.f.lat_hi >> r.f.stall_pct >> r.f.reorder;
    else if (key == "W") {
      uint32_t a, n;
      is >> a >> n;
      std::vector<uint32_t> w(n);
      for (auto &v : w) is >> v;
      r.mem.push_back({a, w});
    } else if (key == "E") {
      ran++;
      pid_t p = fork();
      if (p == 0) { alarm(60); child(r, fd); }
      int stt = 0;
      waitpid(p, &stt, 0);
      if (stt) {
        printf("FAILED %s %s %d\n", r.id.c_str(), WIFSIGNALED(stt) ? "signal" : "exit",
               WIFSIGNALED(stt) ? WTERMSIG(stt) : WEXITSTATUS(stt));
        fflush(stdout);
        return 3;
      }
    }
  }
  printf("runs %d\n", ran);
  return 0;
}
