// Runs the complete simulator (SimCpu) on a bare-metal image with the modelled
// memory fabric and records every committed instruction.
#include "SimCpu.h"
#include "PhysMemory.h"
#include "RISCV.h"
#include "config.h"
#include "diff.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
long long sim_time = 0;
CPU_state dut_cpu;
namespace axi_interconnect {
FabricCfg g_fabric;
uint32_t fabric_read_word(uint32_t a) { return pmem_read(a); }
void fabric_write_word(uint32_t a, uint32_t d, uint32_t s) {
  uint32_t m = 0;
  for (int i = 0; i < 4; i++) if (s >> i & 1) m |= 0xFFu << (8 * i);
  pmem_write(a, (pmem_read(a) & ~m) | (d & m));
}
void fabric_on_read(int, uint32_t, uint32_t) {}
void fabric_on_write(int, uint32_t, uint32_t) {}
}
SimCpu cpu;
static FILE *tr;
static uint32_t pg[32];
static long long ncommit;
static void rec(bool sync) {
  ncommit++;
  if (!tr) return;
  fprintf(tr, "%lld pc=%08x i=%08x n=%08x p=%d s=%d", sim_time, dut_cpu.commit_pc,
          dut_cpu.instruction, dut_cpu.pc, (int)cpu.back.csr->privilege_1, sync);
  for (int i = 0; i < 32; i++)
    if (dut_cpu.gpr[i] != pg[i]) { fprintf(tr, " x%d=%08x", i, dut_cpu.gpr[i]); pg[i] = dut_cpu.gpr[i]; }
  if (dut_cpu.store) fprintf(tr, " st[%08x]=%08x", dut_cpu.store_addr, dut_cpu.store_data);
  if (cpu.back.rob->out.rob_bcast->interrupt) fprintf(tr, " INT");
  fprintf(tr, "\n");
}
void init_difftest(int) {}
void init_diff_ckpt(CPU_state, uint8_t) {}
void get_state(CPU_state &, uint8_t &) {}
void difftest_step(bool) { rec(false); }
void difftest_sync_from_dut(uint8_t) { rec(true); }
void difftest_sync_ram_range_from_dut(uint32_t, size_t) {}
bool difftest_ref_sim_end() { return false; }
bool difftest_ref_last_inst_is_wfi() { return false; }
void difftest_ref_set_uart_print(bool) {}
void difftest_ref_set_ref_only(bool) {}
void difftest_ref_set_device_effects(bool) {}
uint64_t difftest_get_oracle_timer() { return 0; }
void difftest_dump_memory_line(const char *, uint32_t) {}
void push_oracle_timer(uint32_t) {}
void get_oracle(struct front_top_in &, struct front_top_out &) {}

int main(int argc, char **argv) {
  std::string img = argv[1];
  long long maxcyc = argc > 2 ? atoll(argv[2]) : 1000000;
  if (argc > 3) tr = fopen(argv[3], "w");
  if (argc > 4) axi_interconnect::g_fabric.seed = atoll(argv[4]);
  if (argc > 5) axi_interconnect::g_fabric.lat_hi = atoi(argv[5]);
  if (argc > 6) axi_interconnect::g_fabric.stall_pct = atoi(argv[6]);
  if (argc > 7) axi_interconnect::g_fabric.reorder = atoi(argv[7]);
  pmem_init();
  cpu.init();
  cpu.back.load_image(img);
  cpu.sync_mmio_devices_from_backing();
  for (sim_time = 0; sim_time < maxcyc; sim_time++) {
    cpu.cycle();
    if (cpu.ctx.exit_reason != ExitReason::NONE) break;
  }
  if (tr) fclose(tr);
  printf("exit=%d cycles=%lld commits=%lld a0=%u\n", (int)cpu.ctx.exit_reason, sim_time, ncommit, cpu.get_reg(10));
}
