// The reference-model interface on top of the interpreter in the repository.
#include "ref.h"
#include "refcpu_api.h"
#include <cstring>
#include <sys/mman.h>
struct RefCpuContext { RefCpu c{}; bool dev = true; };
RefCpuContext *refcpu_init(uint32_t pc, uint32_t) {
  auto *r = new RefCpuContext;
  r->c.init(pc);
  return r;
}
void refcpu_destroy(RefCpuContext *r) { free(r->c.memory); delete r; }
void refcpu_get_state(RefCpuContext *r, RefCpuState *s) {
  const CPU_state &a = r->c.state;
  memcpy(s->gpr, a.gpr, sizeof s->gpr);
  memcpy(s->csr, a.csr, sizeof s->csr);
  s->pc = a.pc; s->store_addr = a.store_addr; s->store_data = a.store_data; s->store_strb = a.store_strb;
  s->store = a.store; s->instruction = a.instruction; s->page_fault_inst = a.page_fault_inst;
  s->page_fault_load = a.page_fault_load; s->page_fault_store = a.page_fault_store; s->inst_idx = a.inst_idx;
  s->commit_pc = a.commit_pc; s->reserve_valid = a.reserve_valid; s->reserve_addr = a.reserve_addr;
  s->privilege = r->c.privilege;
}
void refcpu_set_state(RefCpuContext *r, const RefCpuState *s) {
  CPU_state &a = r->c.state;
  memcpy(a.gpr, s->gpr, sizeof s->gpr);
  memcpy(a.csr, s->csr, sizeof s->csr);
  a.pc = s->pc; a.store_addr = s->store_addr; a.store_data = s->store_data; a.store_strb = s->store_strb;
  a.store = s->store; a.instruction = s->instruction; a.page_fault_inst = s->page_fault_inst;
  a.page_fault_load = s->page_fault_load; a.page_fault_store = s->page_fault_store; a.inst_idx = s->inst_idx;
  a.commit_pc = s->commit_pc; a.reserve_valid = s->reserve_valid; a.reserve_addr = s->reserve_addr;
  r->c.privilege = s->privilege;
}
void refcpu_get_step_info(RefCpuContext *r, RefCpuStepInfo *i) {
  i->instruction = r->c.Instruction;
  i->page_fault_inst = r->c.page_fault_inst;
  i->page_fault_load = r->c.page_fault_load;
  i->page_fault_store = r->c.page_fault_store;
  i->sim_end = r->c.sim_end;
}
void refcpu_step(RefCpuContext *r, uint64_t n) { while (n--) r->c.exec(); }
void refcpu_clear_io_words(RefCpuContext *r) { r->c.io_words.clear(); }
void refcpu_set_io_word(RefCpuContext *r, uint32_t a, uint32_t v) { if (v) r->c.io_words[a] = v; else r->c.io_words.erase(a); }
uint32_t refcpu_get_io_word(RefCpuContext *r, uint32_t a) { auto i = r->c.io_words.find(a); return i == r->c.io_words.end() ? 0 : i->second; }
uint32_t *refcpu_get_ram_ptr(RefCpuContext *r) { return r->c.memory; }
uint32_t refcpu_load_word(RefCpuContext *r, uint32_t a) { return r->c.load_word(a); }
bool refcpu_probe_pc_translation(RefCpuContext *) { return true; }
void refcpu_set_device_effects(RefCpuContext *r, bool b) { r->dev = b; }
void refcpu_set_dut_expected_faults(RefCpuContext *r, bool a, bool b, bool c) {
  r->c.dut_expect_pf_inst = a; r->c.dut_expect_pf_load = b; r->c.dut_expect_pf_store = c;
}
void refcpu_set_ref_only(RefCpuContext *r, bool b) { r->c.ref_only = b; }
void refcpu_set_sim_end(RefCpuContext *r, bool b) { r->c.sim_end = b; }
void refcpu_set_sim_time(RefCpuContext *, uint64_t) {}
void refcpu_set_uart_print(RefCpuContext *r, bool b) { r->c.uart_print = b; }
void refcpu_sync_ram_from_dut(RefCpuContext *r, const uint32_t *p, size_t n) {
  static const uint8_t zero[4096] = {};
  for (size_t k = 0; k < n; k += 4096) {
    size_t m = n - k < 4096 ? n - k : 4096;
    if (memcmp((const char *)p + k, zero, m)) memcpy((char *)r->c.memory + k, (const char *)p + k, m);
  }
}
void refcpu_sync_ram_range_from_dut(RefCpuContext *r, uint32_t a, const void *p, size_t n) {
  memcpy((char *)r->c.memory + (a - 0x80000000u), p, n);
}
