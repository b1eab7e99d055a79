// Drives the CSR and trap unit directly, one cycle after another.
//   csr SCRIPT OUT.ndjson
//   C id privilege c1..c21 ncycles, then per cycle
//     exec idx cmd read write data  event pc value  extvalid ext timvalid tim
// event: 0 nothing, 1 a CSR instruction retires, 2 ecall, 3 mret, 4 sret, 5 fetch fault, 6 load fault, 7 store fault,
// 8 illegal, 10 another instruction that empties the pipeline.  As in the core, an interrupt that is requested is
// taken instead of whatever would retire, and only one CSR instruction is between execution and retirement.
#include "Csr.h"
#include <cstdarg>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <string>
using std::string;
long long sim_time = 0;

static void add(string &s, const char *f, ...) {
  char b[2000];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (!s.empty() && s.back() != '[') s += ',';
  s += b;
}
static int I(uint32_t v) { return (int)v; }

int main(int argc, char **argv) {
  if (argc != 3) return 2;
  std::ifstream f(argv[1]);
  FILE *o = fopen(argv[2], "w");
  if (!f || !o) return 2;
  string line;
  while (std::getline(f, line)) {
    std::istringstream in(line);
    string kind, id;
    in >> kind >> id;
    ExeCsrIO exe;
    RobCsrIO rob;
    RobBroadcastIO bc;
    CsrInterruptInjectIO inj;
    CsrExeIO toexe;
    CsrRobIO torob;
    CsrFrontIO front;
    CsrStatusIO st;
    Csr *c = new Csr();
    c->in.exe2csr = &exe, c->in.rob2csr = &rob, c->in.rob_bcast = &bc, c->in.interrupt_inject = &inj;
    c->out.csr2exe = &toexe, c->out.csr2rob = &torob, c->out.csr2front = &front, c->out.csr_status = &st;
    c->init();
    uint32_t p, n;
    in >> p;
    c->privilege = c->privilege_1 = p;
    string init, v;
    for (int k = 0; k < CSR_NUM; k++) {
      uint32_t x;
      in >> x;
      c->CSR_RegFile[k] = x, c->CSR_RegFile_1[k] = x;
      add(init, "%d", I(x));
    }
    in >> n;
    bool busy = false;
    for (uint32_t t = 0; t < n; t++) {
      uint32_t x, idx, cmd, re, we, data, ev, pc, val, ev_v, ext, tv, tim;
      in >> x >> idx >> cmd >> re >> we >> data >> ev >> pc >> val >> ev_v >> ext >> tv >> tim;
      exe = {}, rob = {}, bc = {}, toexe = {}, torob = {}, front = {};
      c->comb_begin();
      c->comb_csr_status();
      c->comb_interrupt();
      const int req = torob.interrupt_req;
      if (busy || !x) x = 0, re = we = 0;
      if (ev == 1 && !busy) ev = 0;
      if (ev && req) ev = 9;
      if (x) exe.re = re, exe.we = we, exe.idx = idx, exe.wcmd = cmd, exe.wdata = data;
      c->comb_csr_read();
      bc.pc = pc, bc.trap_val = val, bc.flush = ev != 0;
      rob.commit = ev == 1, rob.interrupt_resp = ev == 9;
      bc.interrupt = ev == 9;
      bc.exception = ev == 2 || (ev >= 5 && ev <= 9);
      bc.ecall = ev == 2, bc.mret = ev == 3, bc.sret = ev == 4, bc.page_fault_inst = ev == 5, bc.page_fault_load = ev == 6,
      bc.page_fault_store = ev == 7, bc.illegal_inst = ev == 8;
      c->comb_exception();
      c->comb_csr_write();
      inj.external_irq_pending_valid = ev_v, inj.external_irq_pending = ext;
      inj.timer_irq_pending_valid = tv, inj.timer_irq_pending = tim;
      c->comb_interrupt_inject();
      const uint32_t rd = toexe.rdata, target = (ev == 3 || ev == 4) ? front.epc : front.trap_pc;
      string stat;
      add(stat, "%d,%d,%d,%d", I(st.mstatus), I(st.sstatus), I(st.satp), (int)st.privilege);
      c->seq();
      if (x) busy = true;
      if (ev) busy = false;
      string regs;
      for (int k = 0; k < CSR_NUM; k++) add(regs, "%d", I(c->CSR_RegFile[k]));
      const int left = inj.external_irq_pending_valid || inj.timer_irq_pending_valid;
      add(v, "[[%d,%d,%d,%d,%d,%d],[%d,%d,%d],[%d,%d,%d,%d],%d,%d,%d,[%s],[%s],%d,%d]", x, idx, cmd, re, we, I(data), ev, I(pc), I(val), ev_v,
          ext, tv, tim, req, I(rd), I(target), stat.c_str(), regs.c_str(), (int)c->privilege, left);
    }
    fprintf(o, "{\"id\":\"%s\",\"p\":%u,\"c\":[%s],\"v\":[%s]}\n", id.c_str(), p, init.c_str(), v.c_str());
    fflush(o);
    delete c;
  }
  fclose(o);
  return 0;
}
