// Single-precision arithmetic of the execution unit, of the gate-level adder and multiplier, and of the interpreter.
//   fpu SCRIPT OUT.ndjson
//   F id n (word a b c)...   recorded: [word, a, b, c, [unit], [gates], [interpreter]], empty where the operation is not offered
#include "FPU.h"
#include "Idu.h"
#include "ref.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
long long sim_time = 0;
void push_oracle_timer(uint32_t) {}

static std::string one(uint32_t v, bool there) { return there ? "[" + std::to_string((int)v) + "]" : "[]"; }

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  static RefCpu cpu{};
  cpu.init(0x80000000u);
  FPUSoftfloat unit;
  FPURtl gates;
  Idu idu{nullptr};
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    std::string k, id, v;
    int n;
    if (!(ss >> k >> id >> n)) continue;
    for (int j = 0; j < n; j++) {
      uint32_t w, a, b, c;
      ss >> w >> a >> b >> c;
      const uint32_t op = w & 127, f7 = w >> 25, f3 = w >> 12 & 7;
      ExuInst x;
      if (op == 0x53) {
        DecRenIO::DecRenInst d;
        idu.decode(d, w);
        x.op = UOP_FP;
        x.func3 = d.func3, x.func7 = d.func7, x.imm = d.imm;
        x.src1_rdata = a, x.src2_rdata = d.src2_en ? b : 0;
      }
      ExuInst y = x;
      const bool g = op == 0x53 && f7 <= 8 && f3 <= 4;
      if (op == 0x53) unit.impl_compute(x);
      if (g) gates.impl_compute(y);
      cpu.memory[0] = w;
      cpu.state.pc = 0x80000000u;
      cpu.state.gpr[1] = a, cpu.state.gpr[2] = b, cpu.state.gpr[3] = c, cpu.state.gpr[5] = ~a;
      cpu.exec();
      if (j) v += ",";
      v += "[" + std::to_string((int)w) + "," + std::to_string((int)a) + "," + std::to_string((int)b) + "," + std::to_string((int)c) + "," +
           one(x.result, op == 0x53) + "," + one(y.result, g) + "," + one(cpu.state.gpr[5], cpu.state.pc == 0x80000004u) + "]";
    }
    fprintf(out, "{\"id\":\"%s\",\"v\":[%s]}\n", id.c_str(), v.c_str());
    fflush(out);
  }
  fclose(out);
  return 0;
}
