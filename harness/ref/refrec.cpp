// Runs RefCpu from scripted machine states and records every change it makes.
//   refrec SCRIPT OUT.ndjson
#include "RISCV.h"
#include "ref.h"
#include "Csr.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

long long sim_time = 0;
void push_oracle_timer(uint32_t) {}

static int I(uint32_t v) { return (int)v; }

struct Win {
  uint32_t base;
  std::vector<uint32_t> snap;
};

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  FILE *out = std::fopen(argv[2], "w");
  static RefCpu cpu{};
  std::string line, key;
  uint32_t pc = 0, priv = 3, rv = 0, ra = 0, x[32], c[21], cmph = 0, cmpl = 0, offh = 0, offl = 0;
  long long t0 = 0, dt = 1;
  int nsteps = 0, refonly = 0;
  std::string id;
  std::vector<std::pair<uint32_t, std::vector<uint32_t>>> regions, watch;
  long total = 0;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    is >> key;
    if (key == "T") {
      is >> id >> nsteps >> refonly >> t0 >> dt;
      regions.clear();
      watch.clear();
    } else if (key == "S") {
      is >> pc >> priv >> rv >> ra;
    } else if (key == "X") {
      for (auto &v : x) is >> v;
    } else if (key == "C") {
      for (auto &v : c) is >> v;
    } else if (key == "M") {
      is >> offh >> offl >> cmph >> cmpl;
    } else if (key == "W") {
      uint32_t a, n;
      is >> a >> n;
      std::vector<uint32_t> w(n);
      for (auto &v : w) is >> v;
      regions.push_back({a, w});
    } else if (key == "G") {
      uint32_t a, n;
      is >> a >> n;
      watch.push_back({a, std::vector<uint32_t>(n, 0)});
    } else if (key == "E") {
      sim_time = t0;
      cpu.init(pc);
      cpu.sim_end = false;
      // start from an empty I/O space except what the script asks for
      cpu.io_words.clear();
      for (auto &r : regions)
        for (size_t k = 0; k < r.second.size(); k++) {
          uint32_t a = r.first + 4 * k;
          if (a >= 0x80000000u && a < 0xC0000000u)
            cpu.memory[(a - 0x80000000u) >> 2] = r.second[k];
          else if (r.second[k])
            cpu.io_words[a] = r.second[k];
        }
      uint64_t mt = (uint64_t)t0 + (((uint64_t)offh << 32) | offl);
      cpu.store_word(OPENSBI_TIMER_LOW_ADDR, (uint32_t)mt);
      cpu.store_word(OPENSBI_TIMER_HIGH_ADDR, (uint32_t)(mt >> 32));
      cpu.store_word(OPENSBI_TIMERCMP_LOW_ADDR, cmpl);
      cpu.store_word(OPENSBI_TIMERCMP_HIGH_ADDR, cmph);
      cpu.ref_only = refonly;
      cpu.dut_pf_check_enable = false;
      cpu.privilege = priv;
      cpu.state.pc = pc;
      cpu.state.reserve_valid = rv;
      cpu.state.reserve_addr = ra;
      for (int i = 0; i < 32; i++) cpu.state.gpr[i] = x[i];
      for (int i = 0; i < 21; i++) cpu.state.csr[i] = c[i];

      std::fprintf(out, "{\"id\":\"%s\",\"refonly\":%d,\"init\":[%d,%d,%d,%d,[", id.c_str(), refonly,
                   I(pc), I(priv), I(rv), I(ra));
      for (int i = 0; i < 32; i++) std::fprintf(out, "%s%d", i ? "," : "", I(x[i]));
      std::fprintf(out, "],[");
      for (int i = 0; i < 21; i++) std::fprintf(out, "%s%d", i ? "," : "", I(c[i]));
      std::fprintf(out, "],[%d,%d,%d,%d]],\"mem\":[", I(offh), I(offl), I(cmph), I(cmpl));
      for (size_t k = 0; k < regions.size(); k++) {
        std::fprintf(out, "%s[%d,[", k ? "," : "", I(regions[k].first >> 2));
        for (size_t j = 0; j < regions[k].second.size(); j++)
          std::fprintf(out, "%s%d", j ? "," : "", I(regions[k].second[j]));
        std::fprintf(out, "]]");
      }
      std::fprintf(out, "],\"ev\":[");
      for (auto &w : watch)
        std::memcpy(w.second.data(), cpu.memory + ((w.first - 0x80000000u) >> 2), 4 * w.second.size());
      auto io = cpu.io_words;
      bool first = true;
      for (int k = 0; k < nsteps; k++) {
        CPU_state b = cpu.state;
        uint8_t bp = cpu.privilege;
        (void)bp;
        sim_time = t0 + k * dt;
        if (((b.csr[csr_mstatus] >> 11) & 3) == 2) break; // reserved MPP
        cpu.exec();
        std::string xs, cs, ms, st;
        char tmp[64];
        auto add = [&](std::string &s, int i, uint32_t v) {
          std::snprintf(tmp, sizeof tmp, "%s%d,%d", s.empty() ? "" : ",", i, I(v));
          s += tmp;
        };
        for (int i = 0; i < 32; i++)
          if (cpu.state.gpr[i] != b.gpr[i]) add(xs, i, cpu.state.gpr[i]);
        for (int i = 0; i < 21; i++)
          if (cpu.state.csr[i] != b.csr[i]) add(cs, i, cpu.state.csr[i]);
        for (auto &w : watch) {
          uint32_t *p = cpu.memory + ((w.first - 0x80000000u) >> 2);
          if (std::memcmp(w.second.data(), p, 4 * w.second.size()))
            for (size_t j = 0; j < w.second.size(); j++)
              if (w.second[j] != p[j]) {
                add(ms, (int)((w.first >> 2) + j), p[j]);
                w.second[j] = p[j];
              }
        }
        if (io != cpu.io_words) {
          std::map<uint32_t, uint32_t> d;
          for (auto &e : cpu.io_words)
            if (!io.count(e.first) || io[e.first] != e.second) d[e.first] = e.second;
          for (auto &e : io)
            if (!cpu.io_words.count(e.first)) d[e.first] = 0;
          for (auto &e : d) add(ms, (int)(e.first >> 2), e.second);
          io = cpu.io_words;
        }
        // A store outside every window is reported where it went.
        if (cpu.state.store) {
          uint32_t a = cpu.state.store_addr & ~3u;
          bool ram = a >= 0x80000000u && a < 0xC0000000u, seen = !ram;
          for (auto &w : watch)
            if (a >= w.first && a - w.first < 4 * w.second.size()) seen = true;
          if (!seen) add(ms, (int)(a >> 2), cpu.load_word(a));
          std::snprintf(tmp, sizeof tmp, "%d,%d", I(cpu.state.store_addr), I(cpu.state.store_data));
          st = tmp;
        }
        int pf = cpu.page_fault_inst | cpu.page_fault_load << 1 | cpu.page_fault_store << 2;
        uint64_t now = (uint64_t)sim_time;
        std::fprintf(out, "%s[[%d,%d],%d,%d,%d,%d,[%s],[%s],[%s],[%s],%d,%d]", first ? "" : ",",
                     I((uint32_t)(now >> 32)), I((uint32_t)now), I(cpu.state.pc), (int)cpu.privilege,
                     (int)cpu.state.reserve_valid, I(cpu.state.reserve_addr), xs.c_str(), cs.c_str(),
                     ms.c_str(), st.c_str(), pf, (int)cpu.sim_end);
        first = false;
        total++;
        cpu.sim_end = false;
      }
      std::fprintf(out, "]}\n");
    }
  }
  std::fclose(out);
  std::printf("steps %ld\n", total);
  return 0;
}
