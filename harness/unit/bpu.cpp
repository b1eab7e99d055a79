// Drives the branch predictor directly: the driver is the program, the fetch pipeline and the retiring back end.
//   bpu SCRIPT OUT.ndjson
//   P id seed steady lat pready pcommit pevent flood ncycles start n (pc type mode t1 t2 t3)*
// type as the predictor numbers them; mode of a conditional branch: 0 never, 1 always, 2 random, k counted loop of k.
// Probabilities per mille.  flood: retire two branches of one bank every cycle.
#include "BPU/BPU.h"
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using std::string;
using std::vector;
long long sim_time = 0;
BPU_TOP *g_bpu_top = nullptr;

static void add(string &s, const char *f, ...) {
  char b[300];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (!s.empty()) s += ',';
  s += b;
}
static int I(uint32_t v) { return (int)v; }

struct Ins {
  int type = BR_NONCTL, mode = 0;
  uint32_t t[3] = {0, 0, 0};
  int n = 0;
};
struct Meta {
  bool dir = 0, alt = 0, scu = 0, scp = 0, lu = 0, lh = 0, lp = 0;
  uint32_t pcpn = 0, altpcpn = 0, tags[TN_MAX] = {}, idxs[TN_MAX] = {}, sci[BPU_SCL_META_NTABLE] = {}, li = 0, lt = 0;
  int scs = 0;
};
struct Upd {
  uint32_t pc, target;
  int type;
  bool dir;
  Meta m;
};
struct Slot {
  uint32_t pc, next;
  Meta m;
};
struct Dig {
  uint32_t h = 2166136261u;
  void operator()(uint32_t v) { h = (h ^ v) * 16777619u, h ^= h >> 15; }
  int get() const { return (int)(h & 0x7fffffff); }
};
static void digTarget(Dig &d, uint32_t pc, int type, bool dir, uint32_t target) { d(pc), d(type), d(dir), d(target); }

int main(int argc, char **argv) {
  if (argc != 3) return 2;
  std::ifstream f(argv[1]);
  FILE *o = fopen(argv[2], "w");
  if (!f || !o) return 2;
  string line;
  while (std::getline(f, line)) {
    std::istringstream in(line);
    string kind, id;
    uint64_t x;
    int steady, lat, pready, pcommit, pevent, flood, ncyc, n;
    uint32_t start;
    in >> kind >> id >> x >> steady >> lat >> pready >> pcommit >> pevent >> flood >> ncyc >> start >> n;
    std::map<uint32_t, Ins> prog;
    vector<uint32_t> pcs;
    for (; n--;) {
      uint32_t pc;
      Ins s;
      in >> pc >> s.type >> s.mode >> s.t[0] >> s.t[1] >> s.t[2];
      prog[pc] = s, pcs.push_back(pc);
    }
    x = x * 2654435761u + 88172645463325252ull;
    auto rnd = [&] { return x ^= x << 13, x ^= x >> 7, x ^= x << 17, (uint32_t)(x >> 11); };
    auto per = [&](int p) { return (int)(rnd() % 1000) < p; };
    std::unique_ptr<BPU_TOP> u(new BPU_TOP());
    std::deque<Slot> fetched;
    std::deque<Upd> retired;
    vector<uint32_t> calls;
    uint32_t arch = start;
    bool redirect = true;
    long due = 1;
    uint32_t rpc = start;
    string v;
    auto rd = std::make_unique<BPU_TOP::ReadData>();
    auto req = std::make_unique<BPU_TOP::UpdateRequest>();
    bool full = false;
    for (long t = 1; t <= ncyc; t++) {
      BPU_TOP::InputPayload p;
      memset((void *)&p, 0, sizeof p);
      p.icache_read_ready = per(pready);
      // the program runs ahead of retirement; what was fetched wrongly redirects after a while
      for (int k = 0; k < 3 && !redirect && !fetched.empty(); k++) {
        const Slot s = fetched.front();
        fetched.pop_front();
        const uint32_t pc = arch;
        Ins &i = prog[pc];
        uint32_t next = pc + 4;
        bool dir = false;
        if (i.type == BR_DIRECT) {
          if (i.mode == 0) dir = false;
          else if (i.mode == 1) dir = true;
          else if (i.mode == 2) dir = rnd() & 1;
          else dir = ++i.n % i.mode != 0;
          if (dir) next = i.t[0];
        } else if (i.type == BR_RET) {
          dir = true;
          if (calls.empty()) next = i.t[0];
          else next = calls.back(), calls.pop_back();
        } else if (i.type == BR_CALL) dir = true, next = i.t[0], calls.push_back(pc + 4);
        else if (i.type == BR_JAL) dir = true, next = i.t[0];
        else if (i.type == BR_IDIRECT) dir = true, next = i.t[i.mode == 1 ? 0 : rnd() % 3];
        if (calls.size() > 40) calls.erase(calls.begin());
        retired.push_back({pc, next, i.type, dir, s.m});
        arch = next;
        if (per(pevent)) arch = pcs[rnd() % pcs.size()] & ~63u, calls.clear();
        if (s.next != arch) redirect = true, rpc = arch, due = t + 1 + (lat ? rnd() % lat : 0);
      }
      if (redirect) fetched.clear();
      if (redirect && t >= due) p.refetch = 1, p.refetch_address = rpc, redirect = false;
      int room = full ? 1 : COMMIT_WIDTH;
      string us;
      for (int k = 0; k < COMMIT_WIDTH; k++) {
        Dig d;
        if (flood) {
          retired.clear();
          const uint32_t pc = pcs[0] & ~15u;
          retired.push_back({pc, pc + 64, BR_DIRECT, (bool)(rnd() & 1), Meta()});
        }
        if (!retired.empty() && room && (flood || per(pcommit))) {
          const Upd q = retired.front();
          retired.pop_front();
          room--;
          p.in_upd_valid[k] = 1, p.in_update_base_pc[k] = q.pc, p.in_actual_dir[k] = q.dir, p.in_actual_br_type[k] = q.type, p.in_actual_targets[k] = q.target;
          p.in_pred_dir[k] = q.m.dir, p.in_alt_pred[k] = q.m.alt, p.in_pcpn[k] = q.m.pcpn, p.in_altpcpn[k] = q.m.altpcpn;
          for (int j = 0; j < TN_MAX; j++) p.in_tage_tags[k][j] = q.m.tags[j], p.in_tage_idxs[k][j] = q.m.idxs[j];
          p.in_sc_used[k] = q.m.scu, p.in_sc_pred[k] = q.m.scp, p.in_sc_sum[k] = q.m.scs;
          for (int j = 0; j < BPU_SCL_META_NTABLE; j++) p.in_sc_idx[k][j] = q.m.sci[j];
          p.in_loop_used[k] = q.m.lu, p.in_loop_hit[k] = q.m.lh, p.in_loop_pred[k] = q.m.lp, p.in_loop_idx[k] = q.m.li, p.in_loop_tag[k] = q.m.lt;
          digTarget(d, q.pc >> 4, q.type, q.dir, q.target);
          if (q.type == BR_DIRECT) {
            d(q.pc >> 4), d(q.dir), d(q.m.dir), d(q.m.alt), d(q.m.pcpn), d(q.m.altpcpn), d(q.m.scu), d(q.m.scp), d(q.m.scs), d(q.m.lu), d(q.m.lh), d(q.m.lp), d(q.m.li), d(q.m.lt);
            for (auto w : q.m.tags) d(w);
            for (auto w : q.m.idxs) d(w);
            for (auto w : q.m.sci) d(w);
          }
          add(us, "[1,%d,%d,%d,%d,%d,%d]", I(q.pc), q.type, q.dir, q.m.dir, I(q.target), d.get());
        } else {
          room = 0;
          add(us, "[0,0,0,0,0,0,0]");
        }
      }
      BPU_TOP::OutputPayload out;
      u->bpu_seq_read(p, *rd);
      u->bpu_comb_calc(p, *rd, out, *req);
      full = out.update_queue_full;
      string ss, qs;
      const uint32_t base = out.fetch_address;
      for (int k = 0; k < FETCH_WIDTH; k++) {
        const uint32_t pc = base + 4 * k;
        const bool on = req->do_pred_on_this_pc[k] && req->going_to_do_pred;
        add(ss, "[%d,%d,%d]", on ? (int)req->btb_in[(pc >> 2) % BPU_BANK_NUM].pred_type_in : 0, (int)out.out_pred_dir[k], on ? I(req->btb_pred_target_latch_next[k]) : 0);
      }
      for (int b = 0; b < BPU_BANK_NUM; b++) {
        Dig d;
        const auto &q = req->btb_in[b];
        const auto &g = req->tage_in[b];
        digTarget(d, q.upd_pc >> 2, q.upd_br_type_in, q.upd_actual_dir, q.upd_actual_addr);
        if (g.update_en) {
          d(g.pc_update_in >> 2), d(g.real_dir), d(g.pred_in), d(g.alt_pred_in), d(g.pcpn_in), d(g.altpcpn_in), d(g.sc_used_in), d(g.sc_pred_in), d(g.sc_sum_in), d(g.loop_used_in), d(g.loop_hit_in), d(g.loop_pred_in),
              d(g.loop_idx_in), d(g.loop_tag_in);
          for (int j = 0; j < TN_MAX; j++) d(g.tage_tag_flat_in[j]);
          for (int j = 0; j < TN_MAX; j++) d(g.tage_idx_flat_in[j]);
          for (int j = 0; j < BPU_SCL_META_NTABLE; j++) d(g.sc_idx_in[j]);
        }
        add(qs, "[%d,%d]", (int)q.upd_valid, q.upd_valid ? d.get() : 0);
      }
      if (out.PTAB_write_enable) {
        for (int k = 0; k < FETCH_WIDTH && req->do_pred_on_this_pc[k]; k++) {
          Slot s;
          s.pc = base + 4 * k;
          const bool last = k + 1 == FETCH_WIDTH || !req->do_pred_on_this_pc[k + 1] || out.out_pred_dir[k];
          s.next = last ? (uint32_t)out.predict_next_fetch_address : s.pc + 4;
          s.m.dir = out.out_pred_dir[k], s.m.alt = out.out_alt_pred[k], s.m.pcpn = out.out_pcpn[k], s.m.altpcpn = out.out_altpcpn[k];
          for (int j = 0; j < TN_MAX; j++) s.m.tags[j] = out.out_tage_tags[k][j], s.m.idxs[j] = out.out_tage_idxs[k][j];
          s.m.scu = out.out_sc_used[k], s.m.scp = out.out_sc_pred[k], s.m.scs = out.out_sc_sum[k];
          for (int j = 0; j < BPU_SCL_META_NTABLE; j++) s.m.sci[j] = out.out_sc_idx[k][j];
          s.m.lu = out.out_loop_used[k], s.m.lh = out.out_loop_hit[k], s.m.lp = out.out_loop_pred[k], s.m.li = out.out_loop_idx[k], s.m.lt = out.out_loop_tag[k];
          if (!redirect) fetched.push_back(s);
          if (last) break;
        }
      }
      u->bpu_seq_write(p, *req, false);
      string hs, fs;
      auto hist = [&](const wire1_t *g, uint32_t path, const target_addr_t *ras, int cnt) {
        for (int w = 0; w < 4; w++) {
          uint32_t b = 0;
          for (int j = 0; j < 32; j++) b |= (uint32_t)(bool)g[32 * w + j] << j;
          add(hs, "%d", I(b));
        }
        add(hs, "%d,%d,%d", (int)path, cnt, cnt ? I(ras[cnt - 1]) : 0);
      };
      hist(u->Spec_GHR, u->Spec_PATH, u->Spec_ras_stack, u->Spec_ras_count);
      hist(u->Arch_GHR, u->Arch_PATH, u->Arch_ras_stack, u->Arch_ras_count);
      if (t % 8 == 0)
        for (auto *fh : {u->Spec_FH, u->Arch_FH})
          for (int k = 0; k < FH_N_MAX; k++)
            for (int j = 0; j < TN_MAX; j++) add(fs, "%d", I(fh[k][j]));
      add(v, "[[%d,%d,%d],", (int)p.refetch, I(p.refetch_address), (int)p.icache_read_ready);
      v += "[" + us + "],";
      char b[200];
      snprintf(b, sizeof b, "[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d],", (int)out.icache_read_valid, I(out.fetch_address), I(out.predict_next_fetch_address), (int)out.PTAB_write_enable, (int)out.update_queue_full, (int)out.two_ahead_valid,
               I(out.two_ahead_target), (int)out.mini_flush_req, (int)out.mini_flush_correct, I(out.mini_flush_target));
      v += b;
      v += "[" + ss + "],[" + qs + "],[" + hs + "],[" + fs + "]]";
    }
#ifdef ENABLE_2AHEAD
    const int ahead = 1;
#else
    const int ahead = 0;
#endif
    fprintf(o, "{\"id\":\"%s\",\"steady\":%d,\"ahead\":%d,\"pc\":%d,\"v\":[%s]}\n", id.c_str(), steady, ahead, I(RESET_PC), v.c_str());
    fflush(o);
  }
  fclose(o);
}
