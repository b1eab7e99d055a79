// Drives the front-end queues and the pre-decoder directly.
//   front SCRIPT OUT.ndjson
//   Q id kind n op...        kind 0 addresses 1 instructions 2 predictions 3 to back end;
//                            op: 1 reset 2 refetch 4 write 8 read 16 with a dummy 32 read and write as separate steps
//   D id n (pc word)...      pre-decode
//   K id n (next seq dirs kinds t0..t3)...   check of a block (kinds: 2 bits per slot)
#include "front_module.h"
#include "predecode.h"
#include "predecode_checker.h"
#include "train_IO.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using std::string;

static uint32_t mix(uint32_t v, uint32_t k) {
  uint32_t h = v * 2654435761u ^ (k + 1) * 40503u;
  h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
  return h;
}
template <class T> static void put(T &f, uint32_t bits, uint32_t v, uint32_t &k) { f = mix(v, k++) & (bits >= 32 ? ~0u : (1u << bits) - 1); }

// the fields of an entry, filled from (or compared with) the number of the write
template <class A> static void meta(A &e, uint32_t v, uint32_t &k) {
  for (int i = 0; i < FETCH_WIDTH; i++) {
    put(e.predict_base_pc[i], 32, v, k), put(e.alt_pred[i], 1, v, k), put(e.altpcpn[i], pcpn_t_BITS, v, k);
    put(e.pcpn[i], pcpn_t_BITS, v, k), put(e.sc_used[i], 1, v, k), put(e.sc_pred[i], 1, v, k);
    put(e.sc_sum[i], 16, v, k), put(e.loop_used[i], 1, v, k), put(e.loop_hit[i], 1, v, k), put(e.loop_pred[i], 1, v, k);
    put(e.loop_idx[i], 5, v, k), put(e.loop_tag[i], 8, v, k);
    for (int j = 0; j < TN_MAX; j++) put(e.tage_idx[i][j], tage_idx_t_BITS, v, k), put(e.tage_tag[i][j], tage_tag_t_BITS, v, k);
    for (int t = 0; t < BPU_SCL_META_NTABLE; t++) put(e.sc_idx[i][t], 4, v, k);
  }
}
template <class A> static bool same_meta(const A &a, const A &b) {
  for (int i = 0; i < FETCH_WIDTH; i++) {
    if (a.predict_base_pc[i] != b.predict_base_pc[i] || a.alt_pred[i] != b.alt_pred[i] || a.altpcpn[i] != b.altpcpn[i] ||
        a.pcpn[i] != b.pcpn[i] || a.sc_used[i] != b.sc_used[i] || a.sc_pred[i] != b.sc_pred[i] || a.sc_sum[i] != b.sc_sum[i] ||
        a.loop_used[i] != b.loop_used[i] || a.loop_hit[i] != b.loop_hit[i] || a.loop_pred[i] != b.loop_pred[i] ||
        a.loop_idx[i] != b.loop_idx[i] || a.loop_tag[i] != b.loop_tag[i])
      return false;
    for (int j = 0; j < TN_MAX; j++)
      if (a.tage_idx[i][j] != b.tage_idx[i][j] || a.tage_tag[i][j] != b.tage_tag[i][j]) return false;
    for (int t = 0; t < BPU_SCL_META_NTABLE; t++)
      if (a.sc_idx[i][t] != b.sc_idx[i][t]) return false;
  }
  return true;
}

struct Addr {
  typedef fetch_address_FIFO_in In; typedef fetch_address_FIFO_out Out; typedef fetch_address_FIFO_read_data Rd;
  typedef FetchAddrCombOut Req;
  static void sr(In *i, Rd *r) { fetch_address_FIFO_seq_read(i, r); }
  static void cc(In *i, Rd *r, Out *o, Rd *n, Req *q) { fetch_address_FIFO_comb_calc(i, r, o, n, q); }
  static void sw(Req *q) { fetch_address_FIFO_seq_write(q); }
  template <class E> static void fill(E &e, uint32_t v) { uint32_t k = 0; put(e.fetch_address, 32, v, k); }
  static bool same(const Out &a, const Out &b) { return a.fetch_address == b.fetch_address; }
  static bool valid(const Out &o, const Req &) { return o.read_valid; }
  static void acc(Req &a, const Req &s) {
    a.clear_fifo |= s.clear_fifo; a.pop_en |= s.pop_en;
    if (s.push_en) a.push_en = true, a.push_data = s.push_data;
  }
  static void mini(In &, bool) {}
  static bool dummy(const Out &) { return false; }
};
struct Inst {
  typedef instruction_FIFO_in In; typedef instruction_FIFO_out Out; typedef instruction_FIFO_read_data Rd;
  typedef InstructionCombOut Req;
  static void sr(In *i, Rd *r) { instruction_FIFO_seq_read(i, r); }
  static void cc(In *i, Rd *r, Out *o, Rd *n, Req *q) { instruction_FIFO_comb_calc(i, r, o, n, q); }
  static void sw(Req *q) { instruction_FIFO_seq_write(q); }
  template <class E> static void fill(E &e, uint32_t v) {
    uint32_t k = 0;
    for (int i = 0; i < FETCH_WIDTH; i++) {
      uint32_t w; put(w, 32, v, k);
      if constexpr (std::is_same_v<E, In>) e.fetch_group[i] = w; else e.instructions[i] = w;
      put(e.pc[i], 32, v, k), put(e.page_fault_inst[i], 1, v, k), put(e.inst_valid[i], 1, v, k);
      put(e.predecode_type[i], 2, v, k), put(e.predecode_target_address[i], 32, v, k);
    }
    put(e.seq_next_pc, 32, v, k);
  }
  static bool same(const Out &a, const Out &b) {
    for (int i = 0; i < FETCH_WIDTH; i++)
      if (a.instructions[i] != b.instructions[i] || a.pc[i] != b.pc[i] || a.page_fault_inst[i] != b.page_fault_inst[i] ||
          a.inst_valid[i] != b.inst_valid[i] || a.predecode_type[i] != b.predecode_type[i] ||
          a.predecode_target_address[i] != b.predecode_target_address[i])
        return false;
    return a.seq_next_pc == b.seq_next_pc;
  }
  static bool valid(const Out &o, const Req &) { return o.FIFO_valid; }
  static void acc(Req &a, const Req &s) {
    a.clear_fifo |= s.clear_fifo; a.pop_en |= s.pop_en;
    if (s.push_en) a.push_en = true, a.push_entry = s.push_entry;
  }
  static void mini(In &, bool) {}
  static bool dummy(const Out &) { return false; }
};
struct Pred {
  typedef PTAB_in In; typedef PTAB_out Out; typedef PTAB_read_data Rd; typedef PtabCombOut Req;
  static void sr(In *i, Rd *r) { PTAB_seq_read(i, r); }
  static void cc(In *i, Rd *r, Out *o, Rd *n, Req *q) { PTAB_comb_calc(i, r, o, n, q); }
  static void sw(Req *q) { PTAB_seq_write(q); }
  template <class E> static void fill(E &e, uint32_t v) {
    uint32_t k = 0;
    meta(e, v, k);
    for (int i = 0; i < FETCH_WIDTH; i++) put(e.predict_dir[i], 1, v, k);
    put(e.predict_next_fetch_address, 32, v, k);
  }
  static bool same(const Out &a, const Out &b) {
    for (int i = 0; i < FETCH_WIDTH; i++) if (a.predict_dir[i] != b.predict_dir[i]) return false;
    return a.predict_next_fetch_address == b.predict_next_fetch_address && same_meta(a, b);
  }
  static bool valid(const Out &, const Req &r) { return r.pop_en; }
  static void acc(Req &a, const Req &s) {
    a.clear_ptab |= s.clear_ptab; a.pop_en |= s.pop_en;
    if (s.push_write_en) a.push_write_en = true, a.push_write_entry = s.push_write_entry;
    if (s.push_dummy_en) a.push_dummy_en = true, a.push_dummy_entry = s.push_dummy_entry;
  }
  static void mini(In &i, bool d) { i.need_mini_flush = d; }
  static bool dummy(const Out &o) { return o.dummy_entry; }
};
struct Back {
  typedef front2back_FIFO_in In; typedef front2back_FIFO_out Out; typedef front2back_FIFO_read_data Rd;
  typedef Front2BackCombOut Req;
  static void sr(In *i, Rd *r) { front2back_FIFO_seq_read(i, r); }
  static void cc(In *i, Rd *r, Out *o, Rd *n, Req *q) { front2back_FIFO_comb_calc(i, r, o, n, q); }
  static void sw(Req *q) { front2back_FIFO_seq_write(q); }
  template <class E> static void fill(E &e, uint32_t v) {
    uint32_t k = 0;
    meta(e, v, k);
    for (int i = 0; i < FETCH_WIDTH; i++) {
      put(e.fetch_group[i], 32, v, k), put(e.page_fault_inst[i], 1, v, k), put(e.inst_valid[i], 1, v, k);
      put(e.predict_dir_corrected[i], 1, v, k);
    }
    put(e.predict_next_fetch_address_corrected, 32, v, k);
  }
  static bool same(const Out &a, const Out &b) {
    for (int i = 0; i < FETCH_WIDTH; i++)
      if (a.fetch_group[i] != b.fetch_group[i] || a.page_fault_inst[i] != b.page_fault_inst[i] ||
          a.inst_valid[i] != b.inst_valid[i] || a.predict_dir_corrected[i] != b.predict_dir_corrected[i])
        return false;
    return a.predict_next_fetch_address_corrected == b.predict_next_fetch_address_corrected && same_meta(a, b);
  }
  static bool valid(const Out &o, const Req &) { return o.front2back_FIFO_valid; }
  static void mini(In &, bool) {}
  static bool dummy(const Out &) { return false; }
};

// every op becomes [op, delivered (-1 none, -2 unrecognisable, 0 dummy, else number of the write), full, empty]
template <class Q> static void acc(typename Q::Req &a, const typename Q::Req &s) { Q::acc(a, s); }
template <> void acc<Back>(Front2BackCombOut &a, const Front2BackCombOut &s) {
  a.clear_fifo |= s.clear_fifo; a.pop_en |= s.pop_en;
  if (s.push_en) a.push_en = true, a.push_entry = s.push_entry;
}
template <class Q> static string drive(const std::vector<int> &ops) {
  string s;
  uint32_t n = 0;
  for (int op : ops) {
    typename Q::In in;
    typename Q::Out out, sout;
    typename Q::Rd rd, nrd;
    typename Q::Req req, step;
    memset((void *)&in, 0, sizeof in); memset((void *)&req, 0, sizeof req); memset((void *)&out, 0, sizeof out);
    memset((void *)&step, 0, sizeof step);
    Q::sr(&in, &rd);
    bool got = false;
    if (op & 32) { // the way the front end does it: a read step, then a write step
      in.reset = op & 1; in.refetch = (op >> 1) & 1; in.read_enable = (op >> 3) & 1;
      Q::cc(&in, &rd, &out, &nrd, &step);
      acc<Q>(req, step);
      got = Q::valid(out, step);
      sout = out;
      rd = nrd;
      if (op & 4) {
        memset((void *)&in, 0, sizeof in);
        in.write_enable = true;
        Q::fill(in, ++n);
        Q::mini(in, op & 16);
        Q::cc(&in, &rd, &out, &nrd, &step);
        acc<Q>(req, step);
      }
    } else {
      in.reset = op & 1; in.refetch = (op >> 1) & 1; in.read_enable = (op >> 3) & 1;
      if (op & 4) { in.write_enable = true; Q::fill(in, ++n); Q::mini(in, op & 16); }
      Q::cc(&in, &rd, &out, &nrd, &req);
      got = Q::valid(out, req);
      sout = out;
    }
    Q::sw(&req);
    int what = -1;
    if (got && Q::dummy(sout)) what = 0;
    else if (got) {
      what = -2;
      for (uint32_t v = n; v >= 1 && v + 64 > n; v--) {
        typename Q::Out want;
        memset((void *)&want, 0, sizeof want);
        Q::fill(want, v);
        if (Q::same(want, sout)) { what = v; break; }
      }
    }
    char b[80];
    snprintf(b, sizeof b, "%s[%d,%d,%d,%d]", s.empty() ? "" : ",", op, what, (int)out.full, (int)out.empty);
    s += b;
  }
  return s;
}

int main(int argc, char **argv) {
  std::ifstream f(argv[1]);
  FILE *o = fopen(argv[2], "w");
  string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    string k, id, s;
    if (!(is >> k >> id)) continue;
    int kind = -1, n;
    char b[300];
    if (k == "Q") {
      is >> kind >> n;
      std::vector<int> ops(n);
      for (int &x : ops) is >> x;
      fflush(o);
      pid_t p = fork();
      if (p == 0) { // queues are process-wide objects: a fresh one for every run
        s = kind == 0 ? drive<Addr>(ops) : kind == 1 ? drive<Inst>(ops) : kind == 2 ? drive<Pred>(ops) : drive<Back>(ops);
        fprintf(o, "{\"id\":\"%s\",\"what\":\"Q\",\"kind\":%d,\"v\":[%s]}\n", id.c_str(), kind, s.c_str());
        fflush(o);
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      if (st) return 3;
      continue;
    }
    is >> n;
    for (int j = 0; j < n; j++) {
      if (k == "D") {
        uint32_t pc, w;
        is >> pc >> w;
        predecode_in in{w, pc};
        predecode_read_data rd{};
        PredecodeResult r{};
        predecode_seq_read(&in, &rd);
        predecode_comb(rd, r);
        snprintf(b, sizeof b, "[%d,%d,%d,%d]", (int)pc, (int)w, (int)r.type, (int)(uint32_t)r.target_address);
      } else {
        uint32_t next, seq, dirs, kinds, t[FETCH_WIDTH];
        is >> next >> seq >> dirs >> kinds;
        predecode_checker_in in;
        predecode_checker_read_data rd;
        predecode_checker_out out;
        memset(&in, 0, sizeof in);
        in.predict_next_fetch_address = next;
        in.seq_next_pc = seq;
        for (int i = 0; i < FETCH_WIDTH; i++) {
          is >> t[i];
          in.predict_dir[i] = dirs >> i & 1;
          in.predecode_type[i] = kinds >> (2 * i) & 3;
          in.predecode_target_address[i] = t[i];
        }
        predecode_checker_seq_read(&in, &rd);
        predecode_checker_comb(rd, out);
        int m = 0;
        for (int i = 0; i < FETCH_WIDTH; i++) m |= (out.predict_dir_corrected[i] ? 1 : 0) << i;
        snprintf(b, sizeof b, "[%d,%d,%d,%d,[%d,%d,%d,%d],%d,%d,%d]", (int)next, (int)seq, dirs, kinds, (int)t[0], (int)t[1],
                 (int)t[2], (int)t[3], m, (int)(uint32_t)out.predict_next_fetch_address_corrected, (int)out.predecode_flush_enable);
      }
      s += s.empty() ? "" : ",";
      s += b;
    }
    fprintf(o, "{\"id\":\"%s\",\"what\":\"%s\",\"kind\":0,\"v\":[%s]}\n", id.c_str(), k.c_str(), s.c_str());
  }
  fclose(o);
  return 0;
}
