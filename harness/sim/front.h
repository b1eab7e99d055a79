// Q: the front end's queues.  The queue, cache and checker entry points called by
// the front end are intercepted at link time (--wrap) and reported per cycle:
//   [t, [refetch, refetch address, read enable, training stall],
//    fetch addresses [cleared, popped, pushed address or none], cache [requested address or none],
//    response [pc, words, valid mask, fault mask, digest] or none,
//    instructions [cleared, popped], pushed [pc, kinds, targets, sequential next, digest, valid mask] or none,
//    predictions [cleared, popped, dummy], pushed [pc, directions, next, digest] or none,
//    to back end [cleared, popped], pushed [pc, digest, valid mask, directions, next, digest] or none,
//    delivered (the same fields) or none, received by the back end (the same fields) or none]
#pragma once
#include "front_module.h"
#include "train_IO.h"
#define WRAPPED(ret, name, sym, args)                                                                                  \
  ret real_##name args asm("__real_" sym);                                                                             \
  ret wrap_##name args asm("__wrap_" sym);                                                                             \
  ret wrap_##name args
static struct {
  bool on, called, rd;
  std::string in, faq, req, resp, ifq, ifqp, ptb, ptbp, f2b, f2bp, out;
} q;

template <class G, class P> static int q_code(const G &g, const P &p) {
  p_h = 2166136261u;
  for (int i = 0; i < FETCH_WIDTH; i++) p_mix(g[i]), p_mix(p[i]);
  return (int)(p_h >> 2);
}
template <class M> static int q_meta(const M &f) {
  uint32_t h = 2166136261u;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    p_h = h;
    p_mix(f.alt_pred[i]), p_mix(f.altpcpn[i]), p_mix(f.pcpn[i]), p_mix(f.sc_used[i]), p_mix(f.sc_pred[i]);
    p_mix(f.sc_sum[i]);
    for (auto &v : f.sc_idx[i]) p_mix(v);
    p_mix(f.loop_used[i]), p_mix(f.loop_hit[i]), p_mix(f.loop_pred[i]), p_mix(f.loop_idx[i]), p_mix(f.loop_tag[i]);
    for (int j = 0; j < 4; j++) p_mix(f.tage_idx[i][j]), p_mix(f.tage_tag[i][j]);
    h = p_h;
  }
  return (int)(h >> 2);
}
template <class A> static int q_mask(const A &a) {
  int m = 0;
  for (int i = 0; i < FETCH_WIDTH; i++) m |= (a[i] ? 1 : 0) << i;
  return m;
}
template <class A> static std::string q_list(const A &a) {
  std::string s;
  for (int i = 0; i < FETCH_WIDTH; i++) add(s, "%d", I(a[i]));
  return "[" + s + "]";
}

WRAPPED(void, front_top, "_Z9front_topP12front_top_inP13front_top_out", (front_top_in * i, front_top_out *o)) {
  q = {q.on};
  q.called = true;
  q.rd = i->FIFO_read_enable;
  if (q.on)
    add(q.in, "[%d,%d,%d,", (int)i->refetch, i->refetch ? I(i->refetch_address) : 0, (int)i->FIFO_read_enable);
  real_front_top(i, o);
  if (!q.on) return;
  q.in += std::to_string((int)o->commit_stall) + "]";
  if (o->FIFO_valid)
    add(q.out, "%d,%d,%d,%d,%d,%d", I(o->pc[0]), q_code(o->instructions, o->page_fault_inst), q_mask(o->inst_valid),
        q_mask(o->predict_dir), I(o->predict_next_fetch_address), q_meta(*o));
}
WRAPPED(void, fa, "_Z28fetch_address_FIFO_seq_writePK16FetchAddrCombOut", (const FetchAddrCombOut *r)) {
  if (q.on) {
    add(q.faq, "%d,%d", (int)r->clear_fifo, (int)r->pop_en);
    if (r->push_en) add(q.faq, "%d", I(r->push_data));
  }
  real_fa(r);
}
WRAPPED(void, ic, "_Z16icache_comb_calcP9icache_inP10icache_out", (icache_in * i, icache_out *o)) {
  real_ic(i, o);
  if (!q.on || i->invalidate_req) return;
  if (i->icache_read_valid) add(q.req, "%d", I(i->fetch_address));
  if (o->icache_read_complete) {
    q.resp = std::to_string(I(o->fetch_pc)) + "," + q_list(o->fetch_group);
    add(q.resp, "%d,%d,%d", q_mask(o->inst_valid), q_mask(o->page_fault_inst),
        q_code(o->fetch_group, o->page_fault_inst));
  }
}
WRAPPED(void, iq, "_Z26instruction_FIFO_seq_writePK18InstructionCombOut", (const InstructionCombOut *r)) {
  if (q.on) {
    add(q.ifq, "%d,%d", (int)r->clear_fifo, (int)r->pop_en);
    auto &e = r->push_entry;
    if (r->push_en) {
      q.ifqp = std::to_string(I(e.pc[0])) + "," + q_list(e.predecode_type) + "," + q_list(e.predecode_target_address);
      add(q.ifqp, "%d,%d,%d", I(e.seq_next_pc), q_code(e.instructions, e.page_fault_inst), q_mask(e.inst_valid));
    }
  }
  real_iq(r);
}
WRAPPED(void, pq, "_Z14PTAB_seq_writePK11PtabCombOut", (const PtabCombOut *r)) {
  if (q.on) {
    add(q.ptb, "%d,%d,%d", (int)r->clear_ptab, (int)r->pop_en, (int)r->push_dummy_en);
    auto &e = r->push_write_entry;
    if (r->push_write_en)
      add(q.ptbp, "%d,%d,%d,%d", I(e.predict_base_pc[0]), q_mask(e.predict_dir), I(e.predict_next_fetch_address),
          q_meta(e));
  }
  real_pq(r);
}
WRAPPED(void, bq, "_Z25front2back_FIFO_seq_writePK17Front2BackCombOut", (const Front2BackCombOut *r)) {
  if (q.on) {
    add(q.f2b, "%d,%d", (int)r->clear_fifo, (int)r->pop_en);
    auto &e = r->push_entry;
    if (r->push_en)
      add(q.f2bp, "%d,%d,%d,%d,%d,%d", I(e.predict_base_pc[0]), q_code(e.fetch_group, e.page_fault_inst),
          q_mask(e.inst_valid), q_mask(e.predict_dir_corrected), I(e.predict_next_fetch_address_corrected), q_meta(e));
  }
  real_bq(r);
}
static void ports_front() {
  if (!q.called) return;
  std::string body, rec;
  auto &b = cpu.back.in;
  bool any = false;
  for (int i = 0; i < FETCH_WIDTH; i++) any = any || b.valid[i];
  if (q.rd && any)
    add(rec, "%d,%d,%d,%d,%d,%d", I(b.pc[0]), q_code(b.inst, b.page_fault_inst), q_mask(b.valid), q_mask(b.predict_dir),
        I(b.predict_next_fetch_address[0]), q_meta(b));
  body = q.in + ",[" + q.faq + "],[" + q.req + "],[" + q.resp + "],[" + q.ifq + "],[" + q.ifqp + "],[" + q.ptb + "],[" +
         q.ptbp + "],[" + q.f2b + "],[" + q.f2bp + "],[" + q.out + "],[" + rec + "]]";
  p_emit(body, q.faq != "0,0" || q.ifq != "0,0" || q.ptb != "0,0,0" || q.f2b != "0,0" || !q.resp.empty() ||
                   !q.req.empty() || !q.ptbp.empty() || !q.ifqp.empty() || !q.f2bp.empty() || !q.out.empty() ||
                   q.in[1] == '1');
  q.called = false;
}
