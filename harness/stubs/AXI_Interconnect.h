// Environment model of the memory fabric behind the core's AXI master ports.
//
// Port protocol (as the core's bridge code uses it):
//   request : valid is sampled in comb_inputs(); a taken request pulses
//             *_req_accepted (+ accepted_id) which the master sees with its
//             next comb_outputs() / front-end step.
//   response: valid is presented until the master's ready is sampled in seq().
// Latencies, acceptance stalls and the order of read responses are drawn from
// a seeded generator so one program runs under many fabric schedules.
#pragma once
#include "AXI_Interconnect_IO.h"
#include "SimDDR.h"
#include <deque>
#include <vector>
namespace axi_interconnect {
struct ReadReqHoldLatch { bool valid = false; };
struct AXI_LLCConfig {
  bool enable = false;
  uint64_t size_bytes = 0;
  uint32_t ways = 0, mshr_num = 0, lookup_latency = 0, line_bytes = 64;
  bool valid() const { return false; }
  uint32_t set_count() const { return 1; }
};
struct Bytes { std::vector<uint8_t> bytes; };
struct AXI_LLC_LookupIn_t {
  bool data_valid = false, meta_valid = false, valid_valid = false, repl_valid = false;
  Bytes data, meta, valid, repl;
};
struct AXI_LLC_TableReq_t {
  bool enable = false, write = false;
  uint32_t index = 0, way = 0;
  std::vector<uint8_t> payload, byte_enable;
};
struct AXI_LLC_TableOut_t {
  bool invalidate_all = false;
  AXI_LLC_TableReq_t data, meta, valid, repl;
};
constexpr uint32_t AXI_LLC_META_ENTRY_BYTES = 8;
constexpr uint32_t AXI_LLC_REPL_BYTES = 4;
struct AXI_LLC { static uint32_t valid_row_bytes(const AXI_LLCConfig &) { return 4; } };
struct AXI_LLCPerfCounters_t {
  uint64_t read_access = 0, read_hit = 0, read_miss = 0;
  uint64_t read_access_by_master[8] = {}, read_hit_by_master[8] = {}, read_miss_by_master[8] = {};
  uint64_t bypass_read = 0, write_passthrough = 0, refill = 0, mshr_merge = 0;
  uint64_t prefetch_issue = 0, prefetch_hit = 0, prefetch_drop_inflight = 0,
           prefetch_drop_mshr_full = 0, prefetch_drop_queue_full = 0, prefetch_drop_table_hit = 0;
  uint64_t ddr_read_total_cycles = 0, ddr_read_samples = 0, ddr_write_total_cycles = 0, ddr_write_samples = 0;
};

struct FabricCfg {
  uint64_t seed = 1;
  int lat_lo = 1, lat_hi = 8;   // ticks between acceptance and response
  int stall_pct = 0;            // chance a request is not accepted this tick
  bool reorder = false;         // read responses may overtake each other
};
extern FabricCfg g_fabric;
uint32_t fabric_read_word(uint32_t addr);
void fabric_write_word(uint32_t addr, uint32_t data, uint32_t strb4);
// Called when a read / write is performed in memory.
void fabric_on_read(int master, uint32_t addr, uint32_t bytes);
void fabric_on_write(int master, uint32_t addr, uint32_t bytes);

class AXI_Interconnect {
public:
  ReadMasterPort_t read_ports[NUM_READ_MASTERS];
  WriteMasterPort_t write_ports[NUM_WRITE_MASTERS];
  bool read_req_accepted[NUM_READ_MASTERS] = {};
  uint8_t read_req_accepted_id[NUM_READ_MASTERS] = {};
  bool write_req_accepted[NUM_WRITE_MASTERS] = {};
  bool req_ready_r[NUM_READ_MASTERS] = {};
  bool req_drop_warned[NUM_READ_MASTERS] = {};
  ReadReqHoldLatch read_req_hold[NUM_READ_MASTERS] = {};
  bool w_req_ready_r[NUM_WRITE_MASTERS] = {};
  sim_ddr::SimDDR_IO_t axi_io, axi_ddr_io, axi_mmio_io;

  void init() {
    rng_ = g_fabric.seed * 0x9E3779B97F4A7C15ull + 1;
    now_ = 0;
    for (auto &q : rq_) q.clear();
    for (auto &q : wq_) q.clear();
    for (int i = 0; i < NUM_READ_MASTERS; i++) {
      read_ports[i] = {};
      read_ports[i].req.ready = true;
      read_req_accepted[i] = false;
    }
    for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
      write_ports[i] = {};
      write_ports[i].req.ready = true;
      write_req_accepted[i] = false;
    }
  }
  void set_llc_config(const AXI_LLCConfig &) {}
  void set_llc_lookup_in(const AXI_LLC_LookupIn_t &) {}
  const AXI_LLC_TableOut_t &get_llc_table_out() const { return to_; }
  const AXI_LLCPerfCounters_t &get_llc_perf_counters() const { return pc_; }

  void comb_outputs() {
    for (int i = 0; i < NUM_READ_MASTERS; i++) {
      auto &p = read_ports[i];
      p.req.ready = true;
      p.req.accepted = read_req_accepted[i];
      p.req.accepted_id = read_req_accepted_id[i];
      // The instruction-fetch master samples its port before this call, so a
      // new response may only appear on it in seq().
      if (i != MASTER_ICACHE) present_read(i);
    }
    for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
      auto &p = write_ports[i];
      p.req.ready = true;
      p.req.accepted = write_req_accepted[i];
      p.resp.valid = !wq_[i].empty() && wq_[i].front().when <= now_;
      if (p.resp.valid) p.resp.id = wq_[i].front().id;
    }
  }
  void comb_inputs() {
    for (int i = 0; i < NUM_READ_MASTERS; i++) {
      auto &p = read_ports[i];
      read_req_accepted[i] = false;
      if (!p.req.valid || rq_[i].size() >= MAX_OUTSTANDING || stall()) continue;
      read_req_accepted[i] = true;
      read_req_accepted_id[i] = p.req.id;
      p.req.accepted = true;
      p.req.accepted_id = p.req.id;
      rq_[i].push_back({p.req.addr, (uint32_t)p.req.total_size + 1u, p.req.id,
                        now_ + lat(), false});
    }
    for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
      auto &p = write_ports[i];
      write_req_accepted[i] = false;
      if (!p.req.valid || wq_[i].size() >= MAX_OUTSTANDING || stall()) continue;
      write_req_accepted[i] = true;
      p.req.accepted = true;
      const uint32_t bytes = (uint32_t)p.req.total_size + 1u;
      const uint32_t words = (bytes + 3) / 4;
      fabric_on_write(i, p.req.addr, bytes);
      for (uint32_t w = 0; w < words && w < (uint32_t)CACHELINE_WORDS; w++) {
        const uint32_t s = (uint32_t)((p.req.wstrb >> (4 * w)) & 0xF);
        if (s) fabric_write_word((p.req.addr & ~3u) + 4 * w, p.req.wdata[w], s);
      }
      wq_[i].push_back({p.req.addr, bytes, p.req.id, now_ + lat(), false});
    }
  }
  void seq() {
    now_++;
    for (int i = 0; i < NUM_READ_MASTERS; i++) {
      auto &p = read_ports[i];
      if (p.resp.valid && p.resp.ready) {
        for (size_t k = 0; k < rq_[i].size(); k++)
          if (rq_[i][k].shown) { rq_[i].erase(rq_[i].begin() + k); break; }
        p.resp.valid = false;
      }
      if (i == MASTER_ICACHE) present_read(i);
    }
    for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
      auto &p = write_ports[i];
      if (p.resp.valid && p.resp.ready && !wq_[i].empty()) {
        wq_[i].pop_front();
        p.resp.valid = false;
      }
    }
  }

private:
  struct Txn { uint32_t addr, bytes; uint8_t id; uint64_t when; bool shown; };
  std::deque<Txn> rq_[NUM_READ_MASTERS], wq_[NUM_WRITE_MASTERS];
  uint64_t now_ = 0, rng_ = 1;
  AXI_LLC_TableOut_t to_;
  AXI_LLCPerfCounters_t pc_;
  uint64_t rnd() {
    rng_ ^= rng_ << 13; rng_ ^= rng_ >> 7; rng_ ^= rng_ << 17;
    return rng_;
  }
  uint64_t lat() { return g_fabric.lat_lo + rnd() % (uint64_t)(g_fabric.lat_hi - g_fabric.lat_lo + 1); }
  bool stall() { return (int)(rnd() % 100) < g_fabric.stall_pct; }
  void present_read(int i) {
    auto &p = read_ports[i];
    Txn *t = nullptr;
    for (auto &x : rq_[i]) if (x.shown) t = &x;
    if (!t) {
      p.resp.valid = false;
      if (rq_[i].empty()) return;
      if (g_fabric.reorder) {
        std::vector<Txn *> c;
        for (auto &x : rq_[i]) if (x.when <= now_) c.push_back(&x);
        if (!c.empty()) t = c[rnd() % c.size()];
      } else if (rq_[i].front().when <= now_) t = &rq_[i].front();
      if (!t) return;
      t->shown = true;
      fabric_on_read(i, t->addr, t->bytes);
      p.resp.data.clear();
      for (uint32_t w = 0; w < (t->bytes + 3) / 4; w++)
        p.resp.data[w] = fabric_read_word((t->addr & ~3u) + 4 * w);
    }
    p.resp.valid = true;
    p.resp.id = t->id;
  }
};
} // namespace axi_interconnect
