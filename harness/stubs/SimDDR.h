#pragma once
#include <cstdint>
namespace sim_ddr {
constexpr unsigned SIM_DDR_LATENCY = 0, SIM_DDR_WRITE_RESP_LATENCY = 0,
                   SIM_DDR_BEAT_BYTES = 32, SIM_DDR_WRITE_QUEUE_DEPTH = 0,
                   SIM_DDR_WRITE_ACCEPT_GAP = 0,
                   SIM_DDR_WRITE_DATA_FIFO_DEPTH = 0,
                   SIM_DDR_WRITE_DRAIN_GAP = 0,
                   SIM_DDR_WRITE_DRAIN_HIGH_WATERMARK = 0,
                   SIM_DDR_WRITE_DRAIN_LOW_WATERMARK = 0,
                   SIM_DDR_READ_TO_WRITE_TURNAROUND = 0,
                   SIM_DDR_WRITE_TO_READ_TURNAROUND = 0,
                   SIM_DDR_MAX_OUTSTANDING = 16;
struct Ar { bool arvalid = 0, arready = 0; uint32_t arid = 0, araddr = 0, arlen = 0, arsize = 0, arburst = 0; };
struct R { bool rvalid = 0, rready = 0; uint32_t rid = 0, rdata = 0, rresp = 0; bool rlast = 0; };
struct Aw { bool awvalid = 0, awready = 0; uint32_t awid = 0, awaddr = 0, awlen = 0, awsize = 0, awburst = 0; };
struct W { bool wvalid = 0, wready = 0; uint32_t wdata = 0, wstrb = 0; bool wlast = 0; };
struct B { bool bvalid = 0, bready = 0; uint32_t bid = 0, bresp = 0; };
struct SimDDR_IO_t { Ar ar; R r; Aw aw; W w; B b; };
class SimDDR {
public:
  SimDDR_IO_t io;
  void init() {}
  void comb_outputs() {}
  void comb_inputs() {}
  void seq() {}
};
} // namespace sim_ddr
