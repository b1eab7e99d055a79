#pragma once
#include "SimDDR.h"
#include "UART16550_Device.h"
namespace mmio {
class MMIO_Bus_AXI4 {
public:
  sim_ddr::SimDDR_IO_t io;
  void init() {}
  void add_device(uint32_t, uint32_t, MMIO_Device *) {}
  void comb_outputs() {}
  void comb_inputs() {}
  void seq() {}
};
} // namespace mmio
