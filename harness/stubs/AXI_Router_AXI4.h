#pragma once
#include "SimDDR.h"
namespace axi_interconnect {
class AXI_Router_AXI4 {
public:
  void init() {}
  template <class... A> void comb_outputs(A &&...) {}
  template <class... A> void comb_inputs(A &&...) {}
  template <class... A> void seq(A &&...) {}
};
} // namespace axi_interconnect
