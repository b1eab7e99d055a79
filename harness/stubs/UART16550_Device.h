#pragma once
#include <cstdint>
namespace mmio {
struct MMIO_Device {};
class UART16550_Device : public MMIO_Device {
public:
  explicit UART16550_Device(uint32_t) {}
  void sync_from_backing(const uint32_t *) {}
};
} // namespace mmio
