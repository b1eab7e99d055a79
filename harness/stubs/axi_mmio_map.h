#pragma once
#define MMIO_RANGE_BASE 0x10000000u
