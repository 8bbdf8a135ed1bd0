// Harness support: every ENTRY is a C function over scalars and flat buffers which calls the real code.
#pragma once
#include <cstdint>
#define ENTRY extern "C" __attribute__((used, visibility("default")))
