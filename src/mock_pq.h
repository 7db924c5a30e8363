#pragma once
#include <cstdint>
namespace mock { extern uint64_t counter, calls; }
