#pragma once
#include <midi/sysex.h>
#include <cstdlib>
#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
namespace midi {
uint8_t* sysex::data_allocator::allocate(std::size_t n) { return static_cast<uint8_t*>(std::malloc(n ? n : 1)); }
void     sysex::data_allocator::deallocate(uint8_t* p, std::size_t) noexcept { std::free(p); }
} // namespace midi
#endif
