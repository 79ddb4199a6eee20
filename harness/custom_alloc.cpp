// User-provided allocator of the NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR configuration: exact-size heap blocks.
#include <midi/sysex.h>
#include <new>
namespace midi {
sysex::data_allocator::value_type* sysex::data_allocator::allocate(std::size_t n) { return static_cast<uint8_t*>(::operator new(n)); }
void sysex::data_allocator::deallocate(value_type* p, std::size_t) noexcept { ::operator delete(p); }
}
