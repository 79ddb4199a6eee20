// Stand-in for libstdc++.so's default memory resource (its code is not available as IR): operator new/delete.
#include <memory_resource>
#include <new>
namespace {
struct heap_resource : std::pmr::memory_resource
{
    void* do_allocate(std::size_t n, std::size_t) override { return ::operator new(n); }
    void  do_deallocate(void* p, std::size_t, std::size_t) override { ::operator delete(p); }
    bool  do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
alignas(heap_resource) char mem[sizeof(heap_resource)]; heap_resource* r = nullptr;
}
namespace std::pmr {
memory_resource::~memory_resource() = default;
memory_resource* get_default_resource() noexcept { if (!r) r = new (mem) heap_resource; return r; }
}
