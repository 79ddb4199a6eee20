// Harness interface.  Under the symbolic executor these functions are built in (vfse); in a native
// replay they are implemented by replay.cpp, which reads the input values from a file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t  vf_u8();
uint16_t vf_u16();
uint32_t vf_u32();
uint64_t vf_u64();
bool     vf_bool();
void     vf_symbolic(void* p, size_t n);             // n fresh symbolic bytes
uint32_t vf_choose(uint32_t n);                      // 0..n-1, one path each
uint32_t vf_part(uint32_t n);                        // like vf_choose; may be split over processes
uint32_t vf_param(const char* name, uint32_t deflt); // bound given on the command line
uint64_t vf_concretize(uint64_t v);                  // one path per feasible value
void     vf_assume(bool c);
void     vf_assert(bool c, const char* msg);
void     vf_reach(const char* msg);
void     vf_observe(uint64_t v);                     // compared between encoding and native run
void     vf_merge();                                 // join paths (performance only)
}
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
#define CHECK(c) vf_assert((c), #c " @" VF_STR(__LINE__))
#define CHECKM(c, m) vf_assert((c), m " @" VF_STR(__LINE__))
#define ENTRY(name) extern "C" __attribute__((noinline)) void name()

static inline uint32_t vf_range(uint32_t lo, uint32_t hi) { uint32_t v = vf_u32(); vf_assume(v >= lo && v <= hi); return v; }
static inline uint8_t  vf_u7() { uint8_t v = vf_u8(); vf_assume(v < 0x80); return v; }
static inline uint8_t  vf_u4() { uint8_t v = vf_u8(); vf_assume(v < 0x10); return v; }
static inline uint16_t vf_u14() { uint16_t v = vf_u16(); vf_assume(v < 0x4000); return v; }
static inline uint32_t vf_u28() { uint32_t v = vf_u32(); vf_assume(v < 0x10000000); return v; }

// lengths around powers of two, where counters, buffers and capacities change; long data with symbolic bytes at both ends and in between
static inline uint32_t vf_long_length(uint32_t k) { static const uint32_t l[] = { 65600, 65536, 65537, 65535, 65538, 32800, 300, 160, 16384, 16385, 16383, 16386, 32768, 32767, 8192, 8193, 8191, 4096, 4095, 4097, 2048, 2047, 2049, 1023, 1024, 1025, 512, 511, 513, 256, 255, 257, 258, 129, 127, 128, 130, 131 }; return l[k]; }
static const uint32_t vf_long_lengths = 38;
static inline uint8_t vf_long_byte(uint32_t i, uint32_t n) { return i < 8 || i + 8 > n || i % 509 == 0 ? vf_u7() : uint8_t((i * 7 + i / 128) & 0x7F); }
