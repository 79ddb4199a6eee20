// Native implementation of the harness interface: values come from the file in VF_INPUT
// ("width value" per line), parameters from VF_PARAMS ("a=1,b=2").
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <utility>
#include <vector>
static std::vector<std::pair<unsigned, unsigned long long>> g_in;
static size_t g_pos;
static uint64_t next(unsigned w)
{
    if (g_pos >= g_in.size()) { printf("VF_INPUT_EXHAUSTED\n"); fflush(stdout); _Exit(78); }
    if (g_in[g_pos].first != w) { printf("VF_INPUT_MISMATCH at %zu\n", g_pos); fflush(stdout); _Exit(78); }
    return g_in[g_pos++].second;
}
extern "C" {
uint8_t  vf_u8() { return uint8_t(next(8)); }
uint16_t vf_u16() { return uint16_t(next(16)); }
uint32_t vf_u32() { return uint32_t(next(32)); }
uint64_t vf_u64() { return next(64); }
bool     vf_bool() { return next(1) != 0; }
void     vf_symbolic(void* p, size_t n) { for (size_t i = 0; i < n; ++i) static_cast<uint8_t*>(p)[i] = uint8_t(next(8)); }
uint32_t vf_choose(uint32_t) { return uint32_t(next(32)); }
uint32_t vf_part(uint32_t) { return uint32_t(next(32)); }
uint32_t vf_param(const char* name, uint32_t d)
{
    const char* e = getenv("VF_PARAMS"); if (!e) return d;
    std::string s = std::string(",") + e + ",", k = std::string(",") + name + "=";
    auto p = s.find(k); return p == std::string::npos ? d : uint32_t(strtoul(s.c_str() + p + k.size(), nullptr, 0));
}
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_assume(bool c) { if (!c) { printf("VF_ASSUME_FALSE\n"); fflush(stdout); _Exit(77); } }
void vf_assert(bool c, const char* m) { if (!c) { printf("VF_ASSERT_FAILED %s\n", m); fflush(stdout); _Exit(1); } }
void vf_reach(const char*) {}
void vf_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void vf_merge() {}
}
int main(int argc, char** argv)
{
    if (argc < 3) return 79;
    FILE* f = fopen(argv[2], "r"); if (!f) return 79;
    unsigned w; unsigned long long v;
    while (fscanf(f, "%u %llu", &w, &v) == 2) g_in.push_back({ w, v });
    fclose(f);
    auto fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
    if (!fn) { printf("no entry %s\n", argv[1]); return 79; }
    fn();
    printf("VF_END\n");
    return 0;
}
