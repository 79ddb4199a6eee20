// Helpers shared by the packet harnesses: fully symbolic packets and raw field access.
#pragma once
#include "vf.h"
#include <midi/universal_packet.h>
static inline midi::universal_packet any_packet()
{
    midi::universal_packet p;
    for (auto& w : p.data) w = vf_u32();
    return p;
}
static inline midi::universal_packet any_packet_of_type(unsigned t)
{
    auto p = any_packet();
    vf_assume(p.data[0] >> 28 == t);
    return p;
}
static inline uint8_t raw(const midi::universal_packet& p, unsigned b) { return uint8_t(p.data[b / 4] >> (24 - 8 * (b % 4))); }
static inline bool words(const midi::universal_packet& p, uint32_t a, uint32_t b = 0, uint32_t c = 0, uint32_t d = 0)
{
    return p.data[0] == a && p.data[1] == b && p.data[2] == c && p.data[3] == d;
}
static inline uint32_t w0(unsigned type, unsigned group, unsigned b2, unsigned b3, unsigned b4) { return (uint32_t(type) << 28) | (group << 24) | (b2 << 16) | (b3 << 8) | b4; }
