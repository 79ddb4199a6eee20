// Reference model of the exclusive collectors: what a packet history must deliver.
#pragma once
#include "pk.h"
#include <midi/sysex_collector.h>
#include <midi/sysex.h>
static const uint32_t CAP = 1024;
struct Model
{
    bool eight = false, open = false; uint8_t stream = 0; uint8_t raw_[CAP]; uint32_t n = 0; uint32_t limit = 0;
    bool deliver = false; // this packet must deliver
    uint32_t head() const { return eight ? 2 : (n && raw_[0]) ? 1 : 3; }
    uint32_t data_size() const { return n > head() ? n - head() : 0; }
    uint32_t id() const
    {
        if (eight) return n == 0 ? 0 : (raw_[0] & 0x80) ? ((raw_[0] & 0x7Fu) << 8) | (n > 1 ? raw_[1] & 0x7Fu : 0) : raw_[0] == 0 && n > 1 ? (raw_[1] & 0x7Fu) << 16 : 0;
        return n == 0 ? 0 : raw_[0] ? uint32_t(raw_[0]) << 16 : (n > 1 ? uint32_t(raw_[1]) << 8 : 0) | (n > 2 ? raw_[2] : 0);
    }
    void reset() { open = false; }
    void packet(const midi::universal_packet& p)
    {
        deliver = false;
        const unsigned type = p.data[0] >> 28, f = raw(p, 1) >> 4, s = raw(p, 1) & 15;
        if (type != (eight ? 5u : 3u) || f > 3 || s > (eight ? 14u : 6u) || (eight && s == 0)) return;
        if (f <= 1) { n = 0; open = true; if (eight) stream = raw(p, 2); }
        else { if (!open) return; if (eight && raw(p, 2) != stream) return; }
        const uint32_t k = uint32_t(vf_concretize(eight ? s - 1 : s));
        for (uint32_t i = 0; i < k; ++i) if (n < CAP) raw_[n++] = raw(p, (eight ? 3 : 2) + i);
        if (limit && data_size() > limit) { open = false; return; }
        if (f == 0 || f == 3) { deliver = true; open = false; }
    }
};
struct Got
{
    Model* m; uint32_t calls = 0;
    void message(const midi::sysex& s)
    {
        ++calls;
        CHECKM(m->deliver, "delivers only complete messages"); if (!m->deliver) return;
        CHECKM(s.manufacturerID == m->id(), "manufacturer");
        CHECKM(s.data.size() == m->data_size(), "number of data bytes"); if (s.data.size() != m->data_size()) return;
        for (uint32_t i = 0, h = m->head(); i < s.data.size(); ++i) CHECKM(s.data[i] == m->raw_[h + i], "data byte");
    }
};
// an exclusive packet with payload size k (0..6 or 0..13)
static midi::universal_packet sx_packet(bool eight, uint8_t group, uint32_t f, uint32_t k, uint8_t stream = 0)
{
    midi::universal_packet p = any_packet();
    p.data[0] = (eight ? 0x50000000u : 0x30000000u) | (uint32_t(group) << 24) | (f << 20) | ((eight ? k + 1 : k) << 16) | (eight ? uint32_t(stream) << 8 | (p.data[0] & 0xFF) : p.data[0] & 0x7F7F);
    if (!eight) p.data[1] &= 0x7F7F7F7F;
    return p;
}
template<bool E> struct Bench;
template<> struct Bench<false>
{
    Model m; Got g{ &m }; midi::sysex7_collector c{ [this](const midi::sysex7& s) { g.message(s); } };
    void feed(const midi::universal_packet& p) { m.packet(p); const uint32_t n = g.calls; c.feed(p); CHECKM(g.calls - n == (m.deliver ? 1u : 0u), "delivered exactly once when complete"); }
};
template<> struct Bench<true>
{
    Model m; Got g{ &m }; midi::sysex8_collector c{ [this](const midi::sysex8& s, uint8_t id) { if (m.deliver) CHECKM(id == m.stream, "stream id"); g.message(s); } };
    Bench() { m.eight = true; }
    void feed(const midi::universal_packet& p) { m.packet(p); const uint32_t n = g.calls; c.feed(p); CHECKM(g.calls - n == (m.deliver ? 1u : 0u), "delivered exactly once when complete"); }
};
