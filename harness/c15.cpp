// C15: packets to MIDI 1 bytes and back
#include "parser_ref.h"
#include <midi/sysex.h>
#include <midi/midi1_byte_stream.h>
using namespace midi;
static unsigned ref_size(const universal_packet& p) // bytes of a channel voice or system packet, 0 if it has no byte form
{
    const unsigned t = p.data[0] >> 28, s = raw(p, 1);
    if (t == 1) return s == 0xF2 ? 3 : (s == 0xF1 || s == 0xF3) ? 2 : (s == 0xF6 || s == 0xF8 || s == 0xFA || s == 0xFB || s == 0xFC || s == 0xFE || s == 0xFF) ? 1 : 0;
    if (t == 2) return s < 0x80 || s >= 0xF0 ? 0 : (s & 0xE0) == 0xC0 ? 2 : 3;
    return 0;
}
static bool is_sx(const universal_packet& p) { return (p.data[0] >> 28) == 3 && (raw(p, 1) >> 4) <= 3 && (raw(p, 1) & 15) <= 6; }
ENTRY(to_bytes)
{
    const auto p = any_packet();
    uint8_t* out = new uint8_t[8];
    const uint8_t fill = vf_u8();
    for (int i = 0; i < 8; ++i) out[i] = fill;
    const size_t n = to_midi1_byte_stream(p, out);
    CHECK(n <= 8); if (n > 8) return;
    if (is_sx(p))
    {
        const unsigned f = raw(p, 1) >> 4, k = raw(p, 1) & 15, h = f == 0 || f == 1, e = f == 0 || f == 3;
        CHECK(midi1_byte_stream_size(p) == k);
        CHECK(n == h + k + e);
        if (h) CHECK(out[0] == 0xF0);
        if (e && n) CHECK(out[n - 1] == 0xF7);
        for (unsigned i = 0; i < 6; ++i) if (i < k && h + i < 8) CHECK(out[h + i] == raw(p, 2 + i));
    }
    else
    {
        CHECK(n == ref_size(p)); CHECK(midi1_byte_stream_size(p) == ref_size(p));
        for (unsigned i = 0; i < 3; ++i) if (i < n) CHECK(out[i] == raw(p, 1 + i));
    }
    for (unsigned i = 0; i < 8; ++i) if (i >= n) CHECKM(out[i] == fill, "bytes beyond the result untouched");
    vf_observe(n); for (unsigned i = 0; i < n; ++i) vf_observe(out[i]);
    delete[] out;
}
ENTRY(round_trip) // any well-formed channel voice or system packet, from any running status
{
    const uint8_t g = vf_u4(), s = vf_u8(), d1 = vf_u7(), d2 = vf_u7();
    vf_assume(s >= 0x80);
    universal_packet q; q.data[0] = w0(s >= 0xF0 ? 1 : 2, g, s, 0, 0);
    const unsigned k = ref_size(q);
    vf_assume(k > 0);
    const universal_packet p{ w0(s >= 0xF0 ? 1 : 2, g, s, k > 1 ? d1 : 0, k > 2 ? d2 : 0) };
    uint8_t out[8]; const size_t n = to_midi1_byte_stream(p, out);
    CHECK(n == k); if (n > 8) return;
    unsigned calls = 0; universal_packet r;
    midi1_byte_stream_parser ps(g, [&](universal_packet x) { ++calls; r = x; });
    const unsigned pre = vf_choose(3); for (unsigned i = 0; i < pre; ++i) ps.feed(vf_u8());
    calls = 0;
    ps.feed(out, n);
    CHECK(calls == 1); if (calls != 1) return;
    CHECK(r == p); CHECK(r.data[0] == p.data[0]);
    vf_observe(r.data[0]);
}
ENTRY(from_bytes)
{
    const uint8_t s = vf_u8(), d1 = vf_u7(), d2 = vf_u7();
    const auto p = from_midi1_byte_stream(s, d1, d2);
    const bool undefined = s < 0x80 || s == 0xF0 || s == 0xF4 || s == 0xF5 || s == 0xF7 || s == 0xF9 || s == 0xFD;
    CHECK(words(p, undefined ? 0 : w0(s >= 0xF0 ? 1 : 2, 0, s, d1, d2)));
    uint8_t out[8]; const size_t n = to_midi1_byte_stream(p, out);
    CHECK((n == 0) == undefined);
    if (n) { CHECK(out[0] == s); if (n > 1) CHECK(out[1] == d1); if (n > 2) CHECK(out[2] == d2); }
    vf_observe(p.data[0]); vf_observe(n);
}
// a sequence of exclusive packets becomes one exclusive in the byte stream and arrives with the same bytes
ENTRY(sysex_round_trip)
{
    const uint8_t g = vf_u4(); const uint32_t k = vf_choose(vf_param("P", 3)) + 1;
    uint8_t sent[64]; uint32_t ns = 0; uint32_t len = 0, got = 0, calls = 0;
    sysex7 last; 
    midi1_byte_stream_parser ps(g, [&](universal_packet x) { CHECKM(false, "no packet expected"); }, [&](const sysex7& s) { ++calls; last = s; });
    uint8_t bytes[8];
    for (uint32_t i = 0; i < k; ++i)
    {
        universal_packet p; const unsigned n = i + 1 < k ? 6 : vf_choose(7);
        p.data[0] = w0(3, g, ((k == 1 ? 0 : i == 0 ? 1 : i + 1 == k ? 3 : 2) << 4) | n, 0, 0);
        for (unsigned j = 0; j < n; ++j) { const uint8_t b = vf_u7(); p.set_byte(2 + j, b); sent[len++] = b; }
        const size_t m = to_midi1_byte_stream(p, bytes);
        CHECK(m <= 8); if (m > 8) return;
        ps.feed(bytes, m);
    }
    if (len == 0) { CHECK(calls == 0); return; }
    const uint32_t h = sent[0] ? 1 : 3;
    if (len < h) { CHECK(calls == 0); return; }
    CHECK(calls == 1);
    CHECK(last.manufacturerID == (h == 1 ? uint32_t(sent[0]) << 16 : (uint32_t(sent[1]) << 8) | sent[2]));
    CHECK(last.data.size() == len - h); if (last.data.size() != len - h) return;
    for (uint32_t i = h; i < len; ++i) CHECK(last.data[i - h] == sent[i]);
    vf_observe(last.data.size());
}
