// C23: MIDI-CI property exchange messages
#include "rjson_ref.h"
namespace pe = ci::property_exchange;
struct Want { uint8_t sub; uint32_t src, dst; uint8_t dev, req; const uint8_t* h; uint32_t hn; uint16_t num, cur; const uint8_t* c; uint32_t cn; };
static void check(const ci::message& m, const Want& w, bool exact_header = true)
{
    if (exact_header) { Ref r; r.head(w.sub, w.src, w.dst, w.dev); r.u7(w.req); r.u14(w.hn); r.bytes(w.h, w.hn); r.u14(w.num); r.u14(w.cur); r.u14(w.cn); r.bytes(w.c, w.cn); same(m, r); }
    header_fields(m, w.sub, w.src, w.dst, w.dev);
    const uint32_t own = w.sub <= 0x35 ? K_get : w.sub <= 0x37 ? K_set : w.sub <= 0x39 ? K_sub : K_notify;
    CHECKM(accepted(m) == (K_ci | K_pe | own), "accepted by its own view only");
    auto v = ci::as<pe::property_data_message_view>(m); if (!v) return;
    header_fields(*v, w.sub, w.src, w.dst, w.dev);
    CHECK(v->request_id() == w.req); if (exact_header) { CHECK(v->header_size() == w.hn); CHECK(v->header_end() == v->header_begin() + w.hn); if (v->header_size() == w.hn) CHECKM(same_bytes(v->header_begin(), w.h, w.hn), "header"); }
    CHECK(v->number_of_chunks() == w.num); CHECK(v->number_of_this_chunk() == w.cur); CHECK(v->chunk_size() == w.cn); CHECK(v->chunk_end() == v->chunk_begin() + w.cn); if (v->chunk_size() == w.cn) CHECKM(same_bytes(v->chunk_begin(), w.c, w.cn), "chunk");
}
static Want any() { Want w{}; w.src = vf_u28(); w.dst = vf_u28(); w.dev = vf_u7(); w.req = vf_u7(); w.num = w.cur = 1; return w; }
// chunk numbers allowed with the given header and chunk sizes (asserted preconditions)
static void numbers(Want& w) { w.num = vf_u14(); w.cur = vf_u14(); vf_assume(w.num == 0 || w.cur <= w.num); vf_assume(w.cn == 0 || w.cur >= 1); vf_assume(w.hn == 0 || w.cur <= 1); }
ENTRY(capabilities)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const uint8_t dev = vf_u7(), n = vf_u7(); const bool reply = vf_choose(2);
    const auto m = reply ? ci::make_property_exchange_capabilities_reply(src, dst, n, dev) : ci::make_property_exchange_capabilities_inquiry(src, dst, n, dev);
    Ref r; r.head(reply ? 0x31 : 0x30, src, dst, dev); r.u7(n); r.u7(0); r.u7(0); same(m, r); CHECK(accepted(m) == (K_ci | K_pe_caps));
    auto v = ci::as<ci::property_exchange_capabilities_view>(m); if (v) { header_fields(*v, reply ? 0x31 : 0x30, src, dst, dev); CHECK(v->maximum_number_of_requests() == n); CHECK(v->pe_version_major() == 0 && v->pe_version_minor() == 0); }
}
// header and chunk of any content
ENTRY(raw_data)
{
    const uint32_t S = vf_param("S", 6); Want w = any(); const uint32_t two = g_long ? vf_choose(3) : 2; // long: header, chunk or both
    Bytes h(two == 1 ? 3 : any_length(S)); Bytes c(two == 0 ? 3 : two == 2 && g_long ? h.n : any_length(S)); w.h = h.p; w.hn = h.n; w.c = c.p; w.cn = c.n; numbers(w);
    static const uint8_t subs[] = { 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F }; w.sub = subs[g_long ? 1 + vf_choose(2) : vf_part(7)];
    const pe::header hd(h.p, h.n); pe::chunk ch(c.p, c.n); if (!c.n) ch = {};
    if (w.sub == 0x35 && vf_choose(2)) check(ci::make_get_property_data_reply(w.src, w.dst, hd, w.num, w.cur, ch, w.req, w.dev), w);
    else check(pe::make_property_data_message(w.sub, w.src, w.dst, hd, w.num, w.cur, ch, w.req, w.dev), w);
}
// continuation chunks without header
ENTRY(chunks)
{
    Want w = any(); Bytes c(any_length(vf_param("S", 6))); w.c = c.p; w.cn = c.n; numbers(w); pe::chunk ch(c.p, c.n); if (!c.n) ch = {};
    switch (vf_choose(3))
    {
    case 0: w.sub = 0x35; check(ci::make_get_property_data_reply(w.src, w.dst, w.num, w.cur, ch, w.req, w.dev), w); break;
    case 1: w.sub = 0x36; check(ci::make_set_property_data_inquiry(w.src, w.dst, w.num, w.cur, ch, w.req, w.dev), w); break;
    case 2: w.sub = 0x38; check(ci::make_subscription_inquiry(w.src, w.dst, w.num, w.cur, ch, w.req, w.dev), w); break;
    }
}
static void with(Want& w, const Json& j) { w.h = j.b; w.hn = j.n; }
ENTRY(resources)
{
    const uint32_t T = vf_param("T", 4);
    Want w = any(); Text res(vf_choose(T)), cmd(vf_choose(T)), id(vf_choose(T)); Bytes c(vf_choose(3)); pe::chunk ch(c.p, c.n); if (!c.n) ch = {};
    Json plain; plain.s("{\"resource\":"); plain.quoted(res); plain.c('}');
    Json opt; opt.s("{\"resource\":"); opt.quoted(res); opt.s(",\"id\":"); opt.value(id); opt.c('}');
    Json sub; sub.s("{\"resource\":"); sub.quoted(res); sub.s(",\"command\":"); sub.value(cmd); sub.s(",\"subscribeId\":"); sub.value(id); sub.c('}');
    const pe::header_options o{ { pe::tags::id, id.view() } };
    switch (vf_part(6))
    {
    case 0: w.sub = 0x34; with(w, plain); check(ci::make_get_property_data_inquiry(w.src, w.dst, res.view(), w.req, w.dev), w); break;
    case 1: w.sub = 0x34; with(w, opt); check(ci::make_get_property_data_inquiry(w.src, w.dst, res.view(), o, w.req, w.dev), w); break;
    case 2: w.sub = 0x36; with(w, plain); w.c = c.p; w.cn = c.n; numbers(w); check(ci::make_set_property_data_inquiry(w.src, w.dst, res.view(), w.num, w.cur, ch, w.req, w.dev), w); break;
    case 3: w.sub = 0x36; with(w, opt); w.c = c.p; w.cn = c.n; numbers(w); check(ci::make_set_property_data_inquiry(w.src, w.dst, res.view(), o, w.num, w.cur, ch, w.req, w.dev), w); break;
    case 4: w.sub = 0x38; with(w, sub); w.num = w.cur = 0; check(ci::make_subscription_inquiry(w.src, w.dst, res.view(), cmd.view(), id.view(), w.req, w.dev), w); break;
    case 5: w.sub = 0x38; with(w, sub); w.c = c.p; w.cn = c.n; numbers(w); check(ci::make_subscription_inquiry(w.src, w.dst, res.view(), cmd.view(), id.view(), w.num, w.cur, ch, w.req, w.dev), w); break;
    }
}
ENTRY(statuses)
{
    Want w = any(); Text msg(vf_choose(vf_param("T", 4))); Bytes c(vf_choose(3)); pe::chunk ch(c.p, c.n); if (!c.n) ch = {};
    const int st = int(vf_range(100, 999));
    Json plain; plain.s("{\"status\":"); for (int d = 100; d; d /= 10) plain.c(char('0' + st / d % 10)); Json text = plain; plain.c('}');
    text.s(",\"message\":"); text.value(msg); text.c('}');
    switch (vf_part(8))
    {
    case 0: w.sub = 0x35; with(w, plain); w.c = c.p; w.cn = c.n; numbers(w); check(ci::make_get_property_data_reply(w.src, w.dst, st, w.num, w.cur, ch, w.req, w.dev), w); break;
    case 1: w.sub = 0x35; with(w, text); w.c = c.p; w.cn = c.n; numbers(w); check(ci::make_get_property_data_reply(w.src, w.dst, st, msg.view(), w.num, w.cur, ch, w.req, w.dev), w); break;
    case 2: w.sub = 0x37; with(w, plain); check(ci::make_set_property_data_reply(w.src, w.dst, st, w.req, w.dev), w); break;
    case 3: w.sub = 0x37; with(w, text); check(ci::make_set_property_data_reply(w.src, w.dst, st, msg.view(), w.req, w.dev), w); break;
    case 4: w.sub = 0x39; with(w, plain); check(ci::make_subscription_reply(w.src, w.dst, st, w.req, w.dev), w); break;
    case 5: w.sub = 0x39; with(w, text); check(ci::make_subscription_reply(w.src, w.dst, st, msg.view(), w.req, w.dev), w); break;
    case 6: w.sub = 0x3F; with(w, plain); check(ci::make_notify_message(w.src, w.dst, st, w.req, w.dev), w); break;
    case 7: w.sub = 0x3F; with(w, text); check(ci::make_notify_message(w.src, w.dst, st, msg.view(), w.req, w.dev), w); break;
    }
}
// long headers and chunks
ENTRY(raw_data_long) { g_long = true; raw_data(); }
ENTRY(chunks_long) { g_long = true; chunks(); }
