// Independent MIDI 1.0 byte stream model (channel voice and system messages; exclusives as byte strings).
#pragma once
#include "pk.h"
struct ref_parser
{
    uint8_t group = 0, rs = 0, need = 0, cnt = 0, d1 = 0; bool sx = false;
    bool emit = false; uint32_t word = 0;                                          // message completed by this byte
    bool sx_begin = false, sx_data = false, sx_end = false, sx_abort = false;      // exclusive events of this byte
    void out(uint8_t st, uint8_t a, uint8_t b) { emit = true; word = w0(st >= 0xF0 ? 1 : 2, group, st, a, b); }
    void step(uint8_t b)
    {
        emit = sx_begin = sx_data = sx_end = sx_abort = false; word = 0;
        if (b >= 0xF8) { if (b != 0xF9 && b != 0xFD) out(b, 0, 0); return; }
        if (b >= 0x80)
        {
            if (sx) { if (b == 0xF7) sx_end = true; else sx_abort = true; sx = false; }
            cnt = 0; need = 0; rs = 0;
            if (b < 0xF0) { rs = b; need = (b & 0xE0) == 0xC0 ? 1 : 2; }
            else if (b == 0xF0) { sx = true; sx_begin = true; }
            else if (b == 0xF1 || b == 0xF3) { rs = b; need = 1; }
            else if (b == 0xF2) { rs = b; need = 2; }
            else if (b == 0xF6) out(b, 0, 0);
            return;
        }
        if (sx) { sx_data = true; return; }
        if (!rs) return;
        if (cnt + 1 == need) { out(rs, need == 1 ? b : d1, need == 1 ? 0 : b); cnt = 0; if (rs >= 0xF0) rs = 0; }
        else { d1 = b; cnt = 1; }
    }
};
