// wl_jump.h
// A jump of the history: the identifiers continue as after billions of constructions.
#ifndef WL_JUMP_H
#define WL_JUMP_H
#include "wl.h"
#include <uncertainties/ureal.hpp>
#include <cstdint>
extern "C" char __data_start, _end;
namespace {
// ---- jumps: if one word of static memory always holds the last identifier,
// put there what it would hold after billions of constructions.
static uncertainties::Id probe_id(int k) { Sut s; if (k & 1) { uncertainties::UReal<double> x(1, 1); return x.indepid(); } uncertainties::UReal<float> x(1, 1); return x.indepid(); }
static uint32_t *find_counter() {
    std::vector<uint32_t *> c;
    for (int k = 0; k < 7; k++) {
        uncertainties::Id id = probe_id(k); uint32_t w = (uint32_t)(unsigned long long)id;
        if (k == 0) { for (uint32_t *p = (uint32_t *)(((uintptr_t)&__data_start + 7) & ~7ul); p + 1 < (uint32_t *)&_end; p++) if (*p == w) c.push_back(p); }
        else { std::vector<uint32_t *> d; for (auto p : c) if (*p == w) d.push_back(p); c.swap(d); }
        if (k & 2) { probe_id(k + 1); Sut s; std::string t(40 + k * 10, 'x'); }
    }
    return c.size() == 1 ? c[0] : nullptr;
}
inline bool id_jump(int a, int b) {
    uint32_t *w = find_counter(); if (!w) return false;
    rt_fired(F_FASTFWD); rt_note(a);
    static const int pw[] = {31, 31, 32, 32, 33, 16, 24, 53}; unsigned long long v = a % 3 == 2 ? (1ull << 32) * (1 + b % 5) : (1ull << pw[b % 8]) - 4;
    while ((long long)v <= (long long)probe_id(0)) v += 1ull << 32;
    bool wide = sizeof(uncertainties::Id) == 8 && (uintptr_t)w % 8 == 0; w[0] = (uint32_t)v; if (wide) w[1] = (uint32_t)(v >> 32);
    return true;
}
}
#endif
