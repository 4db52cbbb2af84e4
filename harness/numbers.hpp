// Values of numeric types that need not come from a document: booleans that are neither 0 nor 1, any bits, NaNs.
#pragma once
#include "common.hpp"
namespace com {
const int RAW_TYPES = 7;
/* Patterns of n bits: 0..3 per bit (alone, missing, all below, all above), then fixed ones. */
inline uint64_t raw_bits(mc::Ctx &m, int n) {
	static const uint64_t P[] = {0, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA, 0x0123456789ABCDEF, 0xFEDCBA9876543210, 0x8000000000000001, 0x0100010001000100, 0x00FF00FF00FF00FF};
	uint64_t all = n >= 64 ? ~0ull : (1ull << n) - 1, b; int how = m.pick(5);
	if (how == 4) return P[m.pick(8)] & all;
	b = 1ull << m.pick(n);
	return all & (how == 0 ? b : how == 1 ? ~b : how == 2 ? b - 1 : ~(b - 1) << 1);
}
/* A value of any numeric type in a place of a schema; commits. */
inline Val raw_value(mc::Ctx &m, gen::Case &c) {
	int type = m.pick(RAW_TYPES), size = 1 + m.pick(8); T *t; uint64_t n;
	if (type == 6) {
		if (size != 4 && size != 8) m.prune();
		bool d = size == 8; uint64_t inf = d ? 0x7FF0000000000000 : 0x7F800000, q = d ? 1ull << 51 : 1u << 22;
		const uint64_t F[] = {0, 1, 2, inf, inf - 1, inf | 1, inf | q, inf | q | 1, inf | q - 1, inf | q | (q - 1), q * 2, q * 2 - 1, d ? 0x3FF0000000000000ull : 0x3F800000ull, d ? 0x3FF0000000000001ull : 0x3F800001ull, d ? 0x4340000000000001ull : 0x4B800001ull, d ? 0x3FB999999999999Aull : 0x3DCCCCCDull};
		n = F[m.pick(16)]; if (m.pick(2)) n |= d ? 1ull << 63 : 1ull << 31;
	} else n = raw_bits(m, size * 8);
	int pos = m.pick(PLACES), strict = type == 3 || type == 4 ? m.pick(2) : 0; c.cfg = m.pick(2) ? CYAML_CFG_STYLE_FLOW : 0;
	m.commit();
	uint32_t z = (uint32_t)size; int w = size * 8;
	auto sx = [w](uint64_t x) { return (int64_t)(x << (64 - w)) >> (64 - w); };
	switch (type) {
	case 0: t = c.a.t(CYAML_INT, 0, z); break;
	case 1: t = c.a.t(CYAML_UINT, 0, z); break;
	case 2: t = c.a.t(CYAML_BOOL, 0, z); break;
	case 3: t = c.a.t(CYAML_ENUM, strict ? CYAML_FLAG_STRICT : 0, z); t->strs = {{"zero", 0}, {"one", 1}, {"neg", -1}, {"low", sx(1ull << (w - 1))}}; if (strict) t->strs.push_back({"it", sx(n)}); break;
	case 4: t = c.a.t(CYAML_FLAGS, strict ? CYAML_FLAG_STRICT : 0, z);
		for (int k = 0; k < w; k++) if (strict || k % 3 == 1) t->strs.push_back({mc::fmt("f%d", k), (int64_t)(1ull << k)}); break;
	case 5: t = c.a.t(CYAML_BITFIELD, 0, z); for (int k = 0, i = 0; k < w; i++) { int b = std::min(w - k, 1 + i * 3); t->bits.push_back({mc::fmt("b%d", k), (uint8_t)k, (uint8_t)b}); k += b; } break;
	default: t = c.a.t(CYAML_FLOAT, 0, z);
	}
	Val v = place_val(c, t, Val::num(n), pos);
	c.s = lower(c.a, *c.top);
	m.outcome((uint64_t)type << 8 | (unsigned)size); m.outcome(n);
	return v;
}
const char *const RAW = "numeric types x sizes 1..8 x 4 patterns around every bit (any bit alone, missing, all below, all above) and 8 others, floats of 32 special patterns x 7 places x flow, as held in memory rather than loaded";
}
