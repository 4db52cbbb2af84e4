#include "../common.hpp"
#include <math.h>
using namespace md;
using namespace com;

static void numbers(mc::Ctx &m) {
	bool uns = m.pick(2); uint32_t size = 1 + (uint32_t)m.pick(8); int k = m.pick(67);
	__int128 v = (k == 66 ? 0 : p2(k)) + m.pick(5) - 2;
	if (m.pick(2)) v = -v;
	int radix = m.pick(6), pos = m.pick(PLACES);
	m.commit();
	if (uns && v == 0) radix = 0;
	gen::Case c;
	T *t = c.a.t(uns ? CYAML_UINT : CYAML_INT, 0, size);
	place(c, t, Node::sc(spell(v, radix)), Node::sc("5"), pos);
	gen::finish(m, c);
	/* The reference parser and the arithmetic here must agree. */
	__int128 lo = uns ? 0 : -p2(size * 8 - 1), hi = uns ? p2(size * 8) - 1 : p2(size * 8 - 1) - 1;
	if (c.ref.ok() != (v >= lo && v <= hi)) m.fail("harness: reference model wrong for %s", c.doc.s.c_str());
	verify_load(m, c);
}
static void limits(mc::Ctx &m) {
	bool uns = m.pick(2); uint32_t size = 1 + (uint32_t)m.pick(8);
	__int128 lo = uns ? 0 : -p2(size * 8 - 1), hi = uns ? p2(size * 8) - 1 : p2(size * 8 - 1) - 1;
	const __int128 L[] = {0, 1, 5, 100, lo, lo + 1, hi, hi - 1, -1, -5, p2(31), p2(63) - 1, -p2(63), p2(64) - 1};
	__int128 min = L[m.pick(14)], max = L[m.pick(14)];
	__int128 tl = uns ? 0 : -p2(63), th = uns ? p2(64) - 1 : p2(63) - 1;
	if (min < tl || min > th || max < tl || max > th || min > max) m.prune();
	const __int128 V[] = {min - 1, min, min + 1, max - 1, max, max + 1, 0, lo, hi, 3};
	__int128 v = V[m.pick(10)];
	int pos = m.pick(3) * 2;
	m.commit();
	gen::Case c;
	T *t = c.a.t(uns ? CYAML_UINT : CYAML_INT, 0, size);
	if (uns) { t->umin = (uint64_t)min; t->umax = (uint64_t)max; } else { t->imin = (int64_t)min; t->imax = (int64_t)max; }
	__int128 s = min > lo ? min : lo; if (s > hi || s > max) s = 0;
	if (pos == 4 && (min || max) && (s < min || s > max)) m.prune();
	place(c, t, Node::sc(dec(v)), Node::sc(dec(s)), pos);
	gen::finish(m, c);
	verify_load(m, c);
}
/* Every short string over the characters numbers are made of. */
static T *target(md::Arena &a, int k) {
	T *t;
	switch (k) {
	case 0: return a.t(CYAML_INT, 0, 1);
	case 1: return a.t(CYAML_INT, 0, 4);
	case 2: return a.t(CYAML_INT, 0, 8);
	case 3: return a.t(CYAML_UINT, 0, 1);
	case 4: return a.t(CYAML_UINT, 0, 4);
	case 5: return a.t(CYAML_UINT, 0, 8);
	case 6: return a.t(CYAML_FLOAT, 0, 4);
	case 7: return a.t(CYAML_FLOAT, CYAML_FLAG_STRICT, 8);
	case 8: t = a.t(CYAML_ENUM, 0, 4); t->strs = {{"1", 9}, {"x", 5}, {"e", -1}, {"00", 3}}; return t;
	case 9: t = a.t(CYAML_ENUM, CYAML_FLAG_STRICT, 2); t->strs = {{"1", 9}, {"x", 5}, {"e", -1}, {"00", 3}}; return t;
	case 10: return a.t(CYAML_BOOL, 0, 4);
	default: t = a.t(CYAML_FLAGS, 0, 4); t->strs = {{"x", 64}}; return t;
	}
}
static void strings(mc::Ctx &m) {
	static const char A[] = "0189xaF-+.e_ni";
	int k = m.pick(12), len = m.pick(m.thorough ? 5 : 4);
	std::string s;
	for (int i = 0; i < len; i++) s += A[m.pick(14)];
	int pos = m.thorough ? 0 : m.pick(2);
	m.commit();
	gen::Case c;
	Node n = Node::sc(s, DOUBLE), sib = Node::sc("1");
	T *t = target(c.a, k);
	if (k == 11) { Node q = Node::seq(); q.add(n); n = q; }
	place(c, t, n, sib, pos);
	gen::finish(m, c);
	verify_load(m, c);
}
static void bools(mc::Ctx &m) {
	static const char *const W[] = {"false", "no", "off", "disable", "0", "true", "yes", "on", "enable", "1"};
	uint32_t size = 1 + (uint32_t)m.pick(8);
	std::string w = W[m.pick(10)];
	int mode = m.pick(4);
	int bits = 0, at = 0, with = 0;
	static const char E[] = "fnodeal01s ";
	if (mode == 0) bits = m.pick(1 << w.size());
	else { at = m.pick((int)w.size() + (mode == 3)); if (mode >= 2) with = m.pick((int)sizeof E - 1); }
	int pos = m.pick(2);
	m.commit();
	if (mode == 0) for (size_t i = 0; i < w.size(); i++) { if (bits >> i & 1) w[i] = (char)toupper(w[i]); }
	else if (mode == 1) w.erase(at, 1); else if (mode == 2) w[at] = E[with]; else w.insert(at, 1, E[with]);
	gen::Case c;
	c.cfg = pos ? CYAML_CFG_CASE_INSENSITIVE : 0;
	place(c, c.a.t(CYAML_BOOL, mode == 0 && bits % 3 == 1 ? CYAML_FLAG_CASE_SENSITIVE : 0, size), Node::sc(w, DOUBLE), Node::sc("1"), pos ? 3 : 1);
	gen::finish(m, c);
	verify_load(m, c);
}
static void floats(mc::Ctx &m) {
	uint32_t size = m.pick(2) ? 8 : 4; bool strict = m.pick(2);
	int e = m.pick(2150) - 1080, near = m.pick(m.thorough ? 11 : 7), form = m.pick(3);
	bool neg = m.pick(2);
	m.commit();
	double d = ldexp(1.0, e);
	char buf[1500];
	if (near < 3) d = near == 0 ? d : near == 1 ? nextafter(d, INFINITY) : nextafter(d, 0);
	else if (near < 5) { float f = (float)d, g = near == 3 ? nextafterf(f, INFINITY) : nextafterf(f, 0); d = ((double)f + (double)g) / 2; }   /* halfway between floats */
	else if (near < 7) { if (e > 128) m.prune(); d = near == 5 ? nextafterf((float)d, 0) : nextafterf((float)d, INFINITY); }   /* floats next to it: FLT_MAX too */
	else if (near < 9) { float f = (float)d, g = nextafterf(f, INFINITY); d = ((double)f + (double)g) / 2; d = nextafter(d, near == 7 ? INFINITY : 0); }
	else d *= near == 9 ? 1.1 : 1.7;
	if (!isfinite(d)) m.prune();
	if (neg) d = -d;
	snprintf(buf, sizeof buf, form == 0 ? "%.17g" : form == 1 ? "%.1100g" : "%a", d);
	gen::Case c;
	place(c, c.a.t(CYAML_FLOAT, strict ? CYAML_FLAG_STRICT : 0, size), Node::sc(buf), Node::sc("1"), e % 2 ? 1 : 3);
	gen::finish(m, c);
	if (!strict && c.ref.ok() && size == 8) { /* the reference must give d back */
		const Val *v = &c.ref.v; v = &v->v[1]; double x; memcpy(&x, &v->n, 8); if (memcmp(&x, &d, 8)) m.fail("harness: float reference wrong for %s", buf); }
	verify_load(m, c);
}
static void enums(mc::Ctx &m) {
	uint32_t size = 1 + (uint32_t)m.pick(8); bool strict = m.pick(2);
	int k = m.pick(65), text = m.pick(9), pos = m.pick(PLACES);
	__int128 v = (k == 64 ? 0 : p2(k)) + m.pick(3) - 1; if (m.pick(2)) v = -v;
	if (v > p2(63) - 1 || v < -p2(63)) m.prune();
	m.commit();
	gen::Case c;
	T *t = c.a.t(CYAML_ENUM, strict ? CYAML_FLAG_STRICT : 0, size);
	t->strs = {{"none", 0}, {"some", (int64_t)v}, {"1", 2}, {"other", 3}};
	const std::string X[] = {"some", "SOME", "som", "somee", dec(v), dec(v + 1), spell(v, 1), "1", "2"};
	place(c, t, Node::sc(X[text]), Node::sc("other"), pos);
	gen::finish(m, c);
	verify_load(m, c);
}
/* Texts far longer than any number needs: zeros in front or behind, long words. */
static void longtexts(mc::Ctx &m) {
	static const int LEN[] = {15, 16, 17, 19, 20, 21, 22, 23, 24, 30, 31, 32, 33, 39, 40, 41, 62, 63, 64, 65, 66, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 65535, 65536};
	int k = m.pick(12), n = LEN[m.pick(42)], form = m.pick(14), pos = m.pick(2);
	m.commit();
	const std::string z((size_t)n, '0');
	const std::string X[] = {z, z + "17", "0x" + z, "0x" + z + "1f", "-0x" + z + "7", "-" + z + "5", "1" + z, "0x1" + z, "0." + z + "1", "1." + z, "true" + std::string((size_t)n, 'e'), std::string((size_t)n, 'x'), "0e" + z, "1e-" + z + "3"};
	gen::Case c;
	Node v = Node::sc(X[form], DOUBLE), sib = Node::sc("1");
	T *t = target(c.a, k);
	if (k == 11) { Node q = Node::seq(); q.add(v); v = q; }
	place(c, t, v, sib, pos);
	gen::finish(m, c);
	verify_load(m, c);
}
static const char *const WORDS[] = {"5", "-5", "+5", "0x1f", "017", "300", "0.5", "1e3", "-0", "true", "no", "0", "1", "x", "00", "nan", "inf", "", "5x", "zz", "on", "false", "null", "~"};
/* Characters before and behind. */
static void padded(mc::Ctx &m) {
	static const char *const PAD[] = {"", " ", "  ", "\t", "\n", "\v", "\f", "\r", "\xc2\xa0", "\xef\xbb\xbf", "\x01", "_", "'", "\\"};
	int k = m.pick(12), w = m.pick(24), a = m.pick(14), b = m.pick(14), pos = m.pick(2), cs = m.pick(2);
	m.commit();
	gen::Case c;
	Node v = Node::sc(std::string(PAD[a]) + WORDS[w] + PAD[b], DOUBLE), sib = Node::sc("1");
	T *t = target(c.a, k);
	if (k == 11) { Node q = Node::seq(); q.add(v); v = q; }
	place(c, t, v, sib, pos);
	if (cs) c.cfg = CYAML_CFG_CASE_INSENSITIVE;
	gen::finish(m, c);
	verify_load(m, c);
}
/* Any character put in, in place of another, or behind; endings of two characters. */
static void edits(mc::Ctx &m) {
	static const char TAIL[] = "fFlLuUdDiInNeExXpP%_.+-,";
	int k = m.pick(12), w = m.pick(24), how = m.pick(3); std::string s = WORDS[w];
	if (how < 2) {
		int at = m.pick((int)s.size() + 1), ch = m.pick(98); if (how && at == (int)s.size()) m.prune();
		std::string x = ch < 95 ? std::string(1, (char)(' ' + ch)) : ch == 95 ? "\x7f" : ch == 96 ? "\xc3\xa9" : "\xd9\xa3";
		if (how) s.replace((size_t)at, 1, x); else s.insert((size_t)at, x);
	} else { s += TAIL[m.pick(24)]; s += TAIL[m.pick(24)]; }
	int pos = m.pick(2) ? 0 : 3;
	m.commit();
	gen::Case c;
	Node v = Node::sc(s, DOUBLE), sib = Node::sc("1");
	T *t = target(c.a, k);
	if (k == 11) { Node q = Node::seq(); q.add(v); v = q; }
	place(c, t, v, sib, pos);
	gen::finish(m, c);
	verify_load(m, c);
}
/* The same text in every style, with tags and anchors. */
static void presented(mc::Ctx &m) {
	int k = m.pick(12), w = m.pick(24), how = m.pick(PRESENTATIONS), pos = m.pick(PLACES);
	m.commit();
	gen::Case c;
	Node v = Node::sc(WORDS[w]), sib = Node::sc("1");
	present(m, v, how);
	T *t = target(c.a, k);
	if (k == 11) { Node q = Node::seq(); q.add(v); v = q; }
	place(c, t, v, sib, pos);
	gen::finish(m, c);
	verify_load(m, c);
}
static void build(std::vector<mc::Family> &f, bool) {
	f.push_back({"integers", "INT, UINT x sizes 1..8 x (+-2^k + d, k 0..65, d -2..2) x 6 spellings x 7 places", numbers, 0, 0});
	f.push_back({"limits", "INT, UINT x sizes 1..8 x every min <= max of 14 boundary values x 10 values around them x 3 places", limits, 0, 0});
	f.push_back({"short strings", "every string of up to 3 (thorough 4) characters over '0189xaF-+.e_ni' as INT, UINT, FLOAT, ENUM, BOOL, FLAGS entry", strings, 0, 0});
	f.push_back({"booleans", "10 words x all letter cases and all one-character edits x sizes 1..8", bools, 0, 0});
	f.push_back({"floats", "2^k and neighbours, halfway points of floats, k -1080..1069, x 3 spellings x strict x both sizes", floats, 0, 0});
	f.push_back({"long texts", "42 lengths of 15..65536 zeros or letters x 14 forms x 12 schema values x 2 places", longtexts, 0, 0});
	f.push_back({"padded", "24 texts x 14 x 14 paddings (spaces, tabs, line ends, control and wide characters, quotes) in front and behind x 12 schema values x 2 places", padded, 0, 0});
	f.push_back({"edits", "24 texts with any of 98 characters inserted or replaced at any place, or any of 576 endings, x 12 schema values x 2 places", edits, 0, 0});
	f.push_back({"presentations", "24 texts x 5 scalar styles x 7 tags x anchored or not x 12 schema values x 7 places", presented, 0, 0});
	f.push_back({"enums", "sizes 1..8 x values +-2^k + d x 9 texts x strict x 7 places", enums, 0, 0});
}
const mc::Prop mc::PROP = {"C03", "A case is a schema value, a scalar text and a place; the stored bytes or the rejection are compared with an independent conversion.", build};
