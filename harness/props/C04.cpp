#include "../common.hpp"
using namespace md;
using namespace com;

static T *flagset(gen::Case &c, uint32_t size, bool strict, int set) {
	T *t = c.a.t(CYAML_FLAGS, strict ? CYAML_FLAG_STRICT : 0, size);
	unsigned top = size * 8 - 1;
	auto b = [](unsigned k) { return (int64_t)(1ull << k); };
	switch (set) {
	case 0: t->strs = {{"first", b(0)}, {"second", b(1)}, {"fourth", b(3)}, {"below", b(top - 1)}, {"top", b(top)}}; break;
	case 1: t->strs = {{"top", b(top)}, {"fourth", b(3)}, {"first", b(0)}, {"none", 0}}; break;
	default: for (unsigned i = 0; i <= top; i++) t->strs.push_back({mc::fmt("bit%u", i), b(i)}); break;
	}
	return t;
}
/* Every list of up to four entries. */
static void lists(mc::Ctx &m) {
	uint32_t size = 1 + (uint32_t)m.pick(8); bool strict = m.pick(2); int set = m.pick(2);
	int len = m.pick(4 + m.thorough);
	static const char *const E[] = {"first", "second", "fourth", "below", "top", "none", "FIRST", "", "8", "0x21", "-1", "9"};
	int pickd[5];
	for (int i = 0; i < len; i++) pickd[i] = m.pick(12);
	int pos = m.thorough ? m.pick(2) : 0;
	m.commit();
	gen::Case c;
	T *t = flagset(c, size, strict, set);
	Node n = Node::seq(), sib = Node::seq();
	for (int i = 0; i < len; i++) n.add(Node::sc(E[pickd[i]] == std::string("9") ? dec(p2((int)size * 8) + (i ? -1 : 0)) : std::string(E[pickd[i]]), SINGLE));
	static const int P[] = {1, 3};
	place(c, t, n, sib, P[pos]);
	gen::finish(m, c);
	verify_load(m, c);
}
/* Every bit position as a number and as a name, at every size. */
static void bits(mc::Ctx &m) {
	uint32_t size = 1 + (uint32_t)m.pick(8); bool strict = m.pick(2); int k = m.pick(66), d = m.pick(3) - 1, pos = m.pick(PLACES), how = m.pick(3);
	__int128 v = (k == 65 ? 0 : p2(k)) + d;
	if (how == 2 && (k >= (int)size * 8 || d)) m.prune();
	m.commit();
	gen::Case c;
	T *t = flagset(c, size, strict, how == 2 ? 2 : 0);
	Node n = Node::seq();
	if (how == 1) n.add(Node::sc("first"));
	n.add(Node::sc(how == 2 ? mc::fmt("bit%d", k) : spell(v, k % 2)));
	place(c, t, n, Node::seq(), pos);
	gen::finish(m, c);
	verify_load(m, c);
	if (c.ref.ok() && !c.ref.unspecified) verify_save(m, c, c.ref.v);
}
/* A bit value at every offset and width of every data size. */
static void widths(mc::Ctx &m) {
	uint32_t size = 1 + (uint32_t)m.pick(8);
	int off = m.pick((int)size * 8 + 2), w = m.pick(66);
	if (w > (int)size * 8 - off + 2 && w != 64 && w != 65) m.prune();
	int val = m.pick(7), second = m.pick(2), pos = m.pick(m.thorough ? PLACES : 2);
	m.commit();
	if (w == 65) w = 255;
	gen::Case c;
	T *t = c.a.t(CYAML_BITFIELD, 0, size);
	t->bits = {{"field", (uint8_t)off, (uint8_t)w}};
	/* A neighbour on each side, where there is room. */
	if (second) { if (off > 0) t->bits.insert(t->bits.begin(), Bit{"low", 0, (uint8_t)off}); if (off + w < (int)size * 8) t->bits.push_back(Bit{"high", (uint8_t)(off + w), (uint8_t)(size * 8 - off - w)}); }
	__int128 mx = p2(w > 64 ? 64 : w) - 1;
	const __int128 V[] = {0, 1, mx, mx + 1, mx / 2, mx / 2 + 1, 2 * mx + 1};
	Node n = Node::map(); n.add("field", Node::sc(spell(V[val], val % 2)));
	if (second && off > 0) n.add("low", Node::sc("1"));
	if (second && off + w < (int)size * 8) n.add("high", Node::sc(dec(p2(size * 8 - off - w) - 1)));
	place(c, t, n, Node::map(), pos);
	gen::finish(m, c);
	verify_load(m, c);
	if (c.ref.ok() && !c.ref.unspecified) verify_save(m, c, c.ref.v);
}
/* Every pattern of one byte, at every byte of every size, saved and loaded. */
static void patterns(mc::Ctx &m) {
	uint32_t size = 1 + (uint32_t)m.pick(8); int kind = m.pick(6), byte = m.pick((int)size), pat = m.pick(256), rest = m.pick(2), pos = m.pick(m.thorough ? PLACES : 2);
	m.commit();
	gen::Case c;
	uint64_t v = (uint64_t)pat << (byte * 8);
	if (rest) v |= 0x5A5A5A5A5A5A5A5Aull & ~(0xFFull << (byte * 8));
	if (size < 8) v &= (1ull << (size * 8)) - 1;
	T *t;
	if (kind < 4) t = flagset(c, size, kind & 1, kind & 2 ? 2 : 0);
	else {
		t = c.a.t(CYAML_BITFIELD, 0, size);
		if (kind == 4) for (unsigned i = 0; i < size; i++) t->bits.push_back(Bit{mc::fmt("byte%u", i), (uint8_t)(i * 8), 8});
		else { unsigned o = 0, w = 1; while (o < size * 8) { unsigned n = std::min(w, size * 8 - o); t->bits.push_back(Bit{mc::fmt("f%u", o), (uint8_t)o, (uint8_t)n}); o += n; w = w * 2 + 1; } }
	}
	Val x = place_val(c, t, Val::num(v), pos);
	c.s = lower(c.a, *c.top);
	if (m.tracing()) m.note("schema: %s", describe(*c.top).c_str());
	m.outcome(c.a.hash());
	verify_save(m, c, x);
}
/* Flags of several bits, overlapping in any way: saved by name only where wholly set. */
static void overlapping(mc::Ctx &m) {
	static const int F[] = {1, 2, 3, 4, 5, 6, 7, 8, 12, 15};
	int k = 1 + m.pick(m.thorough ? 4 : 3), f[4], v, strict = m.pick(2), high = m.pick(2);
	for (int i = 0; i < k; i++) f[i] = F[m.pick(10)];
	v = m.pick(16);
	m.commit();
	gen::Case c; T *t = c.a.t(CYAML_FLAGS, strict ? CYAML_FLAG_STRICT : 0, high ? 8 : 1);
	for (int i = 0; i < k; i++) t->strs.push_back({mc::fmt("f%d", i), (int64_t)((uint64_t)f[i] << (high ? 60 : 0))});
	Val x = place_val(c, t, Val::num((uint64_t)v << (high ? 60 : 0)), k & 1);
	c.s = lower(c.a, *c.top);
	if (m.tracing()) m.note("schema: %s", describe(*c.top).c_str());
	m.outcome(c.a.hash());
	verify_save(m, c, x);
}
/* Entries, names and values in every style, with tags and anchors; the collection itself likewise. */
static void presented(mc::Ctx &m) {
	static const char *const E[] = {"first", "top", "FIRST", "", "8", "0x21", "-1", "999999999999999999999", " first", "first ", "first\n"};
	int kind = m.pick(2), which = m.pick(3), e = m.pick(11), how = m.pick(PRESENTATIONS), pos = m.pick(PLACES), strict = m.pick(2);
	m.commit();
	gen::Case c; T *t; Node n, x = Node::sc(E[e]), sib;
	if (kind) { t = c.a.t(CYAML_BITFIELD, 0, 4); t->bits = {{"first", 0, 4}, {"top", 31, 1}, {"8", 4, 8}}; }
	else t = flagset(c, 4, strict, 0);
	if (kind && strict) m.prune();
	if (which == 0) present(m, x, how);
	if (!kind) { n = sib = Node::seq(); n.add(Node::sc("second")); n.add(x); n.add(Node::sc("fourth")); if (which == 1) present(m, n, how); if (which == 2) present(m, n.kids[0], how); }
	else { n = sib = Node::map(); Node v = Node::sc(e % 2 ? "1" : "0x5"); if (which == 2) present(m, v, how); n.kids.push_back(x); n.kids.push_back(v); if (which == 1) present(m, n, how); }
	place(c, t, n, sib, pos);
	gen::finish(m, c);
	verify_load(m, c);
}
/* Tables of hundreds of names. */
static void tables(mc::Ctx &m) {
	int flip = m.pick(3); gen::Case c; scale(m, c, 5);
	if (flip == 1) { c.doc.kids.pop_back(); c.doc.kids.pop_back(); }
	if (flip == 2) for (auto &k : c.doc.kids) if (k.k == Node::SEQ) k.add(Node::sc("name")); else if (k.k == Node::MAP) k.kids[0].s += "0000";
	gen::finish(m, c);
	verify_load(m, c);
	if (c.ref.ok() && !c.ref.unspecified) verify_save(m, c, c.ref.v);
}
static void build(std::vector<mc::Family> &f, bool) {
	f.push_back({"lists", "FLAGS sizes 1..8 x strict x 2 sets x every list of up to 3 (4) of 12 entries (names, wrong case, empty, numbers at the limit)", lists, 0, 0});
	f.push_back({"bits", "FLAGS sizes 1..8: every 2^k + d as number, with a name, and as a name, x strict x 7 places; loaded and saved", bits, 0, 0});
	f.push_back({"widths", "BITFIELD sizes 1..8 x every offset and width (also beyond the value) x 7 values at the limits x neighbours", widths, 0, 0});
	f.push_back({"patterns", "FLAGS and BITFIELD: all 256 patterns of each byte of sizes 1..8, saved, compared and loaded again, strict or not", patterns, 0, 0});
	f.push_back({"tables", "FLAGS and BITFIELD with tables of 255..300 names, the last of which are used; absent names", tables, 0, 0});
	f.push_back({"presentations", "an entry, name or value, or the collection, in 5 styles x 7 tags x anchored or not, 11 texts, FLAGS and BITFIELD, strict or not, 7 places", presented, 0, 0});
	f.push_back({"overlapping", "FLAGS with 1..3 (4) names, each of 10 single- and multi-bit values x all 16 values, in the lowest or the topmost four bits, strict or not: saved and loaded again", overlapping, 0, 0});
}
const mc::Prop mc::PROP = {"C04", "A case is a flag or bit layout with a document or a bit pattern; stored bits and saved names are compared with the reference.", build};
