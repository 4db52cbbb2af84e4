#include "../common.hpp"
#include "../casetab.h"
using namespace md;
using namespace com;

static std::string utf8(unsigned c) {
	std::string r;
	if (c < 0x80) r += (char)c;
	else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	return r;
}
/* Code points YAML text can hold. */
static bool yaml_ok(unsigned c) { return c < 0x80 || (c >= 0xa0 && c <= 0xd7ff) || (c >= 0xe000 && c <= 0xfffd && c != 0xfeff) || (c >= 0x10000 && c <= 0x10ffff); }
static const int KINDS = 4;     /* key, enum, flags, bitfield */
static const unsigned FL[] = {0, CYAML_FLAG_CASE_SENSITIVE, CYAML_FLAG_CASE_INSENSITIVE, CYAML_FLAG_CASE_SENSITIVE | CYAML_FLAG_CASE_INSENSITIVE};

/* A value of the kind, knowing the names, and text naming one of them. */
static T *value(gen::Case &c, int kind, unsigned flags, const std::vector<std::string> &names, const std::string &said, Node &n) {
	T *t; Field f;
	Node k = Node::sc(said, DOUBLE);
	switch (kind) {
	case 0:
		t = c.a.t(CYAML_MAPPING, flags);
		for (auto &s : names) { f.key = s; f.t = c.a.t(CYAML_UINT, CYAML_FLAG_OPTIONAL, 1); t->fields.push_back(f); }
		n = Node::map(); n.kids.push_back(k); n.kids.push_back(Node::sc("5")); return t;
	case 1:
		t = c.a.t(CYAML_ENUM, flags | CYAML_FLAG_STRICT, 2); { int i = 3; for (auto &s : names) t->strs.push_back({s, i++}); }
		n = k; return t;
	case 2:
		t = c.a.t(CYAML_FLAGS, flags | CYAML_FLAG_STRICT, 4); { int i = 1; for (auto &s : names) { t->strs.push_back({s, i}); i *= 2; } }
		n = Node::seq(); n.add(k); return t;
	default:
		t = c.a.t(CYAML_BITFIELD, flags, 8); { int i = 0; for (auto &s : names) { t->bits.push_back(Bit{s, (uint8_t)(i * 3), 3}); i++; } }
		n = Node::map(); n.kids.push_back(k); n.kids.push_back(Node::sc("5")); return t;
	}
}
static void run(mc::Ctx &m, gen::Case &c, int kind, unsigned flags, unsigned cfg, const std::vector<std::string> &names, const std::string &said, int pos) {
	Node n, sib; T *t = value(c, kind, flags, names, said, n);
	Node q; { gen::Case tmp; (void)tmp; }
	sib = n;
	switch (kind) { case 0: sib = Node::map(); break; case 1: sib = Node::sc(names[0], DOUBLE); break; case 2: sib = Node::seq(); break; default: sib = Node::map(); }
	place(c, t, n, sib, pos);
	c.cfg = cfg;
	gen::finish(m, c);
	verify_load(m, c);
}
/* Every pair of code points below U+0250, as whole names. */
static void pairs(mc::Ctx &m) {
	int a = 1 + m.pick(0x24f), b = 1 + m.pick(0x24f), kind = m.pick(KINDS);
	if (!yaml_ok((unsigned)b)) m.prune();
	int d = a > b ? a - b : b - a;
	if (!m.thorough && kind && d > 2 && d != 32 && CASE_CLASS[a] != CASE_CLASS[b]) m.prune();
	/* Forms that only become equal by way of another letter's case are left open. */
	if (((a == 0x131 || a == 0x130) && (b == 'i' || b == 'I')) || ((b == 0x131 || b == 0x130) && (a == 'i' || a == 'I')) || ((a == 0x17f) != (b == 0x17f) && ((a | b | 0x20) & 0x7f) == ('s' | 0x7f))) m.prune();
	if ((a == 0x17f && (b == 's' || b == 'S')) || (b == 0x17f && (a == 's' || a == 'S'))) m.prune();
	int ci = m.pick(2);
	m.commit();
	gen::Case c;
	std::string x = utf8((unsigned)a), y = utf8((unsigned)b);
	if (fold_eq(x, y)) m.count("pairs equal but for case");
	run(m, c, kind, 0, ci ? CYAML_CFG_CASE_INSENSITIVE : 0, {x}, y, 0);
}
/* Which rule is in force. */
static void precedence(mc::Ctx &m) {
	int kind = m.pick(KINDS), pos = m.pick(PLACES), how = m.pick(6);
	unsigned fl = FL[m.pick(4)], cfg = m.pick(2) ? (unsigned)CYAML_CFG_CASE_INSENSITIVE : 0, other = FL[m.pick(4)];
	bool amb = m.pick(2);
	m.commit();
	static const char *const SAID[] = {"Name", "name", "NAME", "nAmE", "names", "nam"};
	gen::Case c;
	Node n; T *t = value(c, kind, fl, amb ? std::vector<std::string>{"nAME", "Name", "other"} : std::vector<std::string>{"Name", "other"}, SAID[how], n);
	Node sib; T tmp = *t; (void)tmp;
	switch (kind) { case 0: sib = Node::map(); break; case 1: sib = Node::sc("other"); break; case 2: sib = Node::seq(); break; default: sib = Node::map(); }
	place(c, t, n, sib, pos);
	/* flags of the values around must not matter */
	if (c.top != t) { c.top->flags |= other; if (c.top->entry && c.top->entry != t) c.top->entry->flags |= other; for (auto &f : c.top->fields) if (f.t != t) f.t->flags |= other; }
	c.cfg = cfg;
	gen::finish(m, c);
	verify_load(m, c);
}
/* All short names over an alphabet with one-, two-, three- and four-byte characters. */
static void names(mc::Ctx &m) {
	static const char *const A[] = {"a", "A", "b", "\xc3\xa9", "\xc3\x89", "\xc5\xbf", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3\x97", "\xc9\x90"};
	int ci = m.pick(2), kind = m.pick(KINDS), la = m.pick(3), lb = m.pick(m.thorough ? 4 : 3);
	if (kind && la + lb > 3 && !m.thorough) m.prune();
	std::string x, y;
	for (int i = 0; i < la; i++) x += A[m.pick(10)];
	for (int i = 0; i < lb; i++) y += A[m.pick(10)];
	m.commit();
	gen::Case c;
	run(m, c, kind, 0, ci ? CYAML_CFG_CASE_INSENSITIVE : 0, {x}, y, 0);
}
/* Letter case at every place of long names. */
static void long_names(mc::Ctx &m) {
	int n = 1 + m.pick(m.thorough ? 130 : 40), at = m.pick(n), how = m.pick(5), kind = m.pick(KINDS), ci = m.pick(2), wide = m.pick(3);
	m.commit();
	std::string x, y;
	static const unsigned W[] = {'q', 0xe9, 0x1f9};
	static const unsigned U[] = {'Q', 0xc9, 0x1f8};
	for (int i = 0; i < n; i++) {
		x += utf8(W[wide]);
		if (i != at) { y += utf8(W[wide]); continue; }
		switch (how) { case 0: y += utf8(U[wide]); break; case 1: y += 'r'; break; case 2: break; case 3: y += utf8(W[wide]) + utf8(U[wide]); break; default: y += utf8(0x20ac); }
	}
	gen::Case c;
	run(m, c, kind, 0, ci ? CYAML_CFG_CASE_INSENSITIVE : 0, {x}, y, 0);
}
/* Letters beyond the range, and the edges of the encodings. */
static void beyond(mc::Ctx &m) {
	static const unsigned P[] = {0x24f, 0x250, 0x251, 0x2af, 0x37f, 0x391, 0x392, 0x3b2, 0x410, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x1e00, 0x1e02, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10001, 0x1f600, 0x10ffff, 0x41, 0xc1, 0x141, 0x10041, 0x2c41};
	const int n = sizeof P / sizeof *P;
	int a = m.pick(n), b = m.pick(n), kind = m.pick(KINDS), ci = m.pick(2);
	m.commit();
	if ((P[a] == 0x392 && P[b] == 0x3b2) || (P[a] == 0x3b2 && P[b] == 0x392)) m.prune();
	gen::Case c;
	run(m, c, kind, 0, ci ? CYAML_CFG_CASE_INSENSITIVE : 0, {utf8(P[a])}, utf8(P[b]), 0);
}
/* The name in every style, with tags and anchors, and padded. */
static void presented(mc::Ctx &m) {
	static const char *const SAID[] = {"Name", "name", "NAME", "names", "nam", " Name", "Name ", "Name\n", "\tName", "Na me", "N\xc3\xa1me"};
	int kind = m.pick(KINDS), how = m.pick(PRESENTATIONS), pos = m.pick(PLACES), said = m.pick(11), cfg = m.pick(2);
	m.commit();
	gen::Case c; Node n; T *t = value(c, kind, 0, {"other", "Name"}, SAID[said], n);
	present(m, kind == 1 ? n : n.kids[0], how);
	place(c, t, n, kind == 0 || kind == 3 ? Node::map() : kind == 1 ? Node::sc("other") : Node::seq(), pos);
	c.cfg = cfg ? CYAML_CFG_CASE_INSENSITIVE : 0;
	gen::finish(m, c);
	verify_load(m, c);
}
/* Schema names that are not UTF-8 match no text, and are not read past their end. */
static void malformed(mc::Ctx &m) {
	static const unsigned char B[] = {0x61, 0x41, 0xc3, 0xa9, 0x89, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0xc1, 0xff};
	static const char *const Y[] = {"", "a", "A", "\xc3\xa9", "\xc3\x89", "\xe2\x82\xac", "aa", "aA\xc3\xa9", "\xf0\x9f\x98\x80", "\xc3\xa9\xc3\xa9", "a\xe2\x82\xac"};
	int l = 1 + m.pick(3), kind = m.pick(KINDS), ci = m.pick(2), y = m.pick(11); std::string x;
	if (kind && l > 2 && !m.thorough) m.prune();
	for (int i = 0; i < l; i++) x += (char)B[m.pick(12)];
	m.commit();
	gen::Case c;
	Node n, sib; T *t = value(c, kind, 0, {x}, Y[y], n); (void)sib;
	t->flags |= CYAML_FLAG_POINTER; c.top = t; c.doc = n; c.cfg = ci ? CYAML_CFG_CASE_INSENSITIVE : 0;
	gen::finish(m, c);
	/* Not decodable: equal only byte for byte. */
	bool valid = true;
	for (size_t i = 0; i < x.size();) { unsigned char b = (unsigned char)x[i]; size_t k = b < 0x80 ? 1 : b == 0xc3 ? 2 : b == 0xe2 ? 3 : b == 0xf0 ? 4 : 9; if (i + k > x.size()) { valid = false; break; } for (size_t j = 1; j < k; j++) if (((unsigned char)x[i + j] & 0xc0) != 0x80) valid = false; if (k == 3 && (unsigned char)x[i + 1] < 0xa0 && b == 0xe0) valid = false; if (!valid) break; i += k; }
	if (!valid) { c.ref = Ref(); c.ref.errs.insert(ANY_ERR); m.count("malformed names"); }
	verify_load(m, c);
}
/* Names of hundreds and thousands of characters, and tables of hundreds of names. */
static void scaled(mc::Ctx &m) {
	static const int N[] = {63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 4097, 65536};      /* libyaml bounds keys to 1024 characters */
	int n = N[m.pick(17)], tab = m.pick(2), at = m.pick(5), how = m.pick(5), kind = m.pick(KINDS), ci = m.pick(2), wide = m.pick(tab ? 1 : 3);
	if ((tab && kind > 1) || (n > 1000 && (tab || kind == 0 || kind == 3))) m.prune();
	m.commit();
	static const unsigned L[] = {'q', 0xe9, 0x1f9}, U[] = {'Q', 0xc9, 0x1f8};
	int pos = at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? n / 2 : at == 3 ? std::min(n - 1, 255) : std::min(n - 1, 256);
	auto other = [&](std::string &y) { switch (how) { case 0: y += utf8(U[wide]); break; case 1: y += 'r'; break; case 2: break; case 3: y += utf8(L[wide]) + utf8(U[wide]); break; default: y += utf8(0x20ac); } };
	gen::Case c; std::vector<std::string> names; std::string y;
	if (!tab) {
		std::string x;
		for (int i = 0; i < n; i++) { x += utf8(L[wide]); if (i == pos) other(y); else y += utf8(L[wide]); }
		names = {x};
	} else { for (int i = 0; i < n; i++) names.push_back(mc::fmt("name%dq", i)); y = mc::fmt("name%d", pos); other(y); }
	run(m, c, kind, 0, ci ? CYAML_CFG_CASE_INSENSITIVE : 0, names, y, 0);
}
static void build(std::vector<mc::Family> &f, bool) {
	f.push_back({"pairs", "every pair of code points below U+0250 (schema name x name in the text), case sensitive and not, as mapping key; as enum, flag and bitfield name the pairs that are close or equal but for case (all)", pairs, 0, 0});
	f.push_back({"precedence", "value flags (none, sensitive, insensitive, both) x configuration x flags of the values around x 4 kinds of name x 7 places x 6 spellings x ambiguous names", precedence, 0, 0});
	f.push_back({"names", "all pairs of names of up to 2 (2 and 3) characters over 10 characters of 1 to 4 bytes", names, 0, 0});
	f.push_back({"long names", "names of 1..40 (130) characters, case or letter changed, dropped or added at every place", long_names, 0, 0});
	f.push_back({"scale", "names of 63..1000 (enums and flags 65536) characters of 1 or 2 bytes with a character changed, dropped or added at five places, and tables of 63..1000 names", scaled, 0, 0});
	f.push_back({"beyond", "29 code points around the edges of blocks and encodings, all pairs", beyond, 0, 0});
	f.push_back({"presentations", "11 spellings and paddings of a name x 5 styles x 7 tags x anchored or not x 4 kinds of name x 7 places x case rule", presented, 0, 0});
	f.push_back({"malformed", "schema names of 1..3 bytes over 12 bytes that mostly are not UTF-8 x 11 names in the text", malformed, 0, 0});
}
const mc::Prop mc::PROP = {"C09", "A case is a name in the schema, a name in the text and the case rules in force; the value must load iff the reference's Unicode case table says they match.", build};
