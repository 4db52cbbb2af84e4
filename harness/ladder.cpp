#include "ladder.hpp"
#include <algorithm>
namespace gen {
using namespace md;
using mc::fmt;

static T *i4(Case &c) { return c.a.t(CYAML_INT, 0, 4); }
static T *strp(Case &c) { T *t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->smax = CYAML_UNLIMITED; return t; }

/* kind: 0 all ints; 1 alternating sizes; 2 optional, every third absent; 3 optional with defaults, every third
 * absent; 4 strings; 5 sequences. */
void ladder_fields(Case &c, int n, int kind, int order) {
	T *t = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
	t->fields.resize(n);
	std::vector<int> idx;
	std::vector<Node> vals;
	for (int i = 0; i < n; i++) {
		Field &f = t->fields[i];
		f.key = fmt("key%d", i);
		Node v = Node::sc(fmt("%d", 1000 + i));
		switch (kind) {
		case 1: f.t = c.a.t(CYAML_UINT, 0, (uint32_t)(i % 8 + 1)); v = Node::sc(fmt("%d", i % 255 + 1)); break;
		case 4: f.t = strp(c); break;
		case 5: f.t = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); f.t->smax = CYAML_UNLIMITED; f.t->entry = i4(c); f.cnt_size = (uint8_t)(i % 8 + 1);
			v = Node::seq(); for (int k = 0; k < i % 4; k++) v.add(Node::sc(fmt("%d", i * 10 + k))); break;
		default: f.t = i4(c);
		}
		if (kind == 2 || kind == 3) f.t->flags |= CYAML_FLAG_OPTIONAL;
		if (kind == 3) f.t->imiss = -100 - i;
		vals.push_back(v);
		if ((kind == 2 || kind == 3) && i % 3 == n % 3) continue;
		idx.push_back(i);
	}
	if (order == 1) std::reverse(idx.begin(), idx.end());
	if (order == 2 && idx.size()) std::rotate(idx.begin(), idx.begin() + idx.size() / 2, idx.end());
	if (order == 3) { std::vector<int> k; for (size_t i = 0; i < idx.size(); i += 2) k.push_back(idx[i]); for (size_t i = 1; i < idx.size(); i += 2) k.push_back(idx[i]); idx = k; }
	c.doc = Node::map();
	for (int i : idx) c.doc.add(t->fields[i].key, vals[i]);
}
/* kind: 0 embedded mappings; 1 pointer mappings; 2 fixed sequences; 3 mapping / sequence of mapping; 4 pointer
 * mappings with sibling fields on both sides; 5 fixed sequences of pointers */
void ladder_depth(Case &c, int depth, int kind) {
	T *t = i4(c); Node n = Node::sc("77");
	for (int d = depth; d-- > 0;) {
		unsigned top = d == 0 ? CYAML_FLAG_POINTER : 0;
		if (kind == 2 || kind == 5) {
			T *s = c.a.t(CYAML_SEQUENCE_FIXED, kind == 5 ? CYAML_FLAG_POINTER : top); s->smin = s->smax = d % 8 == 3 ? 2 : 1; s->entry = t;
			if (kind == 5 && t->type == CYAML_INT) t->flags |= CYAML_FLAG_POINTER;
			Node q = Node::seq(); for (uint32_t i = 0; i < s->smax; i++) q.add(n);
			t = s; n = q;
		} else if (kind == 3 && d % 2) {
			T *s = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = t;
			Node q = Node::seq(); q.add(n); if (d % 8 == 1) q.add(n);
			t = s; n = q;
		} else {
			T *p = c.a.t(CYAML_MAPPING, kind == 0 ? top : CYAML_FLAG_POINTER);
			Node q = Node::map();
			if (kind == 4) { Field f; f.key = fmt("before%d", d); f.t = i4(c); p->fields.push_back(f); q.add(f.key, Node::sc(fmt("%d", d))); }
			Field f; f.key = fmt("d%d", d); f.t = t; p->fields.push_back(f); q.add(f.key, n);
			if (kind == 4) { Field g; g.key = fmt("after%d", d); g.t = strp(c); p->fields.push_back(g); q.add(g.key, Node::sc(fmt("s%d", d))); }
			t = p; n = q;
		}
	}
	t->flags |= CYAML_FLAG_POINTER;
	c.top = t; c.doc = n;
}
/* kind (entry): 0 int4 1 int1 2 string pointer 3 embedded string 4 mapping 5 pointer mapping 6 fixed sequence
 * 7 nullable int pointer 8 int3.  form: 0 top level; 1 field; 2 field, count first, size 1; 3 fixed; 4 embedded
 * with room for 8 more; 5 field followed by another field, count size 2; 6 fixed through a pointer; 7 fixed, top level. */
void ladder_seq(Case &c, int n, int kind, int form) {
	if (!n && form >= 6) form = 3;      /* an empty one may be NULL */
	T *e;
	switch (kind) {
	case 1: e = c.a.t(CYAML_INT, 0, 1); break;
	case 2: e = strp(c); break;
	case 3: e = c.a.t(CYAML_STRING, 0, 6); e->smax = 5; break;
	case 4: case 5: { e = c.a.t(CYAML_MAPPING, kind == 5 ? CYAML_FLAG_POINTER : 0); Field f; f.key = "a"; f.t = i4(c); e->fields.push_back(f); f.key = "b"; f.t = strp(c); e->fields.push_back(f); break; }
	case 6: e = c.a.t(CYAML_SEQUENCE_FIXED); e->smin = e->smax = 2; e->entry = i4(c); break;
	case 7: e = i4(c); e->flags |= CYAML_FLAG_POINTER_NULL; break;
	case 8: e = c.a.t(CYAML_INT, 0, 3); break;
	default: e = i4(c);
	}
	bool fixed = form == 3 || form >= 6;
	T *s = c.a.t(fixed ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE, form == 4 || form == 3 ? 0 : CYAML_FLAG_POINTER);
	s->entry = e; s->smax = fixed ? n : form == 4 ? n + 8 : CYAML_UNLIMITED; s->smin = fixed ? n : 0;
	Node q = Node::seq();
	for (int i = 0; i < n; i++) switch (kind) {
	case 1: q.add(Node::sc(fmt("%d", i % 256 - 128))); break;
	case 4: case 5: { Node x = Node::map(); if (i % 2) { x.add("b", Node::sc(fmt("s%d", i))); x.add("a", Node::sc(fmt("%d", i))); } else { x.add("a", Node::sc(fmt("%d", i))); x.add("b", Node::sc(fmt("s%d", i))); } q.add(x); break; }
	case 6: { Node x = Node::seq(); x.add(Node::sc(fmt("%d", i))); x.add(Node::sc(fmt("%d", -i))); q.add(x); break; }
	case 7: q.add(Node::sc(i % 3 == 1 ? "" : fmt("%d", i), i % 3 == 1 ? SINGLE : PLAIN)); break;
	default: q.add(Node::sc(fmt("%d", i)));
	}
	if (form == 0 || form == 7) { c.top = s; c.doc = q; return; }
	T *t = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
	Field f; f.key = "seq"; f.t = s; if (form == 2) { f.cnt_first = true; f.cnt_size = 1; } if (form == 5) f.cnt_size = 2; t->fields.push_back(f);
	c.doc = Node::map(); c.doc.add("seq", q);
	if (form >= 3) { Field g; g.key = "next"; g.t = i4(c); t->fields.push_back(g); c.doc.add("next", Node::sc("-9")); }
}
/* form: 0 top; 1 field pointer; 2 embedded field; 3 as an ignored value and key next to a field; 4 sequence entries */
void ladder_string(Case &c, size_t len, int form) {
	std::string s; for (size_t i = 0; i < len; i++) s += (char)('a' + (i * 7 + i / 64) % 26);
	if (form == 0) { c.top = strp(c); c.doc = Node::sc(s, DOUBLE); return; }
	if (form == 4) {
		T *q = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); q->smax = CYAML_UNLIMITED; q->entry = strp(c);
		c.doc = Node::seq(); for (int i = 0; i < 3; i++) c.doc.add(Node::sc(s, DOUBLE)); return;
	}
	T *t = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
	Field f; f.key = "str";
	if (form == 2) { f.t = c.a.t(CYAML_STRING, 0, (uint32_t)len + 1); f.t->smax = (uint32_t)len; } else f.t = strp(c);
	c.doc = Node::map();
	if (form == 3) { f.key = s.substr(0, 1000); c.cfg = CYAML_CFG_IGNORE_UNKNOWN_KEYS; c.doc.add("other", Node::sc(s, DOUBLE)); }
	t->fields.push_back(f); c.doc.add(f.key, Node::sc(form == 3 ? "x" : s, DOUBLE));
	Field g; g.key = "next"; g.t = i4(c); t->fields.push_back(g); c.doc.add("next", Node::sc("5"));
}

/* n entries of kind (see ladder_seq) without the cost of a tree of schema nodes. */
static void scale_entries(Case &c, int n, int kind, int form) {
	if (kind < 9) { ladder_seq(c, n, kind, form); return; }
	/* 9: enum from a table with n names, the last ones used; 10: flags, 11: bits of such tables; 12: a mapping of which
	 * each entry has an anchor-free optional string */
	T *t;
	Node q = Node::seq();
	switch (kind) {
	case 9: t = c.a.t(CYAML_ENUM, CYAML_FLAG_STRICT, 4); for (int i = 0; i < n; i++) t->strs.push_back({fmt("name%d", i), i * 3 - 7}); for (int i : {n - 1, 0, n / 2, n - 2, n & 255, n & 511}) if (i >= 0 && i < n) q.add(Node::sc(fmt("name%d", i))); break;
	case 10: t = c.a.t(CYAML_FLAGS, CYAML_FLAG_STRICT, 8); for (int i = 0; i < n; i++) t->strs.push_back({fmt("name%d", i), i < 3 ? 1 << i : i + 3 == n ? 8 : i + 2 == n ? 1ll << 40 : i + 1 == n ? 1ll << 62 : 16}); for (int i : {0, n - 1, n - 2, n - 3, 1}) { Node x = Node::seq(); x.add(Node::sc(fmt("name%d", i))); x.add(Node::sc("name2")); q.add(x); } break;
	default: t = c.a.t(CYAML_BITFIELD, 0, 8); for (int i = 0; i < n; i++) t->bits.push_back({fmt("name%d", i), (uint8_t)(i < 3 ? i : i + 2 >= n ? 50 + n - i : 3), 1}); for (int i : {0, n - 1, n - 2, 2}) { Node x = Node::map(); x.add(fmt("name%d", i), Node::sc("1")); q.add(x); } break;
	}
	T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = t; c.doc = q;
	(void)form;
}
/* Entries or fields with n bytes of padding before a string: offsets and sizes past n. */
static void scale_bytes(Case &c, int n, int kind) {
	auto pad = [&]() { T *t = c.a.t(CYAML_STRING, 0, (uint32_t)n); t->smax = (uint32_t)n - 1; return t; };
	auto add = [](T *p, const char *k, T *t) { Field f; f.key = k; f.t = t; p->fields.push_back(f); };
	auto mapping = [&]() { T *p = c.a.t(CYAML_MAPPING); add(p, "pad", pad()); add(p, "s", strp(c)); T *o = i4(c); o->flags |= CYAML_FLAG_OPTIONAL; o->imiss = 0; add(p, "o", o); return p; };
	auto entry = [&](int i) { Node q = Node::map(); q.add("pad", Node::sc(fmt("p%d", i))); q.add("s", Node::sc(fmt("s%d", i))); if (i & 1) q.add("o", Node::sc(fmt("%d", i))); return q; };
	switch (kind) {
	case 0: case 1: case 2: {      /* sequence of big entries: top, embedded fixed, pointers */
		T *e = mapping(); if (kind == 2) e->flags |= CYAML_FLAG_POINTER;
		T *s = c.a.t(kind == 1 ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE, kind == 1 ? 0 : CYAML_FLAG_POINTER); s->entry = e; s->smin = kind == 1 ? 3 : 0; s->smax = kind == 1 ? 3 : CYAML_UNLIMITED;
		Node q = Node::seq(); for (int i = 0; i < 3; i++) q.add(entry(i));
		if (kind != 1) { c.top = s; c.doc = q; return; }
		T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); add(p, "seq", s); add(p, "after", strp(c)); c.doc = Node::map(); c.doc.add("seq", q); c.doc.add("after", Node::sc("x")); return; }
	case 3: { T *p = c.top = mapping(); p->flags |= CYAML_FLAG_POINTER; T *s = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = strp(c); add(p, "list", s);
		T *in = mapping(); add(p, "in", in); T *z = c.a.t(CYAML_SEQUENCE); z->smax = 3; z->entry = c.a.t(CYAML_UINT, 0, 2); add(p, "emb", z);
		c.doc = entry(1); Node q = Node::seq(); q.add(Node::sc("a")); q.add(Node::sc("b")); c.doc.add("list", q); c.doc.add("in", entry(2)); Node e = Node::seq(); e.add(Node::sc("7")); e.add(Node::sc("8")); c.doc.add("emb", e); return; }
	case 4: {      /* strings that fill their room, in entries */
		T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = pad();
		c.doc = Node::seq(); for (int i = 0; i < 3; i++) c.doc.add(Node::sc(std::string((size_t)n - 1 - (size_t)(i & 1), (char)('a' + i)), DOUBLE)); return; }
	default: {     /* fixed in fixed: n is the product of the counts */
		int a = n > 1000 ? 256 : 16, b = n / a + (n % a != 0);
		T *in = c.a.t(CYAML_SEQUENCE_FIXED); in->smin = in->smax = (uint32_t)b; in->entry = c.a.t(CYAML_UINT, 0, 1);
		T *out = c.top = c.a.t(CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER); out->smin = out->smax = (uint32_t)a; out->entry = in;
		c.doc = Node::seq(); for (int i = 0; i < a; i++) { Node q = Node::seq(); for (int k = 0; k < b; k++) q.add(Node::sc(fmt("%d", (i * 7 + k) & 255))); c.doc.add(q); } }
	}
}
/* Names of n bytes: 0 anchors of scalars, 1 of collections, 2 enum, 3 flags, 4 bits, 5 keys.  The names differ only at
 * their end; 6: n anchors of scalars in use at once; 7: n anchored nodes inside an anchored sequence. */
static void scale_names(Case &c, int n, int kind) {
	auto name = [&](int i) { std::string x; for (int k = 0; k + 2 < n; k++) x += (char)('a' + (k * 7 + k / 64) % 26); return x + (char)('0' + i / 10 % 10) + (char)('0' + i % 10); };
	auto add = [](T *p, const std::string &k, T *t) { Field f; f.key = k; f.t = t; p->fields.push_back(f); };
	T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED;
	Node q = Node::seq();
	auto anchored = [](Node x, const std::string &a) { x.anchor = a; return x; };
	switch (kind) {
	case 0: s->entry = strp(c); for (int i : {0, 1, 2}) q.add(anchored(Node::sc(fmt("text%d", i)), name(i))); for (int i : {1, 2, 0, 1}) q.add(Node::alias(name(i))); break;
	case 1: { T *e = s->entry = c.a.t(CYAML_MAPPING); T *l = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); l->smax = CYAML_UNLIMITED; l->entry = strp(c); add(e, "list", l); add(e, "n", i4(c));
		for (int i : {0, 1}) { Node x = Node::map(), y = Node::seq(); y.add(Node::sc(fmt("e%d", i))); y.add(anchored(Node::sc("x"), name(20 + i))); y.anchor = name(10 + i); x.anchor = name(i); x.add("list", y); x.add("n", Node::sc(fmt("%d", i))); q.add(x); }
		q.add(Node::alias(name(1))); q.add(Node::alias(name(0))); Node z = Node::map(); z.add("list", Node::alias(name(11))); z.add("n", Node::sc("9")); q.add(z); break; }
	case 2: { T *e = s->entry = c.a.t(CYAML_ENUM, CYAML_FLAG_STRICT, 4); for (int i = 0; i < 4; i++) e->strs.push_back({name(i), i * 5 - 3}); for (int i : {3, 0, 2, 1}) q.add(Node::sc(name(i))); break; }
	case 3: { T *e = s->entry = c.a.t(CYAML_FLAGS, CYAML_FLAG_STRICT, 4); for (int i = 0; i < 4; i++) e->strs.push_back({name(i), 1 << i * 3}); for (int i : {3, 0}) { Node x = Node::seq(); x.add(Node::sc(name(i))); x.add(Node::sc(name(1))); q.add(x); } break; }
	case 4: { T *e = s->entry = c.a.t(CYAML_BITFIELD, 0, 4); for (int i = 0; i < 4; i++) e->bits.push_back({name(i), (uint8_t)(i * 5), 4}); for (int i : {3, 0}) { Node x = Node::map(); x.add(name(i), Node::sc("9")); x.add(name(1), Node::sc("5")); q.add(x); } break; }
	case 5: { T *e = s->entry = c.a.t(CYAML_MAPPING); for (int i = 0; i < 3; i++) { T *o = i4(c); if (i) o->flags |= CYAML_FLAG_OPTIONAL; add(e, name(i), o); } for (int k = 0; k < 3; k++) { Node x = Node::map(); for (int i : {2, 0, 1}) if (!i || i != k) x.add(name(i), Node::sc(fmt("%d", i + k * 10))); q.add(x); } break; }
	case 6: s->entry = strp(c); for (int i = 0; i < n; i++) q.add(anchored(Node::sc(fmt("t%d", i)), fmt("n%d", i))); for (int i : {0, n - 1, n / 2, n & 255, n - 2}) if (i < n) q.add(Node::alias(fmt("n%d", i))); break;
	default: { T *e = s->entry = c.a.t(CYAML_MAPPING); T *l = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); l->smax = CYAML_UNLIMITED; l->entry = strp(c); add(e, "list", l);
		Node y = Node::seq(); for (int i = 0; i < n; i++) { Node t = Node::sc(fmt("t%d", i)); if (i % 3 == 0) t.anchor = fmt("n%d", i); y.add(i % 7 == 6 ? Node::alias(fmt("n%d", i / 3 * 3 - 3)) : t); if (i % 7 == 6 && i % 3 == 0) y.kids.back() = anchored(Node::sc("r"), fmt("n%d", i)); }
		y.anchor = "all"; Node x = Node::map(), z = Node::map(); x.anchor = "x"; x.add("list", y); z.add("list", Node::alias("all")); q.add(x); q.add(z); q.add(Node::alias("x")); } }
	c.doc = q;
}
struct Scale { int what, n, a, b; };
static const std::vector<Scale> &scale_list() {
	static std::vector<Scale> v;
	if (v.empty()) {
		for (int n : {254, 255, 256, 257, 258, 300}) for (int k = 0; k < DEPTH_KINDS; k++) if (k != 2 && k != 5 && k != 3) v.push_back({0, n, k, 0});
		for (int n : {254, 255, 256, 257, 258, 300, 520}) for (int k = 0; k < FIELD_KINDS; k++) v.push_back({1, n, k, n & 1});
		for (int n : {511, 512, 513, 1025}) for (int k = 0; k < 9; k++) for (int f : {0, 3, 4}) v.push_back({2, n, k, f});
		for (int n : {255, 256, 257, 512, 513, 1025}) for (int k = 0; k < 9; k++) for (int f : {6, 7}) v.push_back({2, n, k, f});
		for (int n : {65535, 65536, 65537}) for (int k : {0, 1}) for (int f : {6, 7}) v.push_back({2, n, k, f});
		for (int n : {65535, 65536, 65537}) for (int k : {0, 1, 2}) v.push_back({2, n, k, 0});
		for (int n : {65536}) for (int k : {1, 4}) for (int f : {3, 4}) v.push_back({2, n, k, f});
		for (int n : {255, 256, 257, 300}) for (int k : {9, 10, 11}) v.push_back({2, n, k, 0});
		for (int n : {255, 256, 257, 65531, 65532, 65535, 65536, 65537, 70000}) for (int k = 0; k < 6; k++) v.push_back({3, n, k, 0});
		for (int n : {15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 512, 900}) for (int k = 0; k < 6; k++) v.push_back({5, n, k, 0});
		for (int n : {32767, 65535, 65536, 65540}) for (int k = 0; k < 4; k++) v.push_back({5, n, k, 0});
		for (int n : {8, 16, 32, 64, 127, 128, 129, 255, 256, 257, 300, 520}) for (int k : {6, 7}) v.push_back({5, n, k, 0});
		for (int n : {65534, 65535, 65536, 65537, 200000}) for (int k = 0; k < STRING_FORMS; k++) v.push_back({4, n, k, 0});
	}
	return v;
}
int scale_kind(int i) { const Scale &s = scale_list()[(size_t)i]; return s.what == 2 && s.a >= 9 ? 5 : s.what == 5 ? 6 : s.what; }
int scales() { return (int)scale_list().size(); }
void ladder_scale(Case &c, int i) {
	const Scale &s = scale_list()[(size_t)i];
	switch (s.what) {
	case 0: ladder_depth(c, s.n, s.a); break;
	case 1: ladder_fields(c, s.n, s.a, s.b); break;
	case 2: scale_entries(c, s.n, s.a, s.b); break;
	case 3: scale_bytes(c, s.n, s.a); break;
	case 5: scale_names(c, s.n, s.a); break;
	default: ladder_string(c, (size_t)s.n, s.a);
	}
}
}
