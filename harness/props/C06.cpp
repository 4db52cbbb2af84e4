#include "../common.hpp"
using namespace md;
using namespace com;

static void body(mc::Ctx &m, const gen::Opt &o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok()) m.prune();
	verify_load(m, c);
}
/* A pool of fields of all kinds with defaults; every subset present. */
static T *pool(gen::Case &c, int k, bool def, Node &v) {
	auto N = [](const char *s) { return Node::sc(s); };
	auto opt = [&](T *t) { t->flags |= CYAML_FLAG_OPTIONAL; return t; };
	T *t, *e; Field f;
	switch (k) {
	case 0: t = c.a.t(CYAML_INT, 0, 8); if (def) t->imiss = INT64_MIN; v = N("-7"); return opt(t);
	case 1: t = c.a.t(CYAML_UINT, CYAML_FLAG_POINTER, 3); if (def) t->umiss = 0xFFFEFD; v = N("7"); return opt(t);
	case 2: t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->smax = CYAML_UNLIMITED; if (def) { t->has_smiss = true; t->smiss = "a default"; } v = N("given"); return opt(t);
	case 3: t = c.a.t(CYAML_STRING, 0, 12); t->smax = 11; if (def) { t->has_smiss = true; t->smiss = "elevenchars"; } v = N("given"); return opt(t);
	case 4: t = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); t->smax = CYAML_UNLIMITED; t->entry = e = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); e->smax = CYAML_UNLIMITED;
		if (def) { t->has_miss = true; t->miss = Val::seq(); t->miss.v = {Val::str("d0"), Val::str("d1"), Val::str("")}; }
		v = Node::seq(); v.add(N("g")); return opt(t);
	case 5: t = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); f.key = "x"; f.t = c.a.t(CYAML_INT, 0, 2); t->fields.push_back(f);
		f.key = "s"; f.t = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); f.t->smax = CYAML_UNLIMITED; f.t->entry = c.a.t(CYAML_INT, CYAML_FLAG_POINTER, 4); f.cnt_size = 1; t->fields.push_back(f);
		if (def) { Val q = Val::seq(); q.v = {Val::num(1), Val::num(2)}; t->has_miss = true; t->miss = Val::map(); t->miss.v = {Val::num(9), q}; }
		v = Node::map(); v.add("x", N("3")); { Node q = Node::seq(); q.add(N("4")); v.add("s", q); } return opt(t);
	case 6: t = c.a.t(CYAML_SEQUENCE_FIXED); t->smin = t->smax = 2; t->entry = c.a.t(CYAML_UINT, 0, 2); if (def) { t->has_miss = true; t->miss = Val::seq(); t->miss.v = {Val::num(0x1234), Val::num(0x5678)}; }
		v = Node::seq(); v.add(N("1")); v.add(N("2")); return opt(t);
	case 7: t = c.a.t(CYAML_MAPPING); f.key = "y"; f.t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); f.t->smax = CYAML_UNLIMITED; t->fields.push_back(f);
		if (def) { t->has_miss = true; t->miss = Val::map(); t->miss.v = {Val::str("deep")}; }
		v = Node::map(); v.add("y", N("z")); return opt(t);
	case 8: t = c.a.t(CYAML_FLOAT, 0, 4); if (def) t->fmiss = 0.1; v = N("0.5"); return opt(t);
	case 9: t = c.a.t(CYAML_BOOL, CYAML_FLAG_POINTER_NULL, 2); if (def) t->bmiss = true; v = N("no"); return opt(t);
	case 10: t = c.a.t(CYAML_ENUM, 0, 2); t->strs = {{"a", 1}, {"b", -2}}; if (def) t->imiss = -2; v = N("a"); return opt(t);
	case 11: t = c.a.t(CYAML_FLAGS, 0, 4); t->strs = {{"a", 1}, {"b", 0x80000000ll}}; if (def) t->umiss = 0x80000001; v = Node::seq(); return opt(t);
	case 12: t = c.a.t(CYAML_BITFIELD, CYAML_FLAG_POINTER, 8); t->bits = {{"a", 0, 63}, {"b", 63, 1}}; if (def) t->umiss = ~0ull; v = Node::map(); v.add("a", N("5")); return opt(t);
	default: t = c.a.t(CYAML_SEQUENCE, 0); t->smax = 4; t->entry = c.a.t(CYAML_UINT, 0, 1); if (def) { t->has_miss = true; t->miss = Val::seq(); t->miss.v = {Val::num(7), Val::num(8), Val::num(9)}; }
		v = Node::seq(); v.add(N("1")); return opt(t);
	}
}
static const int POOL = 14;
static void subsets(mc::Ctx &m) {
	int def = m.pick(3);                    /* none, all, alternating */
	int from = m.pick(POOL);
	const int n = m.thorough ? 10 : 7;
	int mask = m.pick(1 << n), wrap = m.pick(3), rev = m.pick(2);
	m.commit();
	gen::Case c;
	T *p = c.a.t(CYAML_MAPPING); p->fields.resize(n);
	Node d = Node::map(); std::vector<Node> v(n);
	for (int i = 0; i < n; i++) {
		Field &f = p->fields[i]; f.key = mc::fmt("f%d", i); f.gap = (uint8_t)(i % 3); f.cnt_size = (uint8_t)(i % 8 + 1);
		f.t = pool(c, (from + i) % POOL, def == 1 || (def == 2 && i % 2), v[i]);
	}
	p->reverse = rev;
	for (int i = 0; i < n; i++) { int j = rev ? n - 1 - i : i; if (mask >> j & 1) d.add(p->fields[j].key, v[j]); }
	if (wrap == 0) { p->flags |= CYAML_FLAG_POINTER; c.top = p; c.doc = d; }
	else if (wrap == 1) {                   /* two entries with complementary subsets */
		T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = p;
		Node e = Node::map(); for (int i = 0; i < n; i++) if (!(mask >> i & 1)) e.add(p->fields[i].key, v[i]);
		c.doc = Node::seq(); c.doc.add(d); c.doc.add(e);
	} else {                                /* nested, with an absent optional sibling after it */
		T *o = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); o->fields.resize(2); Node x;
		p->flags |= CYAML_FLAG_POINTER;
		o->fields[0].key = "in"; o->fields[0].t = p; o->fields[1].key = "sib"; o->fields[1].t = pool(c, from, true, x);
		c.doc = Node::map(); c.doc.add("in", d);
	}
	gen::finish(m, c);
	if (!c.ref.ok()) m.fail("harness: case must conform");
	verify_load(m, c);
}
/* One absent (or one present) field at every index of mappings of every size. */
static void by_index(mc::Ctx &m) {
	int n = 1 + m.pick(m.thorough ? 140 : 70), at = m.pick(n), how = m.pick(3);
	m.commit();
	gen::Case c;
	T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize(n); c.doc = Node::map();
	for (int i = 0; i < n; i++) {
		Field &f = p->fields[i]; f.key = mc::fmt("f%d", i); Node v;
		f.t = pool(c, i % POOL, true, v); f.cnt_size = (uint8_t)(i % 8 + 1);
		if (how == 2 && i != at && i % 2) f.t->flags &= ~(unsigned)CYAML_FLAG_OPTIONAL;
		bool present = how == 1 ? i == at : how == 0 ? i != at : i != at;
		if (present) c.doc.add(f.key, v);
	}
	gen::finish(m, c);
	verify_load(m, c);
}
/* Default values themselves: every size, boundary and indirection. */
static void values(mc::Ctx &m) {
	int type = m.pick(7); uint32_t size = 1 + (uint32_t)m.pick(8); int k = m.pick(65), d = m.pick(3) - 1, neg = m.pick(2), ind = m.pick(4), nested = m.pick(2);
	int lim = type == 6 || type == 5 ? 0 : m.pick(2);     /* limits and tables are about documents: a default may be outside them */
	static const unsigned I[] = {0, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR};
	__int128 v = (k == 64 ? 0 : p2(k)) + d; if (neg) v = -v;
	__int128 hi = p2(size * 8) - 1, shi = p2(size * 8 - 1) - 1;
	gen::Case c; T *t;
	switch (type) {
	case 0: case 1: if (v > shi || v < -shi - 1) m.prune(); t = c.a.t(type ? CYAML_ENUM : CYAML_INT, 0, size); t->imiss = (int64_t)v; if (type) t->strs = {{"a", 1}}; break;
	case 2: case 3: case 4: if (v < 0 || v > hi) m.prune(); t = c.a.t(type == 2 ? CYAML_UINT : type == 3 ? CYAML_FLAGS : CYAML_BITFIELD, 0, size); t->umiss = (uint64_t)v; if (type == 3) t->strs = {{"a", 1}}; if (type == 4) t->bits = {{"a", 0, 1}}; break;
	case 5: if (size != 4 && size != 8) m.prune(); t = c.a.t(CYAML_FLOAT, 0, size); t->fmiss = (double)v / 3; if (size == 4) t->fmiss = (float)t->fmiss; break;
	default: if (k || d) m.prune(); t = c.a.t(CYAML_BOOL, 0, size); t->bmiss = neg; break;
	}
	if (lim && type == 0) { if (v == shi) { t->imin = -1; t->imax = 0; if (v == 0) m.prune(); } else { t->imin = (int64_t)v + 1; t->imax = (int64_t)shi; } }
	else if (lim && type == 2) { if (v == hi) { t->umin = 0; t->umax = (uint64_t)v - 1; if (v <= 1) m.prune(); } else { t->umin = (uint64_t)v + 1; t->umax = (uint64_t)hi; } }
	else if (lim && type == 4) m.prune();
	else if (lim) t->flags |= CYAML_FLAG_STRICT;
	m.commit();
	t->flags |= I[ind] | CYAML_FLAG_OPTIONAL;
	T *p = c.a.t(CYAML_MAPPING); p->fields.resize(3);
	p->fields[0].key = "b"; p->fields[0].t = c.a.t(CYAML_UINT, 0, 1);
	p->fields[1].key = "v"; p->fields[1].t = t;
	p->fields[2].key = "a"; p->fields[2].t = c.a.t(CYAML_UINT, 0, 1);
	c.doc = Node::map(); c.doc.add("b", Node::sc("1")); c.doc.add("a", Node::sc("2"));
	if (nested) { T *s = c.a.t(CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER); s->smin = s->smax = 2; s->entry = p; Node q = Node::seq(); q.add(c.doc); q.add(c.doc); c.top = s; c.doc = q; }
	else { p->flags |= CYAML_FLAG_POINTER; c.top = p; }
	gen::finish(m, c);
	verify_load(m, c);
}
/* Defaults at places and of sizes around 256 and 65536. */
static void scaled(mc::Ctx &m) {
	static const int N[] = {255, 256, 257, 300, 513}; static const int BIG[] = {255, 256, 257, 65535, 65536, 65537};
	gen::Case c; int kind = m.pick(3);
	if (kind == 0) {                /* one absent (or present) of many */
		int n = N[m.pick(5)], how = m.pick(2), a = m.pick(7); m.commit();
		int at = a == 0 ? 0 : a == 1 ? 63 : a == 2 ? 64 : a == 3 ? 254 : a == 4 ? 255 : a == 5 ? 256 : n - 1;
		T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize((size_t)n); c.doc = Node::map();
		for (int i = 0; i < n; i++) { Field &f = p->fields[i]; f.key = mc::fmt("f%d", i); Node v; f.t = pool(c, i % POOL, true, v); f.cnt_size = (uint8_t)(i % 8 + 1); if (how ? i == at : i != at) c.doc.add(f.key, v); }
	} else if (kind == 1) {         /* a default of many entries, or of a long string */
		int n = BIG[m.pick(6)], what = m.pick(5); bool deep = m.pick(2); uint8_t cs = m.pick(2) ? 8 : n > 65535 ? 3 : n > 255 ? 2 : 1; m.commit();
		T *t, *p = c.a.t(CYAML_MAPPING); p->fields.resize(3);
		p->fields[0].key = "b"; p->fields[0].t = c.a.t(CYAML_UINT, 0, 1); p->fields[2].key = "a"; p->fields[2].t = c.a.t(CYAML_UINT, CYAML_FLAG_OPTIONAL, 1); p->fields[2].t->umiss = 77;
		if (what < 3) {
			t = c.a.t(what == 1 ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE, what == 2 ? 0 : CYAML_FLAG_POINTER); t->smin = what == 1 ? (uint32_t)n : 0; t->smax = what ? (uint32_t)n + (what == 2) : CYAML_UNLIMITED; t->entry = c.a.t(CYAML_UINT, 0, 2);
			t->has_miss = true; t->miss = Val::seq(); for (int i = 0; i < n; i++) t->miss.v.push_back(Val::num((uint64_t)(i * 7 & 0xffff)));
		} else { t = c.a.t(CYAML_STRING, what == 3 ? CYAML_FLAG_POINTER : 0, what == 3 ? 1 : (uint32_t)n + 1); t->smax = what == 3 ? CYAML_UNLIMITED : (uint32_t)n; t->has_smiss = true; for (int i = 0; i < n; i++) t->smiss += (char)('a' + i % 26); }
		t->flags |= CYAML_FLAG_OPTIONAL; p->fields[1].key = "v"; p->fields[1].t = t; p->fields[1].cnt_size = cs;
		c.doc = Node::map(); c.doc.add("b", Node::sc("1"));
		if (deep) { T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = p; Node q = Node::seq(); q.add(c.doc); q.add(c.doc); c.doc = q; } else { p->flags |= CYAML_FLAG_POINTER; c.top = p; }
	} else {                        /* many entries that lack a field, and such fields far into a structure */
		int n = BIG[m.pick(6)], what = m.pick(2), k = m.pick(POOL); m.commit();
		if (n > 60000 && !what && k) m.prune();
		Node v; T *p = c.a.t(CYAML_MAPPING); p->fields.resize(3);
		p->fields[0].key = "pad"; p->fields[0].t = c.a.t(what ? CYAML_STRING : CYAML_UINT, 0, what ? (uint32_t)n : 1); p->fields[0].t->smax = what ? (uint32_t)n - 1 : 0; if (what) p->fields[0].t->smin = 0; else p->fields[0].t->umax = 255;
		p->fields[1].key = "v"; p->fields[1].t = pool(c, k, true, v); p->fields[1].cnt_size = 2;
		p->fields[2].key = "w"; p->fields[2].t = pool(c, (k + 5) % POOL, true, v);
		Node d = Node::map(); d.add("pad", Node::sc("1"));
		T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = p; c.doc = Node::seq();
		for (int i = 0; i < (what ? 2 : n); i++) c.doc.add(d);
	}
	gen::finish(m, c);
	if (!c.ref.ok()) m.fail("harness: case must conform: %s", describe(*c.top).substr(0, 500).c_str());
	verify_load(m, c);
}
/* Strings and sequences as defaults, from empty ones on. */
static void small(mc::Ctx &m) {
	static const char *const S[] = {"", "a", "~", "null", " ", "x y", "\xc3\xa9", "1234567", "line\n"};
	int seq = m.pick(3), k = m.pick(9), ind = m.pick(4), room = m.pick(3), nested = m.pick(2), lim = m.pick(3), cs = 1 + m.pick(8);   /* lim 2: fewer entries than documents may have */
	static const unsigned I[] = {0, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR};
	if ((!seq && cs > 1) || (lim == 2 && (!seq || room == 0))) m.prune();
	m.commit();
	gen::Case c; T *t;
	if (!seq) {
		std::string s = S[k]; uint32_t l = (uint32_t)s.size();
		t = c.a.t(CYAML_STRING, I[ind], ind ? 1 : l + 1 + (uint32_t)room); t->smin = lim ? l : 0; t->smax = ind ? (room ? CYAML_UNLIMITED : l) : l + (uint32_t)room;
		t->has_smiss = true; t->smiss = s;
	} else {
		if (k > 4 || (!ind && room == 2)) m.prune();
		t = c.a.t(CYAML_SEQUENCE, I[ind]); t->smax = ind && room == 2 ? CYAML_UNLIMITED : (uint32_t)(k + room + (k + room == 0)); t->smin = lim == 2 ? (uint32_t)k + 1 : lim ? (uint32_t)k : 0;
		T *e = t->entry = seq == 1 ? c.a.t(CYAML_UINT, 0, 3) : c.a.t(CYAML_STRING, CYAML_FLAG_POINTER_NULL, 1); if (seq == 2) e->smax = CYAML_UNLIMITED;
		t->has_miss = true; t->miss = Val::seq(); for (int i = 0; i < k; i++) t->miss.v.push_back(seq == 1 ? Val::num((uint64_t)i * 77777) : i == 1 ? Val::nul() : Val::str(S[i]));
	}
	t->flags |= CYAML_FLAG_OPTIONAL;
	T *p = c.a.t(CYAML_MAPPING); p->fields.resize(3);
	p->fields[0].key = "b"; p->fields[0].t = c.a.t(CYAML_UINT, 0, 1);
	p->fields[1].key = "v"; p->fields[1].t = t; p->fields[1].cnt_size = (uint8_t)cs;
	p->fields[2].key = "a"; p->fields[2].t = c.a.t(CYAML_UINT, CYAML_FLAG_OPTIONAL, 1); p->fields[2].t->umiss = 9;
	c.doc = Node::map(); c.doc.add("b", Node::sc("1"));
	if (nested) { T *s = c.a.t(CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER); s->smin = s->smax = 2; s->entry = p; Node q = Node::seq(); q.add(c.doc); q.add(c.doc); c.top = s; c.doc = q; }
	else { p->flags |= CYAML_FLAG_POINTER; c.top = p; }
	gen::finish(m, c);
	verify_load(m, c);
}
static void build(std::vector<mc::Family> &f, bool) {
	{ gen::Opt o; o.nodes = 4; o.min_nodes = 2; o.all_optional = true; o.default_defaults = true; o.vary_style = false; o.vary_cfg = false; o.vary_order = false;
	  f.push_back({"shapes with defaults", "every schema tree of 2..4 nodes with every field optional and defaulted; absence, profile, indirection, layout within the bound", [o](mc::Ctx &m) { body(m, o); }, 2, 3}); }
	{ gen::Opt o; o.nodes = 4; o.min_nodes = 2; o.all_optional = true; o.vary_style = false; o.vary_cfg = false; o.vary_order = false;
	  f.push_back({"shapes without defaults", "the same, fields optional and without default", [o](mc::Ctx &m) { body(m, o); }, 2, 3}); }
	f.push_back({"subsets", "mappings of 7 (10) consecutive fields of a pool of 14 kinds: every subset present x defaults none/all/alternate x flat, in sequence entries, nested", subsets, 0, 0});
	f.push_back({"index", "mappings of 1..70 (140) fields: one absent, one present, one absent among required, at every index", by_index, 0, 0});
	f.push_back({"strings and sequences", "default strings (9) and sequences of 0..4 entries x 4 indirections x limits (for sequences also ones the default is below) x count sizes 1..8, flat and in a fixed sequence", small, 0, 0});
	f.push_back({"scale", "mappings of 255..513 fields with one absent or present, default collections and strings of 255..65537, fields at offsets and in sequences of such numbers", scaled, 0, 0});
	f.push_back({"values", "default values +-2^k + d for 7 types x sizes 1..8 x 4 indirections x no limits / limits or strict tables that exclude the default, flat and in a fixed sequence", values, 0, 0});
}
const mc::Prop mc::PROP = {"C06", "A case is a schema with optional fields and a document omitting some; the loaded memory is compared with the defaults the schema gives.", build};
