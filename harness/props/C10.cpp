#include "../common.hpp"
using namespace md;
using namespace com;

static Node N(const std::string &s, int style = PLAIN) { return Node::sc(s, style); }
static const int TYPES = 15;
/* Value of each type: schema, a document and the value. */
static T *type(gen::Case &c, int k, Node &n, Val &v) {
	T *t; Field f;
	switch (k) {
	case 0: n = N("-5"); v = Val::num(0xfffb); return c.a.t(CYAML_INT, 0, 2);
	case 1: n = N("5"); v = Val::num(5); return c.a.t(CYAML_UINT, 0, 8);
	case 2: n = N("yes"); v = Val::num(1); return c.a.t(CYAML_BOOL, 0, 1);
	case 3: n = N("0.5"); v = Val::num(0x3f000000); return c.a.t(CYAML_FLOAT, 0, 4);
	case 4: t = c.a.t(CYAML_ENUM, 0, 4); t->strs = {{"x", 0}, {"null", 3}, {"~", 4}, {"", 5}, {"given", 6}}; n = N("given"); v = Val::num(6); return t;
	case 5: t = c.a.t(CYAML_STRING, 0, 9); t->smax = 8; n = N("given"); v = Val::str("given"); return t;
	case 6: t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->smax = CYAML_UNLIMITED; n = N("given"); v = Val::str("given"); return t;
	case 7: t = c.a.t(CYAML_FLAGS, 0, 2); t->strs = {{"a", 1}}; n = Node::seq(); n.add(N("a")); v = Val::num(1); return t;
	case 8: t = c.a.t(CYAML_BITFIELD, 0, 4); t->bits = {{"a", 0, 4}}; n = Node::map(); n.add("a", N("3")); v = Val::num(3); return t;
	case 9: t = c.a.t(CYAML_MAPPING); f.key = "m"; f.t = c.a.t(CYAML_INT, CYAML_FLAG_OPTIONAL, 1); t->fields.push_back(f); n = Node::map(); n.add("m", N("1")); v = Val::map(); v.v = {Val::num(1)}; return t;
	case 10: t = c.a.t(CYAML_SEQUENCE_FIXED); t->smin = t->smax = 2; t->entry = c.a.t(CYAML_UINT, 0, 1); n = Node::seq(); n.add(N("1")); n.add(N("2")); v = Val::seq(); v.v = {Val::num(1), Val::num(2)}; return t;
	case 11: t = c.a.t(CYAML_SEQUENCE, 0); t->smax = 3; t->entry = c.a.t(CYAML_UINT, 0, 1); n = Node::seq(); n.add(N("1")); v = Val::seq(); v.v = {Val::num(1)}; return t;
	case 12: t = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); t->smax = CYAML_UNLIMITED; t->entry = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER_NULL, 1); t->entry->smax = CYAML_UNLIMITED; n = Node::seq(); n.add(N("")); n.add(N("x")); v = Val::seq(); v.v = {Val::nul(), Val::str("x")}; return t;
	case 13: t = c.a.t(CYAML_MAPPING); f.key = "m"; f.t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER_NULL_STR, 1); f.t->smax = CYAML_UNLIMITED; t->fields.push_back(f); n = Node::map(); n.add("m", N("null")); v = Val::map(); v.v = {Val::nul()}; return t;
	default: t = c.a.t(CYAML_MAPPING); n = Node::map(); v = Val::map(); return t;
	}
}
static const unsigned IND[] = {0, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR};
static bool legal(const T &t) { return t.ptr() || t.type != CYAML_SEQUENCE || t.smax != CYAML_UNLIMITED; }

static void load(mc::Ctx &m) {
	static const char *const TX[] = {"", "~", "null", "Null", "NULL", "nULL", "NUll", "nul", "nulls", " null", "~~", "0", "given", nullptr, nullptr, nullptr};
	int k = m.pick(TYPES), ind = m.pick(4), pos = m.pick(PLACES), tx = m.pick(16), st = m.pick(3), opt = m.pick(3), cfg = m.pick(2);
	if (tx >= 13 && st) m.prune();
	if (opt && !(pos == 1 || pos == 2 || pos == 6)) m.prune();
	m.commit();
	gen::Case c; Node n, sib; Val v;
	T *t = type(c, k, sib, v); t->flags |= IND[ind];
	if (opt) t->flags |= CYAML_FLAG_OPTIONAL;
	if (opt == 2) { switch (t->type) { case CYAML_INT: case CYAML_ENUM: t->imiss = 3; break; case CYAML_STRING: t->has_smiss = true; t->smiss = "dflt"; break; default: t->umiss = 3; if (t->type == CYAML_MAPPING || t->is_seq()) { t->has_miss = true; t->miss = v; } } }
	if (tx < 13) n = N(TX[tx], st == 0 ? PLAIN : st == 1 ? SINGLE : DOUBLE);
	else if (tx == 13) n = sib;
	else n = tx == 14 ? Node::seq() : Node::map();
	place(c, t, n, sib, pos);
	if (!legal(*t)) m.prune();
	if (pos == 3 || pos == 5 || pos == 4) if (t->type == CYAML_SEQUENCE) m.prune();
	c.cfg = cfg ? CYAML_CFG_CASE_INSENSITIVE : 0;
	gen::finish(m, c);
	verify_load(m, c);
}
/* The texts in every style, with tags and anchors; and collections and given values likewise. */
static void presented(mc::Ctx &m) {
	static const char *const TX[] = {"", "~", "null", "Null", "NULL", "nULL", "nulls", "null ", "~\n", "null\n"};
	int k = m.pick(TYPES), ind = m.pick(4), pos = m.pick(PLACES), tx = m.pick(13), how = m.pick(PRESENTATIONS);
	m.commit();
	gen::Case c; Node n, sib; Val v;
	T *t = type(c, k, sib, v); t->flags |= IND[ind];
	n = tx < 10 ? N(TX[tx]) : tx == 10 ? sib : tx == 11 ? Node::seq() : Node::map();
	present(m, n, how);
	place(c, t, n, sib, pos);
	if (!legal(*t)) m.prune();
	if (pos == 3 || pos == 5 || pos == 4) if (t->type == CYAML_SEQUENCE) m.prune();
	gen::finish(m, c);
	verify_load(m, c);
}
/* Save and copy of a value that is NULL or not, everywhere, for every declared nullability. */
static void saved(mc::Ctx &m) {
	int k = m.pick(TYPES), ind = m.pick(4), pos = m.pick(PLACES), opt = m.pick(3), nul = m.pick(2), cfgi = m.pick(3), op = m.pick(2);
	if (opt && !(pos == 1 || pos == 2 || pos == 6)) m.prune();
	m.commit();
	gen::Case c; Node sib; Val v;
	T *t = type(c, k, sib, v); t->flags |= IND[ind];
	if (opt) t->flags |= CYAML_FLAG_OPTIONAL;
	if (opt == 2) { switch (t->type) { case CYAML_INT: case CYAML_ENUM: t->imiss = 3; break; case CYAML_STRING: t->has_smiss = true; t->smiss = "dflt"; break; case CYAML_FLOAT: t->fmiss = 2; break; case CYAML_BOOL: t->bmiss = true; break; default: t->umiss = 3; if (t->type == CYAML_MAPPING || t->is_seq()) { t->has_miss = true; t->miss = v; } } }
	if (t->type == CYAML_SEQUENCE && (pos == 0 || pos == 3 || pos == 4 || pos == 5)) m.prune();
	/* Build first as present, so that the placement's flags are in force, then make it NULL. */
	Val top = place_val(c, t, v, pos);
	if (!legal(*t)) m.prune();
	if (nul) {
		if (!t->ptr() || pos == 0) m.prune();
		switch (pos) { case 1: case 2: top.v[1] = Val::nul(); break; case 3: case 5: top.v[1] = Val::nul(); break; case 4: top.v[0].v[0] = Val::nul(); break; default: top.v[1].v[0] = Val::nul(); }
	}
	static const unsigned CF[] = {0, CYAML_CFG_STYLE_FLOW, CYAML_CFG_STYLE_BLOCK | CYAML_CFG_DOCUMENT_DELIM};
	c.cfg = CF[cfgi];
	c.s = lower(c.a, *c.top);
	if (m.tracing()) m.note("%s", c.show().c_str());
	m.outcome(c.a.hash());
	if (op == 0) verify_save(m, c, top); else verify_copy(m, c, top);
}
/* Several nullable members: every pattern of NULLs through load, save and copy. */
static void patterns(mc::Ctx &m) {
	const int n = 5;
	int from = m.pick(TYPES), fl = m.pick(4), mask = m.pick(1 << n), how = m.pick(3), seq = m.pick(2);
	m.commit();
	gen::Case c;
	T *p = c.a.t(CYAML_MAPPING); p->fields.resize(n); Val v = Val::map(); Node d = Node::map();
	for (int i = 0; i < n; i++) {
		Field &f = p->fields[i]; Node x; Val y; f.key = mc::fmt("f%d", i); f.t = type(c, (from + i) % TYPES, x, y); f.cnt_size = (uint8_t)(1 + i % 8);
		unsigned k = (fl + (fl == 3 ? i : 0)) % 4;
		f.t->flags |= k == 0 ? CYAML_FLAG_POINTER_NULL : k == 1 ? CYAML_FLAG_POINTER_NULL_STR : k == 2 ? CYAML_FLAG_POINTER_NULL | CYAML_FLAG_OPTIONAL : CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL;
		bool nul = mask >> i & 1;
		if (nul) { y = Val::nul(); if (k == 3) { v.v.push_back(y); continue; } x = N(""); }
		v.v.push_back(y); d.add(f.key, x);
	}
	if (seq) { T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = p; p->flags |= CYAML_FLAG_POINTER_NULL; Val q = Val::seq(); q.v = {v, Val::nul(), v}; v = q; Node e = Node::seq(); e.add(d); e.add(N("")); e.add(d); d = e; }
	else { p->flags |= CYAML_FLAG_POINTER; c.top = p; }
	c.doc = d;
	gen::finish(m, c);
	if (m.tracing()) m.note("%s", c.show().c_str());
	m.outcome(c.a.hash());
	if (how == 0) { if (!c.ref.ok()) m.fail("harness: must conform"); verify_load(m, c); }
	else if (how == 1) verify_save(m, c, v);
	else verify_copy(m, c, v);
}
/* Any shape, any pointer in the data made NULL, saved and copied. */
static void shapes(mc::Ctx &m, const gen::Opt &o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || c.ref.v.k == Val::NUL || c.ref.v.k == Val::ZERO) m.prune();
	Val v = c.ref.v;
	std::vector<At> at; pointers(*c.top, v, at);
	if (at.size() > 1) {
		for (int i = 0; i < 2; i++) {
			int k = m.choose((int)at.size());
			if (!k) break;
			*at[k].v = Val::nul();
			at.clear(); pointers(*c.top, v, at);
			if (at.size() < 2) break;
		}
	}
	if (c.top->type == CYAML_SEQUENCE && v.v.empty()) m.prune();
	int op = m.pick(2);
	m.outcome(c.a.hash()); m.outcome(c.text);
	if (op) verify_save(m, c, v, lengths_ok(*c.top, v)); else verify_copy(m, c, v);
}
/* Many nullable members or entries, of which one, all but one, or every other is NULL. */
static void scaled(mc::Ctx &m) {
	static const int SZ[] = {254, 255, 256, 257, 300, 513, 65535, 65536, 65537};
	int n = SZ[m.pick(9)], seq = m.pick(2), pat = m.pick(4), k = m.pick(TYPES), op = m.pick(3), fl = m.pick(3);
	if (!seq && n > 1000) m.prune();
	if (n > 1000 && (fl || k % 5)) m.prune();
	m.commit();
	gen::Case c; Node x; Val y; auto null = [&](int i) { return pat == 0 ? i == n - 1 : pat == 1 ? i != n - 1 : pat == 2 ? i % 2 == 0 : i == (n > 1000 ? n - 2 : 255); };
	static const unsigned F[] = {CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR, CYAML_FLAG_POINTER_NULL | CYAML_FLAG_OPTIONAL};
	Val v;
	if (seq) {
		T *t = type(c, k, x, y); t->flags |= F[fl] & ~(unsigned)CYAML_FLAG_OPTIONAL;
		if (t->type == CYAML_SEQUENCE) m.prune();
		T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = t;
		c.doc = Node::seq(); v = Val::seq(); for (int i = 0; i < n; i++) { c.doc.add(null(i) ? N("") : x); v.v.push_back(null(i) ? Val::nul() : y); }
	} else {
		T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize((size_t)n); c.doc = Node::map(); v = Val::map();
		for (int i = 0; i < n; i++) { Field &f = p->fields[i]; f.key = mc::fmt("f%d", i); f.t = type(c, (k + i) % TYPES, x, y); f.t->flags |= F[fl]; f.cnt_size = 4; c.doc.add(f.key, null(i) ? N("") : x); v.v.push_back(null(i) ? Val::nul() : y); }
	}
	gen::finish(m, c);
	m.outcome(c.a.hash());
	if (op == 0) { if (!c.ref.ok()) m.fail("harness: must conform"); verify_load(m, c); }
	else if (op == 1) verify_save(m, c, v);
	else verify_copy(m, c, v);
}
/* Texts that begin or end like a null but are longer: around every length modulo 256 and 65536 that a null has. */
static void longer(mc::Ctx &m) {
	static const int LEN[] = {2, 3, 4, 5, 8, 16, 17, 20, 32, 64, 255, 256, 257, 258, 259, 260, 261, 512, 513, 516, 517, 1024, 65536, 65537, 65540};
	static const char *const P[] = {"~", "null", "Null", "NULL", "", " "};
	int n = LEN[m.pick(25)], p = m.pick(6), fill = m.pick(5), ind = 1 + m.pick(3), k = m.pick(3), pos = m.pick(2) * 2 + 1, back = m.pick(2);
	std::string x = P[p]; if ((size_t)n < x.size() + (fill > 2)) m.prune();
	m.commit();
	static const char F[] = {'~', 'l', ' ', '~', 'z'};
	std::string pad((size_t)n - x.size(), F[fill]);
	if (fill == 3) { pad.clear(); while (x.size() + pad.size() < (size_t)n) pad += P[p][0] ? P[p] : "null"; pad.resize((size_t)n - x.size()); }
	x = back ? pad + x : x + pad;
	gen::Case c; Node sib; Val v;
	T *t = type(c, k == 0 ? 6 : k == 1 ? 0 : 4, sib, v); t->flags |= IND[ind];
	place(c, t, Node::sc(x, DOUBLE), sib, pos);
	gen::finish(m, c);
	verify_load(m, c);
}
static void build(std::vector<mc::Family> &f, bool) {
	f.push_back({"load", "15 value types x 4 indirections x 7 places x 16 texts x 3 scalar styles x required / optional / with default", load, 0, 0});
	f.push_back({"presentations", "15 value types x 4 indirections x 7 places x 13 values x 5 styles x 7 tags x anchored or not", presented, 0, 0});
	f.push_back({"longer texts", "texts of 25 lengths 2..65540 that begin or end like a null x fillings x 3 types x 3 indirections x 2 places", longer, 0, 0});
	f.push_back({"save and copy", "15 value types x 4 indirections x 7 places x NULL or not x required / optional / with default x 3 configurations", saved, 0, 0});
	f.push_back({"patterns", "5 members of consecutive types x nullabilities x every pattern of NULLs, alone and in sequences with a NULL entry, loaded, saved and copied", patterns, 0, 0});
	f.push_back({"scale", "mappings of 254..513 nullable fields and sequences of 254..65537 nullable entries of 15 types, one, all but one or every other NULL; loaded, saved and copied", scaled, 0, 0});
	{ gen::Opt o; o.nodes = 4; o.min_nodes = 2; o.vary_style = false; o.vary_text = false; o.vary_order = false; o.vary_names = false; o.vary_cfg = false;
	  f.push_back({"shapes", "every schema tree of 2..4 nodes with conforming data; up to two pointers made NULL at any place, indirections and other choices within the bound, then saved and copied", [o](mc::Ctx &m) { shapes(m, o); }, 2, 3}); }
}
const mc::Prop mc::PROP = {"C10", "A case is a schema with pointer values and a document or data with NULLs; outcome, text and memory are compared with the reference's nullability rules.", build};
