#include "../common.hpp"
using namespace md;
using namespace com;

static T *entry(gen::Case &c, int kind, Node &base) {
	T *e; Field f;
	switch (kind) {
	case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: e = c.a.t(CYAML_UINT, 0, (uint32_t)kind + 1); base = Node::sc("1"); return e;
	case 8: e = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); e->smax = CYAML_UNLIMITED; base = Node::sc("s"); return e;
	case 9: e = c.a.t(CYAML_STRING, 0, 7); e->smax = 6; base = Node::sc("s"); return e;
	case 10: case 11: case 12:
		e = c.a.t(CYAML_MAPPING, kind == 10 ? 0 : kind == 11 ? CYAML_FLAG_POINTER : CYAML_FLAG_POINTER_NULL);
		f.key = "v"; f.t = c.a.t(CYAML_UINT, 0, 2); e->fields.push_back(f);
		base = Node::map(); base.add("v", Node::sc("1")); return e;
	case 13: e = c.a.t(CYAML_SEQUENCE_FIXED); e->smin = e->smax = 3; e->entry = c.a.t(CYAML_UINT, 0, 2); base = Node::seq(); for (int i = 0; i < 3; i++) base.add(Node::sc("1")); return e;
	case 14: e = c.a.t(CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER); e->smin = e->smax = 2; e->entry = c.a.t(CYAML_UINT, 0, 1); base = Node::seq(); for (int i = 0; i < 2; i++) base.add(Node::sc("1")); return e;
	case 15: e = c.a.t(CYAML_MAPPING); f.key = "s"; f.t = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); f.t->smax = CYAML_UNLIMITED; f.t->entry = c.a.t(CYAML_UINT, 0, 4); f.cnt_size = 1; e->fields.push_back(f);
		base = Node::map(); { Node q = Node::seq(); q.add(Node::sc("1")); base.add("s", q); } return e;
	case 16: e = c.a.t(CYAML_FLAGS, 0, 2); e->strs = {{"a", 1}}; base = Node::seq(); base.add(Node::sc("1")); return e;
	default: e = c.a.t(CYAML_UINT, CYAML_FLAG_POINTER_NULL, 3); base = Node::sc("1"); return e;
	}
}
static const int ENTRIES = 18;
static void number(Node &n, int v, int kind) {
	if (kind == 15) { Node &q = n.kids[1]; q.kids.clear(); for (int k = 0; k < v % 4; k++) q.add(Node::sc(mc::fmt("%d", v + k))); return; }
	if (n.k == Node::SCALAR) { if (n.s != "v" && n.s != "s") n.s = mc::fmt("%d", v); else if (n.s == "s") n.s += mc::fmt("%d", v); return; }
	for (size_t i = 0; i < n.kids.size(); i++) if (!(n.k == Node::MAP && i % 2 == 0)) number(n.kids[i], v, kind);
}
/* forms: 0 pointer 1 pointer nullable 2 embedded (limit max) 3 fixed embedded 4 fixed pointer */
static void exact(mc::Ctx &m) {
	int kind = m.pick(ENTRIES), form = m.pick(5), n = m.pick(m.thorough ? 9 : 6), min = m.pick(4), span = m.pick(5), csize = 1 + m.pick(8), top = m.pick(2);
	bool first = m.pick(2);
	if (top && (form == 2 || form == 3)) m.prune();
	if ((top || form >= 3) && (csize != 4 || first)) m.prune();
	uint32_t max = span == 4 ? CYAML_UNLIMITED : (uint32_t)(min + span);
	if (form >= 3 && (span > 1 || max == 0)) m.prune();
	if (form == 2 && (span == 4 || max == 0)) m.prune();
	m.commit();
	gen::Case c;
	Node base; T *e = entry(c, kind, base);
	T *s = c.a.t(form >= 3 ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE, form == 1 ? CYAML_FLAG_POINTER_NULL : form == 0 || form == 4 ? CYAML_FLAG_POINTER : 0);
	s->entry = e; s->smin = (uint32_t)min; s->smax = max;
	Node q = Node::seq();
	for (int i = 0; i < n; i++) { Node x = base; number(x, 10 + i, kind); q.add(x); }
	if (top) { c.top = s; c.doc = q; }
	else {
		T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
		p->fields.resize(3);
		p->fields[0].key = "b"; p->fields[0].t = c.a.t(CYAML_UINT, 0, 1);
		p->fields[1].key = "seq"; p->fields[1].t = s; p->fields[1].cnt_size = (uint8_t)csize; p->fields[1].cnt_first = first;
		p->fields[2].key = "a"; p->fields[2].t = c.a.t(CYAML_UINT, 0, 1);
		c.doc = Node::map(); c.doc.add("b", Node::sc("1")); c.doc.add("seq", q); c.doc.add("a", Node::sc("2"));
	}
	gen::finish(m, c);
	verify_load(m, c);
}
/* Limits of any width against a few entries. */
static void wide(mc::Ctx &m) {
	static const uint32_t L[] = {0, 1, 2, 3, 4, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu};
	uint32_t min = L[m.pick(21)], max = L[m.pick(21)]; int n = m.pick(6), form = m.pick(5), kind = m.pick(3), top = m.pick(2), save = m.pick(2);
	if (min > max || (form >= 3 && (min != max || !max || max > 0x10001)) || (form == 2 && (!max || max > 0x101))) m.prune();
	if (top && (form == 2 || form == 3)) m.prune();
	static const int K[] = {0, 8, 12};
	m.commit();
	gen::Case c; Node base; T *e = entry(c, K[kind], base);
	T *s = c.a.t(form >= 3 ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE, form == 1 ? CYAML_FLAG_POINTER_NULL : form == 0 || form == 4 ? CYAML_FLAG_POINTER : 0);
	s->entry = e; s->smin = min; s->smax = max;
	Node q = Node::seq(); for (int i = 0; i < n; i++) { Node x = base; number(x, 10 + i, K[kind]); q.add(x); }
	if (top) { c.top = s; c.doc = q; }
	else { T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize(1); p->fields[0].key = "seq"; p->fields[0].t = s; c.doc = Node::map(); c.doc.add("seq", q); }
	gen::finish(m, c);
	if (!save) { verify_load(m, c); return; }
	if (form >= 3 || (form == 2 && (uint32_t)n > max)) m.prune();
	Val one; { Node x = base; one = ref_load(*e, &x, 0).v; }
	Val v = Val::seq(); for (int i = 0; i < n; i++) v.v.push_back(one);
	if (!n && top) m.prune();
	if (!top) { Val w = Val::map(); w.v = {v}; v = w; }
	verify_save(m, c, v, lengths_ok(*c.top, v));
}
/* Counts past the range of the count member. */
static void narrow(mc::Ctx &m) {
	static const int N[] = {0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 513, 768, 32767, 32768, 65534, 65535, 65536, 65537, 65792, 131072};
	int n = N[m.pick(m.thorough ? 20 : 18)], csize = 1 + m.pick(8), form = m.pick(4), kind = m.pick(n > 1000 ? 2 : 4), nested = m.pick(2), again = m.pick(3);
	if (n > 1000 && (again || csize > 4)) m.prune();
	if (n > 1000 && nested && kind) m.prune();
	m.commit();
	gen::Case c;
	static const int K[] = {0, 2, 8, 14};
	Node base; T *e = entry(c, K[kind], base);
	T *s = c.a.t(CYAML_SEQUENCE, form == 2 ? 0 : CYAML_FLAG_POINTER); s->entry = e;
	s->smax = form == 0 ? CYAML_UNLIMITED : (uint32_t)(n + (form == 1 ? 0 : form == 2 ? 3 : -1));
	if (form == 3 && !n) m.prune();
	if (!s->smax) m.prune();
	Node q = Node::seq(); for (int i = 0; i < n; i++) q.add(base);
	T *p = c.a.t(CYAML_MAPPING); p->fields.resize(1 + again);
	Node d = Node::map();
	for (int i = 0; i <= again; i++) {
		Field &f = p->fields[i]; f.key = mc::fmt("s%d", i); f.cnt_size = (uint8_t)csize; f.cnt_first = i & 1;
		if (i == again) { f.t = s; d.add(f.key, q); }
		else { Node b2; T *e2 = entry(c, 3, b2); f.t = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); f.t->entry = e2; f.t->smax = CYAML_UNLIMITED; Node x = Node::seq(); for (int k = 0; k < 3 + i; k++) x.add(b2); d.add(f.key, x); }
	}
	if (nested) {
		T *o = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); o->smax = CYAML_UNLIMITED; o->entry = p;
		Node e0 = d; e0.kids.back() = Node::seq();
		c.doc = Node::seq(); c.doc.add(e0); c.doc.add(d); c.doc.add(e0);
	} else { p->flags |= CYAML_FLAG_POINTER; c.top = p; c.doc = d; }
	gen::finish(m, c);
	verify_load(m, c);
}
/* A variable-length sequence directly in a sequence, at any depth, however it is stored. */
static void nested(mc::Ctx &m) {
	int depth = 1 + m.pick(4), at = m.pick(depth + 1), ind = m.pick(2), outer = m.pick(2), wrap = m.pick(2), n = m.pick(3);
	m.commit();
	gen::Case c;
	/* depth containers around; at 'at' (counted from inside) a sequence sits where a fixed one would do. */
	T *t = c.a.t(CYAML_UINT, 0, 2); Node d = Node::sc("3");
	for (int i = 0; i < depth; i++) {
		bool var = i == at || (i == depth - 1 && outer);
		T *s = c.a.t(var ? CYAML_SEQUENCE : CYAML_SEQUENCE_FIXED, (ind || i == depth - 1) ? CYAML_FLAG_POINTER : 0);
		s->entry = t; s->smin = var ? 0 : 2; s->smax = 2;
		Node q = Node::seq(); int k = var ? n : 2; for (int j = 0; j < k; j++) q.add(d);
		t = s; d = q;
	}
	if (wrap) {
		T *p = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); Field f; f.key = "w"; f.t = t; p->fields.push_back(f);
		Node q = Node::map(); q.add("w", d); t = p; d = q;
	}
	c.top = t; c.doc = d;
	gen::finish(m, c);
	verify_load(m, c);
}
static void several(mc::Ctx &m) {
	int k = 2 + m.pick(2), csize = m.pick(5);
	static const int CS[] = {4, 1, 2, 8, 3};
	int n[3], kd[3], perm = m.pick(2);
	for (int i = 0; i < k; i++) { n[i] = m.pick(4); kd[i] = m.pick(4); }
	m.commit();
	static const int K[] = {3, 8, 10, 14};
	gen::Case c;
	T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize(k); c.doc = Node::map();
	std::vector<Node> q(k);
	for (int i = 0; i < k; i++) {
		Field &f = p->fields[i]; Node base; f.t = c.a.t(CYAML_SEQUENCE, i == 1 ? 0 : CYAML_FLAG_POINTER); f.t->entry = entry(c, K[kd[i]], base); f.t->smax = i == 1 ? 3 : CYAML_UNLIMITED;
		f.key = mc::fmt("s%d", i); f.cnt_size = (uint8_t)CS[csize]; f.cnt_first = i == 2;
		q[i] = Node::seq(); for (int j = 0; j < n[i]; j++) { Node x = base; number(x, i * 10 + j, K[kd[i]]); q[i].add(x); }
	}
	for (int i = 0; i < k; i++) { int j = perm ? k - 1 - i : i; c.doc.add(p->fields[j].key, q[j]); }
	gen::finish(m, c);
	verify_load(m, c);
}
static void growth(mc::Ctx &m) {
	int n = m.pick(m.thorough ? 400 : 70), k = m.pick(gen::SEQ_KINDS), o = m.pick(gen::SEQ_FORMS);
	if (o == 3 && n == 0) m.prune();
	m.commit();
	gen::Case c;
	gen::ladder_seq(c, n, k, o);
	gen::finish(m, c);
	verify_load(m, c);
}
/* A sequence left out of the document gets its default entries, and their number. */
static void defaulted(mc::Ctx &m) {
	int n = m.pick(7), max = m.pick(4), form = m.pick(2), k = m.pick(4), csize = 1 + m.pick(8), first = m.pick(2), nested = m.pick(2), given = m.pick(3), sib = m.pick(2);
	if (form && max == 0) m.prune();                       /* embedded: needs a limit */
	m.commit();
	static const int K[] = {3, 8, 10, 14};
	gen::Case c; Node base; T *e = entry(c, K[k], base);
	T *s = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_OPTIONAL | (form ? 0 : CYAML_FLAG_POINTER)); s->entry = e; s->smax = max == 0 ? CYAML_UNLIMITED : (uint32_t)(n + max - 1);
	if (!s->smax) m.prune();
	T *p = c.a.t(CYAML_MAPPING); p->fields.resize(sib ? 2 : 1);
	Field &f = p->fields[0]; f.key = "s"; f.t = s; f.cnt_size = (uint8_t)csize; f.cnt_first = first;
	Val one; { Node q = base; gen::Case x; x.top = e; x.doc = q; one = ref_load(*e, &q, 0).v; }
	s->has_miss = n > 0; s->miss = Val::seq(); for (int i = 0; i < n; i++) s->miss.v.push_back(one);
	if (!n && form) s->has_miss = false;
	Node d = Node::map();
	if (given) { Node q = Node::seq(); for (int i = 0; i < given - 1 && i < (int)s->smax; i++) q.add(base); d.add("s", q); }
	if (sib) { Field &g = p->fields[1]; g.key = "t"; Node b2; g.t = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); g.t->entry = entry(c, 3, b2); g.t->smax = CYAML_UNLIMITED; Node q = Node::seq(); for (int i = 0; i < 4; i++) q.add(b2); d.add("t", q); }
	if (nested) {
		T *o = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); o->smax = CYAML_UNLIMITED; o->entry = p;
		Node x = d; if (given) { x.kids.erase(x.kids.begin(), x.kids.begin() + 2); } else { Node q = Node::seq(); for (int i = 0; i < 2 && i < (int)s->smax; i++) q.add(base); x.add("s", q); }
		c.doc = Node::seq(); c.doc.add(d); c.doc.add(x); c.doc.add(d);
	} else { p->flags |= CYAML_FLAG_POINTER; c.top = p; c.doc = d; }
	gen::finish(m, c);
	verify_load(m, c);
}
static void build(std::vector<mc::Family> &f, bool) {
	f.push_back({"limits", "0..5 (8) entries x min 0..3 x max x 18 entry kinds x 5 storage forms x count sizes 1..8 x count position, top level and field", exact, 0, 0});
	f.push_back({"wide limits", "every min <= max of 21 values up to 2^32 - 1 x 0..5 entries x 5 storage forms x 3 entry kinds, top level and field, loaded and saved", wide, 0, 0});
	f.push_back({"narrow counts", "20 counts up to 131072 x limits none, n, n+3, n-1 x count sizes 1..8 x storage, one or several sequences in a mapping, alone or in sequence entries", narrow, 0, 0});
	f.push_back({"nested", "nests of up to 4 sequences, variable ones at any level", nested, 0, 0});
	f.push_back({"several", "2 and 3 sequences in one mapping x 0..3 entries each x 4 entry kinds x count sizes", several, 0, 0});
	f.push_back({"growth", "every count up to 69 (399) x 9 entry kinds x 6 storage forms", growth, 0, 0});
	f.push_back({"defaults", "optional sequences with 0..6 default entries x limit none, n, n+1, n+2 x storage x 4 entry kinds x count sizes 1..8, omitted or given, in one mapping or in sequence entries", defaulted, 0, 0});
	f.push_back({"scale", SCALE, [](mc::Ctx &m) { gen::Case c; scale(m, c); verify_load(m, c); }, 0, 0});
}
const mc::Prop mc::PROP = {"C05", "A case is a sequence schema and a document with a number of entries; entries, count and verdict are compared with the reference.", build};
