#include "../common.hpp"
using namespace md;
using com::place; using com::PLACES; using com::present; using com::PRESENTATIONS;

/* The library accepts exactly what the reference accepts, and names one of the violations present. */
static void check(mc::Ctx &m, gen::Case &c) {
	if (c.ref.unspecified) { m.count("behaviour not documented"); m.prune(); }
	env::Cfg cfg(c.cfg);
	env::LoadRes r = env::load(m, cfg, c.s, c.text);
	std::string want;
	for (int e : c.ref.errs) want += std::string(want.empty() ? "" : " or ") + (e == ANY_ERR ? "an error" : env::ename(e));
	if (c.ref.ok()) {
		if (r.err != CYAML_OK) m.fail("conforming document rejected: %s", env::ename(r.err));
		check_loaded(m, cfg.heap, *c.top, c.ref.v, r.data, r.count, "load", 0);
		if (r.data) env::release(m, cfg, c.s, r.data, r.count);
		m.count("accepted");
	} else {
		if (r.err == CYAML_OK) m.fail("accepted, although the document does not conform (%s)", want.c_str());
		if (!c.ref.errs.count(r.err) && !c.ref.errs.count(ANY_ERR)) m.fail("rejected with %s instead of %s", env::ename(r.err), want.c_str());
		m.count("rejected");
	}
	if (m.tracing()) m.note("result: %s\n", env::ename(r.err));
	m.outcome(c.text); m.outcome((uint64_t)r.err); m.outcome(c.a.hash());
}
static void body(mc::Ctx &m, const gen::Opt &o) { gen::Case c; gen::make(m, c, o); check(m, c); }

/* Large mappings: drop, repeat or replace any one field, at every size. */
static void fields(mc::Ctx &m, bool thorough) {
	static const int sizes[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129};
	int n = thorough ? 1 + m.pick(140) : sizes[m.pick(17)];
	int kind = m.pick(3), what = m.pick(6), at = m.pick(n);
	m.commit();
	gen::Case c;
	gen::ladder_fields(c, n, kind == 2 ? 5 : kind, m.pick(3));
	if (kind == 1 && what == 5) m.prune();
	int j = -1;
	std::string key = c.top->fields[at].key;
	for (size_t i = 0; i < c.doc.kids.size(); i += 2) if (c.doc.kids[i].s == key) j = (int)i;
	if (j < 0) m.prune();
	auto &k = c.doc.kids;
	switch (what) {
	case 0: k.erase(k.begin() + j, k.begin() + j + 2); break;
	case 1: k.push_back(Node::sc(key)); k.push_back(k[j + 1]); break;
	case 2: { std::vector<Node> two = {k[j], k[j + 1]}; k.insert(k.begin(), two.begin(), two.end()); break; }
	case 3: k[j].s += "0"; if (at * 10 < n && at) m.prune(); break;
	case 4: k[j + 1] = Node::sc("zz"); break;
	case 5: k.erase(k.begin() + j, k.begin() + j + 2); c.top->fields[at].t->flags |= CYAML_FLAG_OPTIONAL; break;
	}
	gen::finish(m, c);
	if (m.tracing()) m.note("%s", c.show().substr(0, 3000).c_str());
	check(m, c);
}
/* Deep documents with one violation at a given level. */
static void deep(mc::Ctx &m) {
	int d = 1 + m.pick(24), kind = m.pick(gen::DEPTH_KINDS), at = m.pick(d + 1), what = m.pick(5);
	m.commit();
	gen::Case c;
	gen::ladder_depth(c, d, kind);
	Node *n = &c.doc;
	for (int i = 0; i < at; i++) { Node *q = nullptr; for (auto it = n->kids.rbegin(); it != n->kids.rend(); ++it) if (!it->kids.empty() || it->s == "77") { q = &*it; break; } if (!q) m.prune(); n = q; }
	switch (what) {
	case 0: *n = Node::sc("zz"); break;
	case 1: *n = Node::seq(); break;
	case 2: *n = Node::map(); break;
	case 3: if (n->kids.empty()) m.prune(); if (n->k == Node::MAP) n->add("unknown", Node::sc("1")); else n->kids.push_back(n->kids[0]); break;
	case 4: if (n->kids.empty()) m.prune(); if (n->k == Node::MAP) { n->kids.pop_back(); n->kids.pop_back(); } else n->kids.pop_back(); break;
	}
	c.style = m.choose(2);
	gen::finish(m, c);
	if (m.tracing()) m.note("%s", c.show().substr(0, 3000).c_str());
	check(m, c);
}
/* Numbers of entries against every limit and storage form. */
static void counts(mc::Ctx &m) {
	int n = m.pick(7), min = m.pick(5), max = min + m.pick(4), kind = m.pick(gen::SEQ_KINDS), form = m.pick(gen::SEQ_FORMS);
	m.commit();
	gen::Case c;
	bool fixed = form == 3 || form >= 6;
	if (fixed && max == 0) m.prune();
	gen::ladder_seq(c, n, kind, form);
	T *s = c.top->type == CYAML_MAPPING ? c.top->fields[0].t : c.top;
	s->smin = (uint32_t)min; s->smax = (uint32_t)max;
	if (fixed) { if (max != min && m.pick(2)) s->smax = s->smin; if (!s->smax) m.prune(); }
	if (form == 4 && !max) m.prune();
	gen::finish(m, c);
	if (m.tracing()) m.note("%s", c.show().c_str());
	check(m, c);
}
/* One violation in a case of large scale. */
static void walk(Node &n, std::vector<Node *> &leaves, std::vector<Node *> &maps, std::vector<Node *> &seqs) {
	if (n.k == Node::SCALAR) leaves.push_back(&n);
	if (n.k == Node::MAP) { maps.push_back(&n); for (size_t i = 1; i < n.kids.size(); i += 2) walk(n.kids[i], leaves, maps, seqs); }
	if (n.k == Node::SEQ) { seqs.push_back(&n); for (auto &x : n.kids) walk(x, leaves, maps, seqs); }
}
static void scaled(mc::Ctx &m) {
	int i = m.pick(gen::scales()), what = m.pick(10), at = m.pick(5);
	m.commit();
	gen::Case c; gen::ladder_scale(c, i);
	std::vector<Node *> l, ms, ss; walk(c.doc, l, ms, ss);
	auto sel = [&](size_t n) -> long { long k = at == 0 ? 0 : at == 1 ? (long)n - 1 : at == 2 ? 255 : at == 3 ? 256 : 65536; return k < (long)n && (at == 0 || k > 0) ? k : -1; };
	size_t deep = (size_t)(at == 0 ? 0 : 1);
	switch (what) {
	case 0: case 1: case 2: { long k = sel(l.size()); if (k < 0) m.prune(); *l[(size_t)k] = what == 0 ? Node::sc("zz") : what == 1 ? Node::seq() : Node::map(); break; }
	case 3: { if (ms.empty() || at > 1) m.prune(); ms[deep ? ms.size() - 1 : 0]->add("unknown", Node::sc("1")); break; }
	case 4: case 5: {        /* a field dropped, or stated twice, in the largest mapping */
		Node *b = nullptr; for (auto *x : ms) if (!b || x->kids.size() > b->kids.size()) b = x;
		if (!b) m.prune();
		long k = sel(b->kids.size() / 2); if (k < 0) m.prune();
		if (what == 4) b->kids.erase(b->kids.begin() + 2 * k, b->kids.begin() + 2 * k + 2);
		else { Node a = b->kids[(size_t)k * 2], v = b->kids[(size_t)k * 2 + 1]; b->kids.push_back(a); b->kids.push_back(v); }
		break; }
	default: {               /* limits at and beyond the number of entries */
		if (at > 1 || ss.empty()) m.prune();
		T *t = c.top; Node *n = &c.doc;
		if (t->type == CYAML_MAPPING) { size_t f = 0; while (f < t->fields.size() && !t->fields[f].t->is_seq()) f++; if (f == t->fields.size()) m.prune(); t = t->fields[f].t; for (size_t k = 0; k < n->kids.size(); k += 2) if (n->kids[k].s == c.top->fields[f].key) { n = &n->kids[k + 1]; break; } }
		if (t->type != CYAML_SEQUENCE && t->type != CYAML_SEQUENCE_FIXED) m.prune();
		if (n->k != Node::SEQ || n->kids.size() < 2) m.prune();
		uint32_t k = (uint32_t)n->kids.size();
		if (t->type == CYAML_SEQUENCE_FIXED) { if (what > 7) m.prune(); if (what == 6) n->kids.pop_back(); else n->kids.push_back(n->kids[0]); break; }
		bool emb = !t->ptr();
		switch (what) { case 6: t->smax = k - 1; if (at) t->smax = k >= 512 ? k - 256 : 255 < k ? 255 : 1; break; case 7: t->smin = k + 1; t->smax = k + 256; break; case 8: t->smin = t->smax = k; break; default: t->smin = at ? k & 255 : k - 1; t->smax = k; }
		if (emb && t->smax < k) m.prune();
	} }
	gen::finish(m, c);
	if (m.tracing()) m.note("%s", c.show().substr(0, 3000).c_str());
	check(m, c);
}
/* Lengths of strings, counted in bytes, against limits of any width. */
static void lengths(mc::Ctx &m) {
	static const uint32_t L[] = {0, 1, 2, 3, 5, 6, 0x7f, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
	static const char *const CH[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "\n"};
	static const int N[] = {0, 1, 2, 3, 4, 5, 6, 7, 126, 127, 128, 254, 255, 256, 257, 65535, 65536, 65537};
	uint32_t min = L[m.pick(16)], max = L[m.pick(16)]; int n = N[m.pick(18)], ch = m.pick(6), form = m.pick(5), pos = m.pick(3) * 2, opt = m.pick(2);
	if (min > max || (form == 0 && max > 0x10001) || (n > 1000 && (ch || pos)) || (opt && pos != 2)) m.prune();
	m.commit();
	static const unsigned F[] = {0, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR, CYAML_FLAG_POINTER};
	gen::Case c; T *t = c.a.t(CYAML_STRING, F[form], form == 0 ? max + 1 : 1); t->smin = min; t->smax = max;
	if (opt) t->flags |= CYAML_FLAG_OPTIONAL;
	std::string x, y; for (int i = 0; i < n; i++) x += CH[ch];
	if (form == 4) x += "a"; 
	y = std::string(min < 70000 ? min : 3, 'z');
	place(c, t, Node::sc(x, DOUBLE), Node::sc(y, DOUBLE), pos);
	gen::finish(m, c);
	if (m.tracing()) m.note("%s", c.show().substr(0, 3000).c_str());
	check(m, c);
}
/* Every kind of node for every kind of value, in every style, with tags and anchors. */
static void presented(mc::Ctx &m) {
	int k = m.pick(gen::profiles()), what = m.pick(8), how = m.pick(PRESENTATIONS), pos = m.pick(PLACES);
	m.commit();
	gen::Case c; T *t = gen::leaf(c.a, k); auto &tx = gen::texts(*t, k);
	Node n, sib = tx.good.empty() ? Node::sc("1") : tx.good[0];
	switch (what) {
	case 0: n = sib; break;
	case 1: if (tx.bad.empty()) m.prune(); n = tx.bad[0]; break;
	case 2: n = Node::seq(); break;
	case 3: n = Node::map(); break;
	case 4: n = Node::seq(); n.add(sib); break;
	case 5: n = Node::map(); n.add("x", sib); break;
	case 6: n = Node::sc(""); break;
	default: n = Node::sc("x"); break;
	}
	present(m, n, how);
	place(c, t, n, sib, pos);
	gen::finish(m, c);
	if (m.tracing()) m.note("%s", c.show().substr(0, 3000).c_str());
	check(m, c);
}
static void build(std::vector<mc::Family> &f, bool thorough) {
	{ gen::Opt o; o.nodes = 2; o.leaf_free = true; o.invalid = true;
	  f.push_back({"one leaf, all forms", "schema trees of up to 2 nodes: every leaf profile x indirection x valid and invalid text; other choices and violations within the bound", [o](mc::Ctx &m) { body(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = 4; o.invalid = true;
	  f.push_back({"shapes", "every schema tree of up to 4 nodes; violations (missing, repeated, unknown key, complex key, wrong kind, bad value, wrong count) at every position and all other choices within the bound", [o](mc::Ctx &m) { body(m, o); }, 2, 3}); }
	{ gen::Opt o; o.nodes = 5; o.min_nodes = 5; o.invalid = true;
	  f.push_back({"larger shapes", "every schema tree of 5 nodes, choices and violations within the bound", [o](mc::Ctx &m) { body(m, o); }, 1, 2}); }
	f.push_back({"fields", "mappings of up to 129 fields, any one field dropped, repeated, misnamed or given a bad value", [thorough](mc::Ctx &m) { fields(m, thorough); }, 0, 0});
	f.push_back({"depth", "1..24 nested collections of 6 kinds, one violation at every level", deep, 1, 1});
	f.push_back({"counts", "0..6 entries x min 0..4 x max x 9 entry kinds x 6 storage forms", counts, 0, 0});
	f.push_back({"string lengths", "strings of 18 lengths up to 65537 over characters of 1..4 bytes x every min <= max of 16 values up to 2^32 - 1 x 5 storage forms x 3 places", lengths, 0, 0});
	f.push_back({"presentations", "every leaf profile x 8 nodes of every kind, valid or not, x 5 styles x 7 tags x anchored or not x 7 places", presented, 0, 0});
	f.push_back({"scale", "counts, sizes, offsets, tables and depths around 256, 512 and 65536, with a bad value, kind, key or count at the first, 255th, 256th, 65536th or last place", scaled, 0, 0});
}
const mc::Prop mc::PROP = {"C02", "A case is a schema, a document, its presentation and a configuration; the reference model gives the set of violations, and the library must accept iff it is empty and otherwise report a member.", build};
