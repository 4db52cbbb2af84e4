#include "../junk.hpp"
#include <algorithm>
using namespace md;
using namespace com;
using namespace jk;

static void run(mc::Ctx &m, gen::Case &c, const Ref &base, bool unknown) {
	c.text = gen::render_style(c.doc, c.style);
	/* The reference for the document with the extra content must agree with the one without, or the model is wrong. */
	Ref with = ref_load(*c.top, &c.doc, c.cfg);
	bool ignoring = c.cfg & CYAML_CFG_IGNORE_UNKNOWN_KEYS;
	c.ref = base;
	if (c.cfg & CYAML_CFG_NO_ALIAS) c.ref = with;
	if (unknown && !ignoring) c.ref.errs.insert(CYAML_ERR_INVALID_KEY);
	if (!(with.errs.empty() == c.ref.errs.empty())) m.fail("harness: reference disagrees with itself");
	verify_load(m, c);
}
static bool is_unknown(gen::Case &c) {
	std::vector<Site> s; sites(*c.top, c.doc, c.cfg, s);
	for (auto &x : s) for (size_t i = 0; i < x.n->kids.size(); i += 2) { bool k = false; for (auto &f : x.t->fields) if (x.n->kids[i].k != Node::SCALAR || name_eq(*x.t, c.cfg, f.key, x.n->kids[i].s)) k = true; if (!k) return true; }
	return false;
}
static void body(mc::Ctx &m, const gen::Opt &o, int insertions, bool free_choice) {
	gen::Case c;
	static const unsigned CF[] = {CYAML_CFG_IGNORE_UNKNOWN_KEYS, 0, CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_IGNORED_KEY_WARNING, CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_CASE_INSENSITIVE, CYAML_CFG_CASE_INSENSITIVE};
	unsigned cfg = CF[m.choose(5)];
	gen::Opt o2 = o; o2.fixed_cfg = true; o2.cfg = cfg;
	gen::make(m, c, o2);
	if (c.ref.unspecified) m.prune();
	Ref base = c.ref;
	for (int i = 0; i < insertions; i++) { if (i && !m.choose(2)) break; if (!put(m, c, free_choice && !i)) m.prune(); }
	run(m, c, base, is_unknown(c));
}
/* The same ignored or unknown key again and again, between the others. */
static void repeated(mc::Ctx &m) {
	int n = 1 + m.pick(m.thorough ? 70 : 36), at = m.pick(n), times = 1 + m.pick(3), where = m.pick(3), ign = m.pick(2), j = m.pick(m.thorough ? JUNK : 4) * (m.thorough ? 1 : 4) + (m.thorough ? 0 : n % 4), same = m.pick(2);
	m.commit();
	gen::Case c;
	gen::ladder_fields(c, n, 0, 0);
	if (ign) c.top->fields[at].t = c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL);
	c.cfg = ign ? 0 : CYAML_CFG_IGNORE_UNKNOWN_KEYS;
	Node d = c.doc;
	if (ign) d.kids.erase(d.kids.begin() + at * 2, d.kids.begin() + at * 2 + 2);
	c.doc = d;
	Ref base = ref_load(*c.top, &c.doc, c.cfg);
	size_t p = where == 0 ? 0 : where == 1 ? c.doc.kids.size() / 4 * 2 : c.doc.kids.size();
	for (int i = 0; i < times; i++) {
		Node k = N(ign ? c.top->fields[at].key : same ? "junk" : mc::fmt("junk%d", i));
		c.doc.kids.insert(c.doc.kids.begin() + p, junk((j + i) % JUNK, "key0")); c.doc.kids.insert(c.doc.kids.begin() + p, k);
		if (where == 1 && p + 2 < c.doc.kids.size()) p += 2;
	}
	c.s = lower(c.a, *c.top);
	run(m, c, base, !ign);
}
/* Deep and wide ignored values, at every depth of a nest. */
static void big(mc::Ctx &m) {
	int d = 1 + m.pick(m.thorough ? 20 : 9), kind = m.pick(gen::DEPTH_KINDS), shape = m.pick(5), size = m.pick(8);
	static const int S[] = {0, 1, 15, 16, 17, 33, 100, 1000};
	int n = S[size]; bool ign = m.pick(2);
	if (n > 100 && (d > 2 || shape >= 3)) m.prune();
	m.commit();
	gen::Case c;
	gen::ladder_depth(c, d, kind);
	c.cfg = ign ? CYAML_CFG_IGNORE_UNKNOWN_KEYS : 0;
	Ref base = ref_load(*c.top, &c.doc, c.cfg);
	Node v = N("1");
	switch (shape) {
	case 0: v = Node::seq(); for (int i = 0; i < n; i++) v.add(N("x")); break;
	case 1: v = Node::map(); for (int i = 0; i < n; i++) v.add(mc::fmt("d%d", i), N("x")); break;
	case 2: for (int i = 0; i < std::min(n, 120); i++) { Node q = Node::seq(); q.flow = true; q.add(v); v = q; } break;
	case 3: for (int i = 0; i < n; i++) { Node q = Node::map(); q.flow = true; q.add(mc::fmt("d%d", i % 3), v); v = q; } break;
	default: v = Node::seq(); for (int i = 0; i < n; i++) { Node q = Node::map(); q.add("d0", Node::seq()); q.kids[1].add(Node::map()); v.add(q); }
	}
	std::vector<Site> s; sites(*c.top, c.doc, c.cfg, s);
	if (s.empty()) m.prune();
	for (auto &x : s) { bool last = &x == &s.back(); (void)last; }
	/* innermost mapping: the last site */
	Site &x = s[s.size() - 1];
	x.n->kids.insert(x.n->kids.begin(), v); x.n->kids.insert(x.n->kids.begin(), N("junk"));
	c.s = lower(c.a, *c.top);
	run(m, c, base, true);
}
/* Ignored values nested to a depth around the sizes of counters, and ignored values in cases of that scale. */
static void deep(mc::Ctx &m) {
	static const int S[] = {126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513};
	int n = S[m.pick(15)], shape = m.pick(5), where = m.pick(3), ign = m.pick(2);
	m.commit();
	gen::Case c;
	gen::ladder_fields(c, 4, 0, 0);
	if (ign) c.top->fields[1].t = c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL);
	c.cfg = ign ? 0 : CYAML_CFG_IGNORE_UNKNOWN_KEYS;
	if (ign) c.doc.kids.erase(c.doc.kids.begin() + 2, c.doc.kids.begin() + 4);
	Ref base = ref_load(*c.top, &c.doc, c.cfg);
	Node v = N("1");
	for (int i = 0; i < n; i++) {
		Node q = (shape == 0 || (shape == 2 && i % 2)) ? Node::seq() : Node::map(); q.flow = true;
		if (shape == 3) { q.kids.push_back(v); q.kids.push_back(N("x")); }                     /* nested keys */
		else if (shape == 4) { q.add("a", Node::seq()); q.kids.back().flow = true; q.add("key2", v); q.add("key1", N("y")); }
		else if (q.k == Node::SEQ) q.add(v); else q.add(i % 2 ? "key1" : "d", v);
		v = q;
	}
	size_t p = where == 0 ? 0 : where == 1 ? 2 : c.doc.kids.size();
	c.doc.kids.insert(c.doc.kids.begin() + p, v); c.doc.kids.insert(c.doc.kids.begin() + p, N(ign ? c.top->fields[1].key : "junk"));
	c.s = lower(c.a, *c.top);
	run(m, c, base, !ign);
}
static void scaled(mc::Ctx &m) {
	int i = m.pick(gen::scales()), where = m.pick(2);
	m.commit();
	gen::Case c; gen::ladder_scale(c, i);
	c.cfg |= CYAML_CFG_IGNORE_UNKNOWN_KEYS;
	Ref base = ref_load(*c.top, &c.doc, c.cfg);
	std::vector<Site> s; sites(*c.top, c.doc, c.cfg, s);
	if (s.empty()) m.prune();
	Site &x = s[where ? s.size() - 1 : 0];
	for (size_t k = 0; k < 2; k++) { size_t p = k ? x.n->kids.size() : 0; x.n->kids.insert(x.n->kids.begin() + p, junk(k ? 8 : 5, "key0")); x.n->kids.insert(x.n->kids.begin() + p, N(k ? "junk1" : "junk2")); }
	c.s = lower(c.a, *c.top);
	run(m, c, base, true);
}
static void build(std::vector<mc::Family> &f, bool) {
	{ gen::Opt o; o.nodes = 4; o.min_nodes = 2; o.invalid = true; o.vary_style = true; o.vary_limits = false;
	  f.push_back({"insertions", "every schema tree of 2..4 nodes with a document (valid or with a violation) x one ignored or unknown key inserted in every mapping at every position with every of 16 values; a second insertion, key spelling, configuration and other choices within the bound", [o](mc::Ctx &m) { body(m, o, 2, true); }, 1, 2}); }
	{ gen::Opt o; o.nodes = 3; o.min_nodes = 2; o.vary_style = false; o.vary_limits = false; o.vary_leaf = false; o.vary_text = false; o.vary_ind = false; o.vary_layout = false; o.vary_default = false; o.vary_order = false; o.vary_names = false;
	  f.push_back({"several", "schema trees of up to 3 nodes x 1..3 insertions, all choices within the bound", [o](mc::Ctx &m) { body(m, o, 3, false); }, 4, 5}); }
	f.push_back({"repeated", "an ignored or unknown key 1..3 times at 3 places of mappings of 1..36 (70) fields, the ignored field at every index, 16 values", repeated, 0, 0});
	f.push_back({"big", "deep and wide values (up to 1000) in nests of 1..9 (20) collections of 6 kinds", big, 0, 0});
	f.push_back({"deep", "ignored values nested to 15 depths of 126..513 in 5 shapes x 3 places x unknown key or ignored field", deep, 0, 0});
	f.push_back({"scale", std::string(SCALE) + ", with ignored content before and after the rest of the outermost or innermost mapping", scaled, 0, 0});
}
const mc::Prop mc::PROP = {"C08", "A case is a document with ignored content added; the expected outcome and data are those of the document without it (or an invalid-key error where unknown keys are not ignored).", build};
