#include "../common.hpp"
#include <algorithm>
using namespace md;
using namespace com;

/* Load whatever comes; success must be well-formed data that goes away completely. */
static void any_load(mc::Ctx &m, gen::Case &c, const std::string &text, unsigned flags) {
	env::Cfg cfg(flags);
	env::LoadRes r = env::load(m, cfg, c.s, text);          /* fails on any leak or misuse */
	if (r.err == CYAML_OK) {
		if (r.data) {
			Reader rd(m, cfg.heap, "load"); Val v = rd.top(*c.top, r.data, r.count); rd.finish(0); m.outcome(describe(v));
			env::release(m, cfg, c.s, r.data, r.count);
		}
		if (cfg.heap.live()) m.fail("cyaml_free left %zu block(s)", cfg.heap.live());
		m.count("accepted");
	} else m.count("rejected");
	m.outcome((uint64_t)r.err); m.outcome(text); m.outcome(c.a.hash());
}
static void walk(Node &n, std::vector<Node *> &out) { out.push_back(&n); for (auto &k : n.kids) walk(k, out); }
/* Each node of a conforming document replaced by something wrong, or the text cut short at any byte. */
static void broken(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	std::vector<Node *> ns; walk(c.doc, ns);
	int how = m.pick(9);
	if (how == 0) { any_load(m, c, c.text.substr(0, (size_t)m.pick((int)c.text.size() + 1)), c.cfg); return; }
	if (how == 1) {                                        /* a byte that cannot be there */
		std::string t = c.text; t[(size_t)m.pick((int)t.size())] = (char)0x01;
		any_load(m, c, t, c.cfg); return;
	}
	Node *n = ns[(size_t)m.pick((int)ns.size())];
	switch (how) {
	case 2: *n = Node::sc("zz"); break;
	case 3: *n = Node::seq(); break;
	case 4: *n = Node::map(); break;
	case 5: *n = Node::seq(); n->flow = true; n->add(Node::sc("q")).add(Node::map()); break;
	case 6: *n = Node::map(); n->flow = true; n->add("q", Node::sc("r")); break;
	case 7: *n = Node::alias("nowhere"); break;
	default: n->anchor = "a"; break;                       /* recorded while loading continues */
	}
	any_load(m, c, render(c.doc), c.cfg);
}
/* Anchored nodes and defaults, then an error at every point. */
static void anchored(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	std::vector<Node *> ns; walk(c.doc, ns);
	size_t i = (size_t)m.pick((int)ns.size()), k = (size_t)m.pick((int)ns.size());
	if (i == k) m.prune();
	int how = m.pick(3);
	if (how == 0) for (size_t q = 0; q < ns.size(); q++) ns[q]->anchor = mc::fmt("n%zu", q);
	else ns[i]->anchor = "a";
	Node old = *ns[k];
	if (how == 2) *ns[k] = Node::sc("zz"); else { *ns[k] = Node::alias(how ? "a" : mc::fmt("n%zu", i)); }
	any_load(m, c, render(c.doc), c.cfg);
}
/* Data with holes: any pointers NULL, or arrays left empty. */
struct Hole { uint8_t *at; const T *t; };
static void holders(const T &t, uint8_t *loc, uint64_t count, std::vector<Hole> &out, std::vector<std::pair<uint8_t *, int>> &counts) {
	uint8_t *p = loc;
	if (t.type == CYAML_IGNORE) return;
	if (t.ptr()) { memcpy(&p, loc, sizeof p); if (!p) return; out.push_back({loc, &t}); }
	if (t.type == CYAML_MAPPING) for (auto &f : t.fields) {
		uint64_t n = 0;
		if (f.t->type == CYAML_SEQUENCE) { memcpy(&n, p + f.cnt_off, f.cnt_size); counts.push_back({p + f.cnt_off, f.cnt_size}); }
		holders(*f.t, p + f.off, n, out, counts);
	}
	if (t.is_seq()) { uint64_t n = t.type == CYAML_SEQUENCE_FIXED ? t.smax : count; for (uint64_t i = 0; i < n; i++) holders(*t.entry, p + i * stored_size(*t.entry), 0, out, counts); }
}
static void holes(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	Val v = c.ref.v;
	if (v.k == Val::NUL || v.k == Val::ZERO) m.prune();
	env::Cfg cfg(c.cfg);
	Src s = dirty_source(cfg, *c.top, v, 0xA5);
	uint8_t *top = (uint8_t *)s.p;
	std::vector<Hole> h; std::vector<std::pair<uint8_t *, int>> counts;
	holders(*c.top, (uint8_t *)&top, s.count, h, counts);
	/* Blocks reachable now; making holes (or zeroing counts) takes some of them out of reach. */
	int mode = m.pick(3);                                   /* pointers NULLed keeping counts, counts zeroed, both */
	unsigned count = s.count;
	if (mode != 1) {
		size_t n = std::min<size_t>(h.size(), 7), mask = (size_t)m.pick(1 << n);
		for (size_t i = 0; i < n; i++) if (mask >> i & 1) memset(h[i].at, 0, sizeof(void *));
	}
	if (mode) {
		size_t n = std::min<size_t>(counts.size(), 4), mask = (size_t)m.pick(1 << (n + 1));
		for (size_t i = 0; i < n; i++) if (mask >> i & 1) memset(counts[i].first, 0, (size_t)counts[i].second);
		if (mask >> n & 1) count = 0;
	}
	m.outcome(c.a.hash()); m.outcome(c.text);
	/* What is still reachable, in the harness's reading. */
	std::vector<Hole> left; counts.clear();
	std::set<const void *> reach;
	holders(*c.top, (uint8_t *)&top, count, left, counts);
	for (auto &x : left) { void *p; memcpy(&p, x.at, sizeof p); reach.insert(p); }
	std::vector<env::Heap::Blk> b0; cfg.heap.blocks(b0);
	std::vector<std::pair<env::Heap::Blk, uint64_t>> keep;
	for (auto &b : b0) if (!reach.count(b.p)) keep.push_back({b, mc::hash(b.p, b.n)});
	if (c.top->type == CYAML_SEQUENCE_FIXED) count = 0;
	env::release(m, cfg, c.s, top, count);
	if (cfg.heap.live() != keep.size()) m.fail("%zu of %zu block(s) were to be freed, %zu are left", reach.size(), b0.size(), cfg.heap.live());
	for (auto &k : keep) { const env::Heap::Blk *b = cfg.heap.find(k.first.p); if (!b) m.fail("cyaml_free freed a block that is not part of the data"); if (mc::hash(b->p, b->n) != k.second) m.fail("cyaml_free changed a block that is not part of the data"); }
	m.count("blocks freed", reach.size());
}
/* Several results alive together; freed in every order, each free leaves the others alone. */
static void together(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || c.ref.v.k == Val::NUL || (c.top->is_seq() && c.ref.v.v.empty())) m.prune();
	static const int PERM[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
	int perm = m.pick(6), kind = m.pick(2);
	env::Cfg cfg(c.cfg), other(c.cfg);
	struct Obj { uint8_t *p; unsigned n; } o3[3];
	for (int i = 0; i < 3; i++) {
		if (i == 2 && kind) { env::CopyRes r = env::copy(m, cfg, c.s, o3[0].p, c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : o3[0].n); if (r.err) m.fail("copy: %s", env::ename(r.err)); o3[i] = {r.data, o3[0].n}; }
		else { env::LoadRes r = env::load(m, cfg, c.s, c.text); if (r.err) m.fail("load: %s", env::ename(r.err)); o3[i] = {r.data, r.count}; }
		if (!(c.top->type == CYAML_SEQUENCE && !o3[i].n)) { env::SaveRes s = env::save(m, cfg, c.s, o3[i].p, o3[i].n); m.outcome((uint64_t)s.err); }
	}
	for (int i = 0; i < 3; i++) {
		int d = PERM[perm][i];
		env::release(m, cfg, c.s, o3[d].p, o3[d].n);
		size_t reached = 0;
		for (int q = i + 1; q < 3; q++) {
			Obj &x = o3[PERM[perm][q]];
			Reader rd(m, cfg.heap, "remaining object"); rd.exact_zero = false;
			Val got = rd.top(*c.top, x.p, x.n); same(m, *c.top, c.ref.v, got, "remaining object"); reached += rd.reached.size();
		}
		if (cfg.heap.live() != reached) m.fail("after freeing %d of 3 objects %zu block(s) are live, the others have %zu", i + 1, cfg.heap.live(), reached);
	}
	m.outcome(c.text); m.outcome(c.a.hash());
}
/* Leaves of every kind and indirection in every place. */
static void leaves(mc::Ctx &m) {
	static const unsigned IND[] = {0, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR};
	int p = m.pick(gen::profiles()), ind = m.pick(4), pos = m.pick(PLACES), how = m.pick(3);
	m.commit();
	gen::Case c; T *t = gen::leaf(c.a, p); t->flags |= IND[ind];
	const gen::Texts &x = gen::texts(*t, p);
	int k = m.pick((int)(how == 1 ? x.bad.size() : x.good.size()));
	if (how == 1 && x.bad.empty()) m.prune();
	place(c, t, how == 1 ? x.bad[k] : x.good[k], x.good[0], pos);
	if (t->type == CYAML_MAPPING && t->fields.empty() && pos >= 3 && !t->ptr()) {}
	gen::finish(m, c);
	if (how == 2) { any_load(m, c, c.text.substr(0, c.text.size() * (size_t)m.pick(4) / 4), 0); return; }
	verify_load(m, c);
}
/* The default memory function, and NULL data. */
static void plain(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	m.outcome(c.text); m.outcome(c.a.hash());
	cyaml_config_t k; memset(&k, 0, sizeof k); k.mem_fn = cyaml_mem; k.flags = (cyaml_cfg_flags_t)c.cfg; k.log_level = CYAML_LOG_ERROR;
	long base = env::libc_live;
	cyaml_data_t *d = nullptr; unsigned n = 0; cyaml_err_t e;
	{ env::InLib il; e = cyaml_load_data((const uint8_t *)c.text.data(), c.text.size(), &k, c.s, &d, c.top->type == CYAML_SEQUENCE ? &n : nullptr); }
	if (e != CYAML_OK) m.fail("load with the default memory function: %s", env::ename(e));
	if (d && !(c.top->is_seq() && c.ref.v.v.empty())) {
		char *txt = nullptr; size_t len = 0; cyaml_data_t *cp = nullptr;
		{ env::InLib il; e = cyaml_copy(&k, c.s, d, c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : n, &cp); }
		if (e != CYAML_OK) m.fail("copy with the default memory function: %s", env::ename(e));
		{ env::InLib il; e = cyaml_save_data(&txt, &len, &k, c.s, cp, n); if (e == CYAML_OK) cyaml_mem(nullptr, txt, 0); }
		{ env::InLib il; cyaml_free(&k, c.s, cp, n); }
	}
	{ env::InLib il; e = cyaml_free(&k, c.s, d, n); }
	if (e != CYAML_OK) m.fail("free: %s", env::ename(e));
	if (env::libc_live != base) m.fail("%ld block(s) of the C library left", env::libc_live - base);
	env::Cfg cfg(c.cfg); env::release(m, cfg, c.s, nullptr, 0); env::release(m, cfg, c.s, nullptr, 3);
	{ env::InLib il; if (cyaml_mem(nullptr, nullptr, 0) != nullptr) m.fail("cyaml_mem of nothing gave memory"); }
}
static void ladders(mc::Ctx &m) {
	static const int N[] = {1, 2, 3, 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255};
	int kind = m.pick(4), i = m.pick(15), k = m.pick(gen::SEQ_KINDS), form = m.pick(gen::SEQ_FORMS), bad = m.pick(4);
	if (kind && form) m.prune();
	if (kind == 1 && (k >= gen::DEPTH_KINDS || N[i] > 65)) m.prune();
	if (kind == 2 && k >= gen::FIELD_KINDS) m.prune();
	if (kind == 3 && k >= gen::STRING_FORMS) m.prune();
	m.commit();
	gen::Case c;
	if (kind == 0) gen::ladder_seq(c, N[i], k, form); else if (kind == 1) gen::ladder_depth(c, N[i], k); else if (kind == 2) gen::ladder_fields(c, N[i], k, 2); else gen::ladder_string(c, (size_t)N[i] * 33, k);
	gen::finish(m, c);
	if (bad == 0) { verify_load(m, c); return; }
	std::vector<Node *> ns; walk(c.doc, ns);
	size_t at = bad == 1 ? ns.size() - 1 : bad == 2 ? ns.size() / 2 : ns.size() * 3 / 4;
	*ns[at] = Node::alias("nowhere");
	any_load(m, c, render(c.doc), 0);
}
static void build(std::vector<mc::Family> &f, bool th) {
	{ gen::Opt o; o.nodes = 4; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = o.vary_leaf = o.vary_layout = o.vary_text = o.vary_limits = false; o.vary_default = true;
	  f.push_back({"broken documents", "every schema tree of up to 4 nodes, its conforming documents within the bound, with every node replaced by each of 7 wrong things, cut at every byte or with every byte invalid", [o](mc::Ctx &m) { broken(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = th ? 5 : 4; o.min_nodes = 2; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = o.vary_leaf = o.vary_layout = o.vary_text = o.vary_limits = false;
	  f.push_back({"anchors and errors", "every schema tree of 2..4 (5) nodes: every node anchored, every other node an alias of it or wrong", [o](mc::Ctx &m) { anchored(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = th ? 5 : 4; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = o.vary_text = false; o.top_null = false;
	  f.push_back({"holes", "data of every schema tree of up to 4 (5) nodes with every subset of its first 7 pointers NULL and of its first 4 counts zero, in garbage-filled memory", [o](mc::Ctx &m) { holes(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = 4; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = o.vary_text = false;
	  f.push_back({"together", "three objects of every schema tree of up to 4 nodes alive together, freed in all 6 orders", [o](mc::Ctx &m) { together(m, o); }, 1, 2}); }
	f.push_back({"leaves", "every kind of leaf value, indirection, place and valid or invalid text", leaves, 0, 0});
	{ gen::Opt o; o.nodes = th ? 5 : 4; o.vary_style = o.vary_order = o.vary_names = o.vary_layout = false;
	  f.push_back({"default memory function", "load, copy, save and free with cyaml_mem; free of NULL", [o](mc::Ctx &m) { plain(m, o); }, 1, 2}); }
	f.push_back({"ladders", "sequences, mappings, depths and strings past every growth threshold, complete or with an error at three points", ladders, 0, 0});
	f.push_back({"scale", SCALE, [](mc::Ctx &m) { gen::Case c; int bad = m.pick(3); scale(m, c); if (!bad) { verify_load(m, c); return; } std::vector<Node *> ns; walk(c.doc, ns); *ns[bad == 1 ? ns.size() - 1 : ns.size() / 2] = Node::alias("nowhere"); any_load(m, c, render(c.doc), 0); }, 0, 0});
}
const mc::Prop mc::PROP = {"C16", "The client allocator knows every live block; a call that leaks, frees or resizes anything but a live block, or allocates elsewhere, is a violation, as is memory touched outside a block (address sanitizer).", build};
