#include "../common.hpp"
#include "../numbers.hpp"
using namespace md;
using namespace com;

static bool topless(const gen::Case &c, const Val &v) { return v.k == Val::NUL || v.k == Val::ZERO || (c.top->is_seq() && v.v.empty()); }

/* Load, copy, free one, look at the other, free it. */
static void loaded(mc::Ctx &m, gen::Case &c, int order) {
	env::Cfg cfg(c.cfg);
	env::LoadRes l = env::load(m, cfg, c.s, c.text);
	if (l.err != CYAML_OK) m.fail("load failed: %s", env::ename(l.err));
	unsigned arg = c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : l.count;
	size_t one = cfg.heap.live();
	env::CopyRes r = env::copy(m, cfg, c.s, l.data, arg);
	if (r.err != CYAML_OK) m.fail("copy failed: %s", env::ename(r.err));
	auto look = [&](void *p, const char *what, bool exact) {
		Reader rd(m, cfg.heap, what); rd.exact_zero = exact;
		Val got = rd.top(*c.top, p, l.count); same(m, *c.top, c.ref.v, got, what);
		return rd.reached;
	};
	auto a = look(l.data, "source after copying", true), b = look(r.data, "copy", false);
	{ std::set<const void *> sa(a.begin(), a.end()); for (auto q : b) if (sa.count(q)) m.fail("copy and source share a block"); }
	if (cfg.heap.live() != a.size() + b.size()) m.fail("copy leaked: %zu block(s) allocated, %zu reached", cfg.heap.live(), a.size() + b.size());
	(void)one;
	/* Every byte of one overwritten: the other stays. */
	auto smash = [&](const std::vector<const void *> &v) { for (auto p : v) { const env::Heap::Blk *k = cfg.heap.find(p); memset((void *)p, 0xE7, k->n); } };
	switch (order) {
	case 0: env::release(m, cfg, c.s, l.data, l.count); look(r.data, "copy after freeing its source", false); env::release(m, cfg, c.s, r.data, l.count); break;
	case 1: env::release(m, cfg, c.s, r.data, l.count); look(l.data, "source after freeing the copy", true); env::release(m, cfg, c.s, l.data, l.count); break;
	case 2: smash(a); look(r.data, "copy after overwriting its source", false); env::release(m, cfg, c.s, r.data, l.count); if (cfg.heap.live() != a.size()) m.fail("freeing the copy left blocks or took the source's"); return;
	case 3: smash(b); look(l.data, "source after overwriting the copy", true); env::release(m, cfg, c.s, l.data, l.count); if (cfg.heap.live() != b.size()) m.fail("freeing the source left blocks or took the copy's"); return;
	default: {   /* copy of the copy, which then goes first */
		env::CopyRes r2 = env::copy(m, cfg, c.s, r.data, arg);
		if (r2.err != CYAML_OK) m.fail("copy of a copy failed: %s", env::ename(r2.err));
		env::release(m, cfg, c.s, r.data, l.count);
		look(r2.data, "copy of a copy", false); look(l.data, "source after two copies", true);
		/* and a copy saves as its source does */
		if (!(c.top->type == CYAML_SEQUENCE && !l.count)) {
			env::SaveRes s1 = env::save(m, cfg, c.s, l.data, l.count), s2 = env::save(m, cfg, c.s, r2.data, l.count);
			if (s1.err != s2.err || s1.text != s2.text) m.fail("a copy saves differently from its source");
		}
		env::release(m, cfg, c.s, l.data, l.count); env::release(m, cfg, c.s, r2.data, l.count); }
	}
	if (cfg.heap.live()) m.fail("%zu block(s) left", cfg.heap.live());
}
static void shapes(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v)) m.prune();
	int how = m.pick(3);
	m.outcome(c.text); m.outcome(c.a.hash());
	if (how == 0) { verify_copy(m, c, c.ref.v, 0xA5); return; }
	loaded(m, c, how == 1 ? (int)(mc::hash(c.text.data(), c.text.size()) % 4) : 4);
}
/* Every order for the simpler shapes. */
static void orders(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v)) m.prune();
	m.outcome(c.text); m.outcome(c.a.hash());
	loaded(m, c, m.pick(5));
}
/* Top-level values in the caller's own memory. */
static void embedded(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v)) m.prune();
	Val v = canon(*c.top, c.ref.v);
	if (c.top->type == CYAML_STRING) {            /* an array of the caller's */
		c.top->size = (uint32_t)v.s.size() + 3; c.top->smax = c.top->size - 1; c.top->smin = 0;
	}
	c.top->flags &= ~(unsigned)CYAML_FLAG_POINTER_NULL_STR;
	c.s = lower(c.a, *c.top);
	const T &t = *c.top;
	size_t n = t.type == CYAML_SEQUENCE ? (size_t)t.size * v.v.size() : t.type == CYAML_SEQUENCE_FIXED ? (size_t)t.size * t.smax : t.size;
	unsigned count = t.is_seq() ? (unsigned)v.v.size() : 0;
	int fail = m.pick(3);
	env::Cfg src(c.cfg), dst(c.cfg);
	uint8_t *s = (uint8_t *)src.heap.alloc(n); memset(s, 0xA5, n);
	build_body(t, v, s, [&](size_t k) { void *p = src.heap.alloc(k); memset(p, 0xA5, k); return p; });
	uint64_t h0 = src.heap.content_hash();
	/* Block of exactly the value's size: the sanitizer watches its surroundings. */
	uint8_t *d = (uint8_t *)malloc(n ? n : 1); memset(d, 0x5A, n);
	std::vector<uint8_t> before(d, d + n);
	cyaml_data_t *out = (cyaml_data_t *)d;
	if (fail == 1) dst.heap.fail_at = m.pick(4);
	if (fail == 2) dst.heap.fail_from = (long)m.pick(6);
	size_t live0 = dst.heap.live();
	cyaml_err_t e;
	{ env::Track tr(dst); env::InLib il; e = cyaml_copy(&dst.c, c.s, (cyaml_data_t *)s, count, &out); }
	env::check_env(m, dst, "cyaml_copy");
	m.outcome(c.text); m.outcome(c.a.hash()); m.outcome((uint64_t)e);
	if (src.heap.content_hash() != h0) m.fail("copy changed its source");
	if (out != d) m.fail("copy changed the caller's pointer although the value is not a pointer");
	if (e != CYAML_OK) {
		if (!dst.heap.failed) m.fail("copy into caller memory failed: %s", env::ename(e));
		if (e != CYAML_ERR_OOM) m.fail("copy without memory failed with %s", env::ename(e));
		if (memcmp(before.data(), d, n)) m.fail("failed copy changed the caller's memory");
		if (dst.heap.live() != live0) m.fail("failed copy leaked");
		m.count("failed copies"); free(d); return;
	}
	if (dst.heap.failed) m.fail("copy succeeded although an allocation failed");
	Reader rd(m, dst.heap, "copy in caller memory"); rd.exact_zero = false;
	Val got = rd.body(t, d, count, n); rd.finish(live0);
	same(m, t, v, got, "copy in caller memory");
	if (src.heap.content_hash() != h0) m.fail("reading the copy changed its source");
	env::release(m, dst, c.s, d, count);
	if (dst.heap.live() != live0) m.fail("freeing the copy's contents left %zu block(s)", dst.heap.live() - live0);
	m.count("copies into caller memory");
	free(d);
}
static void ladders(mc::Ctx &m) {
	static const int N[] = {1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 250, 255};
	int kind = m.pick(4), i = m.pick(22), k = m.pick(gen::SEQ_KINDS), form = m.pick(gen::SEQ_FORMS), how = m.pick(6);
	if (kind && form) m.prune();
	if (kind == 1 && (k >= gen::DEPTH_KINDS || N[i] > 65)) m.prune();
	if (kind == 2 && k >= gen::FIELD_KINDS) m.prune();
	if (kind == 3 && k >= gen::STRING_FORMS) m.prune();
	m.commit();
	gen::Case c;
	if (kind == 0) gen::ladder_seq(c, N[i], k, form); else if (kind == 1) gen::ladder_depth(c, N[i], k); else if (kind == 2) gen::ladder_fields(c, N[i], k, 2); else gen::ladder_string(c, (size_t)N[i] * 33, k);
	gen::finish(m, c);
	if (!c.ref.ok() || topless(c, c.ref.v)) m.prune();
	m.outcome(c.text);
	if (how == 5) verify_copy(m, c, c.ref.v, 0xA5); else loaded(m, c, how);
}
/* Fixed sequences in fixed sequences, with every kind of entry: sizes are products of counts. */
static void fixed(mc::Ctx &m) {
	int depth = 1 + m.pick(4), dims[4], ek = m.pick(6), ptrs = m.pick(16), place = m.pick(3), how = m.pick(6);
	for (int i = 0; i < 4; i++) dims[i] = i < depth ? 1 + m.pick(3) : 1;
	m.commit();
	gen::Case c; T *t; Node n;
	switch (ek) {
	case 0: t = c.a.t(CYAML_UINT, 0, 1); n = Node::sc("200"); break;
	case 1: t = c.a.t(CYAML_INT, 0, 8); n = Node::sc("-3"); break;
	case 2: t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->smax = CYAML_UNLIMITED; n = Node::sc("str"); break;
	case 3: t = c.a.t(CYAML_STRING, 0, 5); t->smax = 4; n = Node::sc("abcd"); break;
	case 4: { t = c.a.t(CYAML_MAPPING); t->fields.resize(2); t->fields[0].key = "a"; t->fields[0].t = c.a.t(CYAML_UINT, 0, 1); t->fields[1].key = "b"; t->fields[1].t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->fields[1].t->smax = CYAML_UNLIMITED; n = Node::map(); n.add("a", Node::sc("1")); n.add("b", Node::sc("x")); break; }
	default: t = c.a.t(CYAML_UINT, CYAML_FLAG_POINTER_NULL, 2); n = Node::sc("", SINGLE); break;
	}
	for (int i = 0; i < depth; i++) {
		T *s = c.a.t(CYAML_SEQUENCE_FIXED, ptrs >> i & 1 ? CYAML_FLAG_POINTER : 0); s->smin = s->smax = (uint32_t)dims[i]; s->entry = t;
		Node q = Node::seq(); for (int k = 0; k < dims[i]; k++) q.add(n);
		t = s; n = q;
	}
	if (place == 1) { T *s = c.a.t(CYAML_SEQUENCE); s->smax = CYAML_UNLIMITED; s->entry = t; Node q = Node::seq(); q.add(n); q.add(n); t = s; n = q; }
	if (place == 2) { T *p = c.a.t(CYAML_MAPPING); p->fields.resize(3); for (int i = 0; i < 3; i++) { p->fields[i].key = mc::fmt("k%d", i); p->fields[i].t = i == 1 ? t : c.a.t(CYAML_UINT, 0, 1); } Node q = Node::map(); q.add("k0", Node::sc("1")); q.add("k1", n); q.add("k2", Node::sc("2")); t = p; n = q; }
	t->flags |= CYAML_FLAG_POINTER; c.top = t; c.doc = n;
	gen::finish(m, c);
	if (!c.ref.ok()) m.fail("harness: must conform");
	m.outcome(c.text); m.outcome(c.a.hash());
	if (how == 5) verify_copy(m, c, c.ref.v, 0xA5); else loaded(m, c, how);
}
static void build(std::vector<mc::Family> &f, bool th) {
	{ gen::Opt o; o.nodes = 4; o.vary_style = o.vary_order = o.vary_names = false;
	  f.push_back({"shapes", "data of every conforming generated document of up to 4 schema nodes within the bound: copied from garbage-filled memory, from a load, and from a copy", [o](mc::Ctx &m) { shapes(m, o); }, 2, 3}); }
	{ gen::Opt o; o.nodes = th ? 6 : 5; o.min_nodes = 2; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = o.vary_leaf = o.vary_layout = o.vary_text = false;
	  f.push_back({"orders", "every schema tree of 2..5 (6) nodes: freed and overwritten in every order", [o](mc::Ctx &m) { orders(m, o); }, 1, 1}); }
	{ gen::Opt o; o.nodes = 4; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = false; o.top_null = false;
	  f.push_back({"caller memory", "every schema tree of up to 4 nodes with its top level in caller memory, with and without failing allocations", [o](mc::Ctx &m) { embedded(m, o); }, 1, 2}); }
	f.push_back({"ladders", "sequences and mappings of 1..255, depths 1..65, strings up to 8 kB: freed and overwritten in every order", ladders, 0, 0});
	f.push_back({"fixed sequences", "1..4 nested fixed sequences of 1..3 entries, 6 kinds of entries, pointers at every level, 3 places, every order", fixed, 0, 0});
	f.push_back({"raw values", RAW, [](mc::Ctx &m) { gen::Case c; Val v = raw_value(m, c); verify_copy(m, c, v, 0xA5); }, 0, 0});
	f.push_back({"scale", SCALE, [](mc::Ctx &m) { gen::Case c; int how = m.pick(6); scale(m, c); if (how == 5) verify_copy(m, c, c.ref.v, 0xA5); else loaded(m, c, how); m.outcome(c.text); }, 0, 0});
}
const mc::Prop mc::PROP = {"C15", "A case is a schema, its data and an order of copying, overwriting and freeing; source and copy are compared with the reference value and with each other's memory after each step.", build};
