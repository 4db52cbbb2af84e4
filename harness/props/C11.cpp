#include <errno.h>
#include "../common.hpp"
#include <algorithm>
using namespace md;
using namespace com;

/* What the callbacks saw. */
struct Call { const T *t; Val v; };
struct Rec {
	mc::Ctx *m; env::Cfg *cfg; void *ctx;
	std::map<const void *, const T *> of;
	std::vector<Call> calls;
	long veto = -1;
	std::string error;
};
static Rec *cur;
static bool seen(void *ctx, const cyaml_schema_value_t *s, std::function<Val(const T &)> get) {
	env::OutLib ol;
	Rec &r = *cur;
	auto err = [&](const std::string &e) { if (r.error.empty()) r.error = e; };
	if (ctx != r.ctx) err("a validation callback was not given the configured validation context");
	auto it = r.of.find(s);
	if (it == r.of.end()) { err("a validation callback was given a schema that is not one of the values with a callback"); return true; }
	Call c; c.t = it->second;
	try { c.v = get(*it->second); } catch (mc::Violation &v) { err("in a validation callback: " + v.msg); }
	r.calls.push_back(c);
	errno = r.calls.size() & 1 ? ERANGE : EINVAL;      /* a callback may do anything with errno */
	return (long)r.calls.size() - 1 != r.veto;
}
static Val scalar(const T &t, uint64_t n) { uint64_t mask = t.size >= 8 ? ~0ull : (1ull << (t.size * 8)) - 1; return Val::num(n & mask); }
/* Each type has its own function, so that the wrong kind of call shows. */
static bool kind(const T &t, std::initializer_list<cyaml_type_e> l) {
	for (auto k : l) if (t.type == k) return true;
	if (cur->error.empty()) cur->error = "a validation callback of another type was called";
	return false;
}
static bool on_int(void *ctx, const cyaml_schema_value_t *s, int64_t v) { return seen(ctx, s, [&](const T &t) { kind(t, {CYAML_INT, CYAML_ENUM, CYAML_FLAGS}); if (t.type == CYAML_INT && t.size < 8 && (v >= 1ll << (t.size * 8 - 1) || v < -(1ll << (t.size * 8 - 1))) && cur->error.empty()) cur->error = "callback value out of range"; return scalar(t, (uint64_t)v); }); }
static bool on_uint(void *ctx, const cyaml_schema_value_t *s, uint64_t v) { return seen(ctx, s, [&](const T &t) { kind(t, {CYAML_UINT, CYAML_BITFIELD}); Val r = scalar(t, v); if (r.n != v && cur->error.empty()) cur->error = "callback value out of range"; return r; }); }
static bool on_float(void *ctx, const cyaml_schema_value_t *s, double v) { return seen(ctx, s, [&](const T &t) { kind(t, {CYAML_FLOAT}); return Val::num(float_bits(t.size, v)); }); }
static bool on_str(void *ctx, const cyaml_schema_value_t *s, const char *v) { return seen(ctx, s, [&](const T &t) { kind(t, {CYAML_STRING}); return Val::str(v ? v : "(null)"); }); }
static bool on_map(void *ctx, const cyaml_schema_value_t *s, const cyaml_data_t *v) { return seen(ctx, s, [&](const T &t) { kind(t, {CYAML_MAPPING}); Reader rd(*cur->m, cur->cfg->heap, "mapping callback"); return v ? rd.body(t, (const uint8_t *)v, 0, t.size) : Val(); }); }
static bool on_seq(void *ctx, const cyaml_schema_value_t *s, const cyaml_data_t *v, uint32_t n) {
	return seen(ctx, s, [&](const T &t) {
		kind(t, {CYAML_SEQUENCE, CYAML_SEQUENCE_FIXED});
		if (t.type == CYAML_SEQUENCE_FIXED && n != t.smax && cur->error.empty()) cur->error = mc::fmt("callback of a fixed sequence of %u got a count of %u", t.smax, n);
		if (!v) { Val e = Val::seq(); if (n && cur->error.empty()) cur->error = "sequence callback got a count but no entries"; return e; }
		Reader rd(*cur->m, cur->cfg->heap, "sequence callback"); rd.exact_zero = false;
		size_t room = (size_t)t.size * t.smax;
		if (t.ptr()) { const env::Heap::Blk *b = cur->cfg->heap.find(v); room = b ? b->n : 0; if (!b && n && cur->error.empty()) cur->error = "sequence callback's entries are not a block of the configured allocator"; }
		return rd.body(t, (const uint8_t *)v, n, room);
	});
}
static void hook(T &t) {
	switch (t.type) {
	case CYAML_INT: case CYAML_ENUM: case CYAML_FLAGS: t.cb = (void *)on_int; break;
	case CYAML_UINT: case CYAML_BITFIELD: t.cb = (void *)on_uint; break;
	case CYAML_FLOAT: t.cb = (void *)on_float; break;
	case CYAML_STRING: t.cb = (void *)on_str; break;
	case CYAML_MAPPING: t.cb = (void *)on_map; for (auto &f : t.fields) hook(*f.t); break;
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: t.cb = (void *)on_seq; hook(*t.entry); break;
	default: break;
	}
}
static void index(const T &t, std::map<const void *, const T *> &of) {
	if (t.cb) of[t.c] = &t;
	if (t.type == CYAML_MAPPING) for (auto &f : t.fields) index(*f.t, of);
	if (t.is_seq()) index(*t.entry, of);
}
static bool is_default(const T &t, const Val &v) {
	if (!t.optional() || !t.has_default()) return false;
	if (t.type == CYAML_STRING) return v.s == t.smiss;
	return t.type == CYAML_FLOAT && v.n == float_bits(t.size, t.fmiss);
}
/* one_at >= 0: only that value of the schema has a callback. */
static void check(mc::Ctx &m, gen::Case &c, long only_veto = -2, bool log = false) {
	if (c.ref.unspecified) m.prune();
	if (m.tracing()) m.note("%s", c.show().substr(0, 5000).c_str());
	static char token;
	Rec rec; index(*c.top, rec.of); rec.m = &m; rec.ctx = &token;
	auto run = [&](long veto) {
		env::Cfg cfg(c.cfg, CYAML_LOG_ERROR, log); cfg.c.validation_ctx = &token;
		rec.cfg = &cfg; rec.calls.clear(); rec.veto = veto; rec.error.clear();
		cur = &rec;
		env::LoadRes r = env::load(m, cfg, c.s, c.text);
		cur = nullptr;
		if (!rec.error.empty()) m.fail("%s", rec.error.c_str());
		if (veto < 0) {
			if (verdict(m, c.ref.errs, r.err, "load with callbacks")) check_loaded(m, cfg.heap, *c.top, c.ref.v, r.data, r.count, "load with callbacks", 0);
		} else {
			if (r.err != CYAML_ERR_INVALID_VALUE) m.fail("load returned %s although callback %ld (of a %s) returned false", env::ename(r.err), veto, describe(*rec.calls[(size_t)veto].t).substr(0, 60).c_str());
			
		}
		m.outcome((uint64_t)r.err); m.outcome(rec.calls.size());
		if (r.data) env::release(m, cfg, c.s, r.data, r.count);
		if (cfg.heap.live()) m.fail("%zu block(s) left", cfg.heap.live());
	};
	run(-1);
	/* Every call is one of a value of the document, and for a conforming document every value had one. */
	std::vector<Call> calls = rec.calls;
	std::vector<char> used(calls.size(), 0);
	std::vector<const Done *> todo; for (auto &d : c.ref.done) if (d.t->cb) todo.push_back(&d);
	std::vector<Val> cv; for (auto &k : calls) cv.push_back(canon(*k.t, k.v));
	size_t first = 0;
	for (auto *d : todo) {
		Val w = canon(*d->t, d->v); bool f = false;
		while (first < calls.size() && used[first]) first++;
		for (size_t i = first; i < calls.size() && !f; i++) if (!used[i] && calls[i].t == d->t && cv[i] == w) { used[i] = 1; f = true; }
		if (!f && c.ref.ok()) m.fail("no validation callback for %s with value %s", describe(*d->t).substr(0, 100).c_str(), describe(d->v).c_str());
	}
	for (size_t i = 0; i < calls.size(); i++) if (!used[i] && !is_default(*calls[i].t, calls[i].v))
		m.fail("unexpected validation callback for %s with value %s", describe(*calls[i].t).substr(0, 100).c_str(), describe(calls[i].v).c_str());
	m.outcome(c.text); m.outcome(c.a.hash()); m.count("callbacks", calls.size());
	long n = (long)calls.size();
	if (!n) return;
	long k = only_veto == -2 ? (long)m.pick((int)n + 1) - 1 : only_veto < n ? only_veto : n - 1;
	if (k < 0) return;
	m.count("vetoes");
	run(k);
}
static void whole(mc::Ctx &m, gen::Opt o) {
	gen::Case c; 
	{ gen::Gen g(m, c, o);
	  c.top = g.schema(gen::Gen::TOP, 0);
	  if (o.nodes - g.left < o.min_nodes) m.prune();
	  g.inst = 0; c.doc = g.doc(*c.top);
	  c.cfg = o.vary_cfg ? m.among<unsigned>({0u, CYAML_CFG_IGNORE_UNKNOWN_KEYS, CYAML_CFG_CASE_INSENSITIVE}) : 0;
	  m.commit(); hook(*c.top); gen::finish(m, c); }
	check(m, c);
}
/* One value type, in every place, with every text. */
static void leaves(mc::Ctx &m) {
	int p = m.pick(gen::profiles()), ind = m.pick(4), pos = m.pick(PLACES);
	gen::Case c; T *t = gen::leaf(c.a, p);
	static const unsigned IND[] = {0, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR};
	t->flags |= IND[ind];
	const gen::Texts &x = gen::texts(*t, p);
	int n = m.pick((int)(x.good.size() + x.bad.size()));
	m.commit();
	place(c, t, (size_t)n < x.good.size() ? x.good[n] : x.bad[n - x.good.size()], x.good[0], pos);
	hook(*c.top); gen::finish(m, c);
	check(m, c);
}
/* Fields left out, whose defaults are values that a document could have given: these are not document values. */
static void absent(mc::Ctx &m) {
	int p = m.pick(gen::profiles()), ind = m.pick(4), wrap = m.pick(5), nested = m.pick(2), there = m.pick(2);
	gen::Case c; T *t = gen::leaf(c.a, p);
	static const unsigned IND[] = {0, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR};
	const gen::Texts &x = gen::texts(*t, p);
	Node n = x.good[m.pick((int)x.good.size())], other = x.good[0];
	m.commit();
	auto val = [&](const T &t, const Node &n) { Ref r = ref_load(t, &n, 0); if (!r.ok() || r.unspecified) m.prune(); return r.v; };
	if (wrap) {
		T *q; Node y, z;
		if (wrap == 1) { q = c.a.t(CYAML_MAPPING); Field f; f.key = "in"; f.t = t; q->fields.push_back(f); y = Node::map(); y.add("in", n); z = Node::map(); z.add("in", other); }
		else if (wrap == 4) { T *e = c.a.t(CYAML_SEQUENCE_FIXED); e->smin = e->smax = 2; e->entry = t; y = Node::seq(); y.add(n); y.add(other); z = Node::seq(); z.add(other); z.add(n);
			q = c.a.t(CYAML_MAPPING); Field f; f.key = "in"; f.t = e; q->fields.push_back(f); Node yy = Node::map(), zz = Node::map(); yy.add("in", y); zz.add("in", z); y = yy; z = zz; }
		else { q = c.a.t(wrap == 2 ? CYAML_SEQUENCE : CYAML_SEQUENCE_FIXED); q->smin = q->smax = 2; q->entry = t; y = Node::seq(); y.add(n); y.add(other); z = Node::seq(); z.add(other); z.add(n); }
		q->flags |= IND[ind]; q->has_miss = true; q->miss = val(*q, y); t = q; other = z;
	} else {
		Val v = val(*t, n);
		unsigned sh = t->size < 8 ? 64 - t->size * 8 : 0;
		switch (t->type) {
		case CYAML_INT: case CYAML_ENUM: t->imiss = (int64_t)(v.n << sh) >> sh; break;
		case CYAML_UINT: case CYAML_FLAGS: case CYAML_BITFIELD: t->umiss = v.n; break;
		case CYAML_BOOL: t->bmiss = v.n; break;
		case CYAML_FLOAT: if (t->size == 4) { float f; uint32_t u = (uint32_t)v.n; memcpy(&f, &u, 4); t->fmiss = f; } else memcpy(&t->fmiss, &v.n, 8); break;
		case CYAML_STRING: if (v.s.size() < t->smin) m.prune(); t->has_smiss = true; t->smiss = v.s; break;
		default: m.prune();
		}
		t->flags |= IND[ind];
	}
	t->flags |= CYAML_FLAG_OPTIONAL;
	T *q = c.a.t(CYAML_MAPPING); q->fields.resize(3);
	q->fields[0].key = "b"; q->fields[0].t = c.a.t(CYAML_UINT, 0, 1);
	q->fields[1].key = "v"; q->fields[1].t = t;
	q->fields[2].key = "a"; q->fields[2].t = c.a.t(CYAML_UINT, 0, 1);
	c.doc = Node::map(); c.doc.add("b", Node::sc("1")); if (there) c.doc.add("v", other); c.doc.add("a", Node::sc("2"));
	if (nested) { T *s = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = q; Node y = Node::seq(); y.add(c.doc); y.add(c.doc); c.top = s; c.doc = y; }
	else { q->flags |= CYAML_FLAG_POINTER; c.top = q; }
	hook(*c.top); gen::finish(m, c);
	check(m, c);
}
/* Values defined once and used again. */
static void aliases(mc::Ctx &m) {
	int p = m.pick(gen::profiles() + 4), ind = m.pick(2), uses = 1 + m.pick(3), ign = m.pick(3);
	m.commit();
	gen::Case c;
	auto mk = [&](Node &n) -> T * {
		if (p < gen::profiles()) { T *t = gen::leaf(c.a, p); n = gen::texts(*t, p).good[0]; return t; }
		T *e = gen::leaf(c.a, 0); Node x = Node::sc("12");
		if (p % 2) { T *q = c.a.t(CYAML_MAPPING); Field f; f.key = "in"; f.t = e; q->fields.push_back(f); e = q; Node y = Node::map(); y.add("in", x); x = y; }
		T *s = c.a.t(p - gen::profiles() < 2 ? CYAML_SEQUENCE : CYAML_SEQUENCE_FIXED); s->entry = e; s->smin = s->smax = 2; n = Node::seq(); n.add(x); n.add(x);
		return s;
	};
	c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); c.doc = Node::map();
	for (int i = 0; i <= uses; i++) {
		Node n; Field f; f.key = mc::fmt("k%d", i); f.t = mk(n); if (ind) f.t->flags |= CYAML_FLAG_POINTER;
		if (ign == 1 && i == 0) f.t = c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL);
		if (ign == 2 && i == 1) f.t = c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL);
		c.top->fields.push_back(f);
		if (i == 0) { n.anchor = "v"; c.doc.add(f.key, n); } else c.doc.add(f.key, Node::alias("v"));
	}
	hook(*c.top); gen::finish(m, c);
	check(m, c);
}
/* Long and deep structures: veto first, middle and last. */
static void ladders(mc::Ctx &m) {
	static const int N[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100};
	int kind = m.pick(3), i = m.pick(16), k = m.pick(gen::SEQ_KINDS), form = m.pick(gen::SEQ_FORMS), veto = m.pick(6);
	if (kind && form) m.prune();
	if (kind == 1 && (k >= gen::DEPTH_KINDS || N[i] > 33)) m.prune();
	if (kind == 2 && k >= gen::FIELD_KINDS) m.prune();
	m.commit();
	gen::Case c;
	if (kind == 0) gen::ladder_seq(c, N[i], k, form); else if (kind == 1) gen::ladder_depth(c, N[i], k); else gen::ladder_fields(c, N[i], k, 1);
	hook(*c.top); gen::finish(m, c);
	long nd = (long)c.ref.done.size();
	static const int F[] = {0, 1, 2, 3, 4};
	check(m, c, veto == 5 ? -1 : F[veto] * (nd - 1) / 4, true);
}
static void scaled(mc::Ctx &m) {
	static const long V[] = {-1, 0, 255, 256, 65535, 1 << 30};
	int k = m.pick(m.thorough ? 6 : 4); if (!m.thorough && k == 3) k = 5;
	int i = m.pick(gen::scales()); m.commit();
	gen::Case c; gen::ladder_scale(c, i); hook(*c.top); gen::finish(m, c);
	if (c.ref.done.size() > 20000 && gen::scale_kind(i) == 2 && c.top->entry && c.top->entry->type == CYAML_MAPPING) m.prune();
	if (!m.thorough && k < 5 && V[k] >= 0 && c.ref.done.size() > 20000) m.prune();
	check(m, c, V[k]);
}
static void build(std::vector<mc::Family> &f, bool) {
	f.push_back({"leaves", "every scalar, flags and bitfield profile x 4 indirections x 7 places x every good and bad text; no veto and a veto at each call", leaves, 0, 0});
	{ gen::Opt o; o.nodes = 5; o.min_nodes = 2; o.invalid = true; o.vary_style = false; o.vary_leaf = false; o.vary_layout = false; o.vary_names = false; o.vary_ind = false;
	  f.push_back({"structures", "every schema tree of 2..5 nodes, conforming documents and documents with violations within the bound; no veto and a veto at each call", [o](mc::Ctx &m) { whole(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = 3; o.invalid = true; o.vary_style = false; o.vary_names = false;
	  f.push_back({"shapes", "every schema tree of up to 3 nodes with varied values, indirection, presence, defaults, limits, layout and documents within the bound; no veto and a veto at each call", [o](mc::Ctx &m) { whole(m, o); }, 2, 3}); }
	f.push_back({"absent", "an optional field of every value profile x alone, in a mapping, a sequence, a fixed sequence, or a fixed sequence in a mapping x 4 indirections, with each good value as its default, left out or given, flat and in a sequence; no veto and a veto at each call", absent, 0, 0});
	f.push_back({"aliases", "every value profile and four collections, anchored and used up to 3 times, with the definition or a use ignored; no veto and a veto at each call", aliases, 0, 0});
	f.push_back({"scale", std::string(SCALE) + "; no veto, and one at the first, 256th (257th, 65536th) or last call", scaled, 0, 0});
	f.push_back({"ladders", "sequences of 1..100 entries, depths 1..33, mappings of 1..100 fields; vetoes at five positions", ladders, 0, 0});
}
const mc::Prop mc::PROP = {"C11", "A case is a schema with callbacks on every value, a document and the index of the vetoing call (or none); the calls seen, their values, the outcome and memory are compared with the reference.", build};
