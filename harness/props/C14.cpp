#include "../common.hpp"
#include <unistd.h>
using namespace md;
using namespace com;

/* Places the save visits: value, its schema, the field naming it. */
struct Vis { T *t; Val *v; Field *f; bool entry; };
static void visit(T &t, Val &v, std::vector<Vis> &out, Field *f = nullptr, bool entry = false) {
	if (t.type == CYAML_IGNORE) return;
	if (v.k == Val::ZERO && !t.ptr()) v = canon(t, v);
	out.push_back({&t, &v, f, entry});
	if (v.k == Val::MAP) for (size_t i = 0; i < v.v.size(); i++) visit(*t.fields[i].t, v.v[i], out, &t.fields[i]);
	if (v.k == Val::SEQ) for (auto &x : v.v) visit(*t.entry, x, out, nullptr, true);
}
static bool present(const Vis &x) { return x.v->k != Val::NUL && x.v->k != Val::ZERO; }
static bool number(cyaml_type_e k) { return k == CYAML_INT || k == CYAML_UINT || k == CYAML_BOOL || k == CYAML_ENUM || k == CYAML_FLAGS || k == CYAML_BITFIELD; }

/* Save to memory, and to a file where asked; both must fail with one of the codes. */
static void refused(mc::Ctx &m, gen::Case &c, const Val &v, const std::set<int> &want, const std::function<void(env::Cfg &, Src &)> &poke = nullptr, bool file = false) {
	if (m.tracing()) m.note("schema %svalue %s\nexpected %s\n", describe(*c.top).c_str(), describe(v).c_str(), errset(want).c_str());
	env::Cfg cfg(c.cfg, CYAML_LOG_ERROR, true);
	Src s = source(cfg, *c.top, v);
	if (poke) poke(cfg, s);
	env::SaveRes r = env::save(m, cfg, c.s, s.p, s.count);
	verdict(m, want, r.err, "save");
	if (file) {
		std::string p = mc::scratch("out.yaml");
		cyaml_err_t e = env::save_file(m, cfg, p.c_str(), c.s, s.p, s.count);
		unlink(p.c_str());
		verdict(m, want, e, "save to a file");
	}
	m.outcome((uint64_t)r.err); m.outcome(c.a.hash()); m.outcome(describe(v));
}
static bool start(mc::Ctx &m, gen::Case &c, gen::Opt &o, Val &v) {
	gen::Gen g(m, c, o);
	c.top = g.schema(gen::Gen::TOP, 0);
	if (o.nodes - g.left < o.min_nodes) m.prune();
	g.inst = 0; c.doc = g.doc(*c.top);
	gen::finish(m, c);
	if (!c.ref.ok() || c.ref.unspecified || c.ref.v.k == Val::NUL || c.ref.v.k == Val::ZERO) m.prune();
	if (c.top->type == CYAML_SEQUENCE && c.ref.v.v.empty()) m.prune();
	v = c.ref.v;
	SaveRef r = ref_save(*c.top, v, 0);
	if (r.unspecified || !r.ok()) m.prune();
	return true;
}
/* Offending values. */
static void values(mc::Ctx &m, gen::Opt o) {
	gen::Case c; Val v; start(m, c, o, v);
	int times = 1 + m.choose(2);
	std::set<int> want;
	for (int i = 0; i < times; i++) {
		std::vector<Vis> at; visit(*c.top, v, at);
		struct Pick { size_t i; int how; };
		std::vector<Pick> p;
		for (size_t k = 0; k < at.size(); k++) {
			Vis &x = at[k];
			if (x.t->ptr() && !x.t->null_ok() && present(x) && k > 0 && !(x.f && x.t->optional()) && x.t->type != CYAML_SEQUENCE) p.push_back({k, 0});
			if (present(x) && x.t->type == CYAML_ENUM) for (int h = 1; h < 4; h++) p.push_back({k, h});
			if (present(x) && x.t->type == CYAML_FLAGS) for (int h = 4; h < 7; h++) p.push_back({k, h});
		}
		if (p.empty()) { if (i) break; m.prune(); }
		Pick q = p[(size_t)m.pick((int)p.size())]; Vis &x = at[q.i];
		uint64_t mask = x.t->size >= 8 ? ~0ull : (1ull << (x.t->size * 8)) - 1;
		uint64_t all = 0; for (auto &e : x.t->strs) all |= (uint64_t)e.second;
		switch (q.how) {
		case 0: *x.v = Val::nul(); break;
		case 1: case 2: case 3: x.t->flags |= CYAML_FLAG_STRICT; *x.v = Val::num((q.how == 1 ? 77 : q.how == 2 ? (uint64_t)-2 : 0) & mask); break;
		default: x.t->flags |= CYAML_FLAG_STRICT; { uint64_t un = mask & ~all; uint64_t low = un & (0 - un), high = un; while (high & (high - 1)) high &= high - 1; *x.v = Val::num(q.how == 4 ? low : q.how == 5 ? high | (all & mask) : un); }
		}
	}
	m.commit();
	c.s = lower(c.a, *c.top);
	SaveRef r = ref_save(*c.top, v, 0);
	if (r.unspecified) m.prune();
	if (r.ok()) m.fail("harness: value is not unsaveable");
	refused(m, c, v, r.errs, nullptr, m.used() == 0);
}
/* Schema nodes that are not valid. */
static void schemas(mc::Ctx &m, gen::Opt o) {
	gen::Case c; Val v; start(m, c, o, v);
	std::vector<Vis> at; visit(*c.top, v, at);
	int times = 1 + m.choose(2);
	std::set<int> want;
	for (int i = 0; i < times; i++) {
		size_t k = (size_t)m.pick((int)at.size()); Vis &x = at[k];
		if (!present(x)) m.prune();
		cyaml_schema_value_t *s = x.t->c;
		int how = m.pick(7);
		if (x.t->type == CYAML_FLAGS || x.t->type == CYAML_BITFIELD) if (how == 1 && times > 1) m.prune();
		switch (how) {
		case 0: { static const uint32_t BAD[] = {0, 9, 255, 0x10000008};
			if (!number(x.t->type)) m.prune();
			s->data_size = BAD[m.pick(4)]; want.insert(CYAML_ERR_INVALID_DATA_SIZE); break; }
		case 1: { static const uint32_t BAD[] = {0, 1, 2, 3, 5, 7, 9, 16};
			if (x.t->type != CYAML_FLOAT) m.prune();
			s->data_size = BAD[m.pick(8)]; want.insert(CYAML_ERR_INVALID_DATA_SIZE); break; }
		case 2: { static const int BAD[] = {CYAML__TYPE_COUNT, CYAML__TYPE_COUNT + 1, 100, -1, INT32_MAX};
			if (k == 0 && x.t->type == CYAML_SEQUENCE) m.prune();
			s->type = (cyaml_type_e)BAD[m.pick(5)]; want.insert(CYAML_ERR_BAD_TYPE_IN_SCHEMA); break; }
		case 3: {
			if (x.t->type != CYAML_BITFIELD || x.t->bits.empty()) m.prune();
			int b = m.pick((int)x.t->bits.size()), h = m.pick(4); auto *d = (cyaml_bitdef_t *)s->bitfield.bitdefs + b; unsigned n = x.t->size * 8;
			if (h == 0) d->bits = (uint8_t)(n - d->offset + 1); else if (h == 1) { d->offset = (uint8_t)n; d->bits = 1; } else if (h == 2) { d->offset = 255; d->bits = 255; } else { d->offset = 0; d->bits = (uint8_t)(n + 1); }
			want.insert(CYAML_ERR_BAD_BITVAL_IN_SCHEMA); break; }
		case 4: if (x.t->type != CYAML_SEQUENCE_FIXED) m.prune();
			if (m.pick(2)) s->sequence.min = x.t->smin - 1; else s->sequence.min = x.t->smin + 1; want.insert(CYAML_ERR_SEQUENCE_FIXED_COUNT); break;
		case 5: if (!x.entry || x.t->type != CYAML_SEQUENCE_FIXED) m.prune();
			s->type = CYAML_SEQUENCE; want.insert(CYAML_ERR_SEQUENCE_IN_SEQUENCE); break;
		default: { static const uint8_t BAD[] = {0, 9, 16, 255};
			if (!x.f || x.t->type != CYAML_SEQUENCE) m.prune();
			/* the field's entry in the lowered schema */
			auto *f = (cyaml_schema_field_t *)((char *)s - offsetof(cyaml_schema_field_t, value));
			f->count_size = BAD[m.pick(4)]; want.insert(CYAML_ERR_INVALID_DATA_SIZE); break; }
		}
	}
	m.commit();
	refused(m, c, v, want, nullptr, true);
}
/* A NULL sequence whose count says otherwise. */
static void counts(mc::Ctx &m) {
	int size = 1 + m.pick(8), pos = m.pick(3), cnt = m.pick(3), fixed = m.pick(2), first = m.pick(2);
	m.commit();
	gen::Case c;
	T *q = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); q->smax = CYAML_UNLIMITED; q->entry = fixed ? c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1) : c.a.t(CYAML_INT, 0, 4); if (fixed) q->entry->smax = CYAML_UNLIMITED;
	T *p = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize(3);
	for (int i = 0; i < 3; i++) { p->fields[i].key = mc::fmt("f%d", i); p->fields[i].t = i == pos ? q : c.a.t(CYAML_UINT, 0, 1); p->fields[i].cnt_size = (uint8_t)size; p->fields[i].cnt_first = first; }
	c.top = p; c.s = lower(c.a, *p);
	Val v = Val::map(); v.v = {Val::num(1), Val::num(2), Val::num(3)}; v.v[pos] = Val::nul();
	refused(m, c, v, {CYAML_ERR_INVALID_VALUE}, [&](env::Cfg &, Src &s) { uint64_t n = cnt == 0 ? 1 : cnt == 1 ? 127 : ~0ull; memcpy((uint8_t *)s.p + p->fields[pos].cnt_off, &n, size); }, true);
}
/* Long structures with the offending value at each position. */
static void ladders(mc::Ctx &m) {
	int kind = m.pick(3), n = 1 + m.pick(40), at = m.pick(n), what = m.pick(4);
	m.commit();
	gen::Case c; T *e; Val good, bad; int want = CYAML_ERR_INVALID_VALUE;
	switch (what) {
	case 0: e = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); e->smax = CYAML_UNLIMITED; good = Val::str("x"); bad = Val::nul(); break;
	case 1: e = c.a.t(CYAML_ENUM, CYAML_FLAG_STRICT, 4); e->strs = {{"a", 1}}; good = Val::num(1); bad = Val::num(2); break;
	case 2: e = c.a.t(CYAML_FLAGS, CYAML_FLAG_STRICT, 4); e->strs = {{"a", 1}, {"b", 2}}; good = Val::num(3); bad = Val::num(5); break;
	default: e = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); e->fields.resize(1); e->fields[0].key = "m"; e->fields[0].t = c.a.t(CYAML_INT, 0, 4); good = Val::map(); good.v = {Val::num(5)}; bad = Val::nul();
	}
	Val v;
	if (kind == 0) { T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = e; v = Val::seq(); for (int i = 0; i < n; i++) v.v.push_back(i == at ? bad : good); }
	else if (kind == 1) { T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize(n); v = Val::map(); for (int i = 0; i < n; i++) { p->fields[i].key = mc::fmt("f%d", i); p->fields[i].t = e; v.v.push_back(i == at ? bad : good); } 
		/* every field needs a schema node of its own */
		for (int i = 0; i < n; i++) { T *x = c.a.t(e->type, e->flags, e->size); *x = *e; p->fields[i].t = x; } }
	else { T *t = e; v = bad; for (int d = 0; d < n; d++) { if (d % 2) { T *s = c.a.t(CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER); s->smin = s->smax = 1; s->entry = t; Val q = Val::seq(); q.v = {v}; v = q; t = s; }
			else { T *p = c.a.t(CYAML_MAPPING, d % 4 ? CYAML_FLAG_POINTER : 0); Field f; f.key = "d"; f.t = t; p->fields.push_back(f); Val q = Val::map(); q.v = {v}; v = q; t = p; } }
		t->flags |= CYAML_FLAG_POINTER; c.top = t; (void)at; }
	c.s = lower(c.a, *c.top);
	refused(m, c, v, {want}, nullptr, true);
}
/* Strict flags with bits that have no name, and strict enums with values that have none: every bit of every size. */
static void unnamed(mc::Ctx &m) {
	uint32_t size = 1 + (uint32_t)m.pick(8); int kind = m.pick(2), bit = m.pick((int)size * 8), named = m.pick(3), d = m.pick(5), pos = m.pick(PLACES), table = m.pick(3);
	m.commit();
	gen::Case c; T *t = c.a.t(kind ? CYAML_ENUM : CYAML_FLAGS, CYAML_FLAG_STRICT, size);
	uint64_t mask = size >= 8 ? ~0ull : (1ull << (size * 8)) - 1, v, all = 0;
	if (table == 0) t->strs = {{"a", 1}}; else if (table == 1) t->strs = {{"a", 2}, {"b", 0x40}, {"c", 8}}; else t->strs = {{"a", 1}, {"b", size == 8 ? INT64_MIN : kind ? -((int64_t)1 << (size * 8 - 1)) : (int64_t)1 << (size * 8 - 1)}};
	for (auto &e : t->strs) all |= (uint64_t)e.second & mask;
	uint64_t b = 1ull << bit;
	static const int64_t D[] = {0, -1, 1, -2, 2};
	if (kind) v = (b + (uint64_t)D[d]) & mask; else v = ((d == 0 ? b : d == 1 ? ~(b - 1) : d == 2 ? b | (b << 1) : d == 3 ? b | 1 : mask) & mask & ~(named == 2 ? 0 : all)) | (named == 1 ? all : named == 2 ? (uint64_t)t->strs[0].second & mask : 0);
	if (kind && named) m.prune();
	Val x = place_val(c, t, Val::num(v), pos);
	c.s = lower(c.a, *c.top);
	SaveRef r = ref_save(*c.top, x, 0);
	if (r.unspecified) m.prune();
	if (r.ok()) { m.outcome(c.a.hash()); m.outcome(v); verify_save(m, c, x); return; }
	refused(m, c, x, r.errs, nullptr, pos == 0 && !named);
}
/* The offending value is the last or first of a big structure. */
static void scaled(mc::Ctx &m) {
	int at = m.pick(3); gen::Case c; scale(m, c);
	Val v = c.ref.v;
	if (c.top->is_seq() && v.v.empty()) m.prune();
	std::vector<Vis> vs; visit(*c.top, v, vs);
	std::vector<size_t> ok; for (size_t k = 1; k < vs.size(); k++) { Vis &x = vs[k]; if (x.t->ptr() && !x.t->null_ok() && present(x) && !(x.f && x.t->optional()) && x.t->type != CYAML_SEQUENCE) ok.push_back(k); }
	if (ok.empty()) { m.outcome(c.text); verify_save(m, c, v); return; }
	*vs[at == 0 ? ok.back() : at == 1 ? ok[0] : ok[ok.size() / 2]].v = Val::nul();
	refused(m, c, v, {CYAML_ERR_INVALID_VALUE}, nullptr, false);
}
static void build(std::vector<mc::Family> &f, bool) {
	{ gen::Opt o; o.nodes = 4; o.min_nodes = 1; o.vary_style = o.vary_names = o.vary_order = o.vary_text = o.vary_cfg = o.vary_layout = false;
	  f.push_back({"values", "every schema tree of up to 4 nodes with conforming data; one or two values made unsaveable, at every position in every way", [o](mc::Ctx &m) { values(m, o); }, 2, 3}); }
	{ gen::Opt o; o.nodes = 4; o.min_nodes = 1; o.vary_style = o.vary_names = o.vary_order = o.vary_text = o.vary_cfg = o.vary_layout = false;
	  f.push_back({"schemas", "every schema tree of up to 4 nodes with conforming data; one or two visited schema nodes made malformed, in every way", [o](mc::Ctx &m) { schemas(m, o); }, 1, 2}); }
	f.push_back({"counts", "NULL sequence with a non-zero count: 8 count sizes x 3 values x positions", counts, 0, 0});
	f.push_back({"ladders", "sequences, mappings and nests of 1..40 with the offending value at each position", ladders, 0, 0});
	f.push_back({"unnamed", "strict FLAGS and ENUM of sizes 1..8 x every bit of the value, alone, with bits above, with a neighbour, with none, some or all of the named ones x 3 tables x 7 places", unnamed, 0, 0});
	f.push_back({"scale", SCALE, scaled, 0, 0});
}
const mc::Prop mc::PROP = {"C14", "A case is a schema and data of which one or two parts cannot be saved; the error, outputs, source and memory after saving to memory and to a file are checked.", build};
