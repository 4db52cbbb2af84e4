#include "../common.hpp"
#include "../stream.hpp"
#include "../world.hpp"
#include <algorithm>
#include <array>
#include <errno.h>
using namespace md;
using namespace com;
using namespace world;

struct Op { int kind, k, d, c; };
enum { LOAD, LOADF, LOADF_ERR, LOAD_OOM, SAVE, SAVE_OOM, SAVEF, SAVEF_ERR, COPY, COPY_OOM, FREE, FREE_NULL, BAD, STRERROR };
static const Op FULL[] = {
	{LOAD,0,0,0}, {LOAD,0,1,0}, {LOAD,0,2,0}, {LOAD,0,4,0}, {LOAD,0,6,0}, {LOAD,0,10,0}, {LOAD,0,3,1}, {LOAD,0,7,1}, {LOAD,1,0,0}, {LOAD,2,0,0}, {FREE,0,0,0}, {FREE,1,0,0}, {SAVE,0,0,0}, {SAVE,1,0,0}, {COPY,0,0,0}, {COPY,1,0,0},
	{LOAD_OOM,0,2,3}, {SAVE_OOM,0,0,1}, {COPY_OOM,0,0,1}, {BAD,0,0,0},
	/* from here on only at smaller depths */
	{LOAD,0,3,0}, {LOAD,0,5,0}, {LOAD,0,7,0}, {LOAD,0,8,0}, {LOAD,0,9,0}, {LOAD,0,0,1}, {LOAD,0,2,2}, {LOAD,0,0,2}, {LOAD,1,1,1}, {LOAD,1,2,0}, {LOAD,1,3,0}, {LOAD,2,1,0}, {LOAD,2,2,1}, {LOAD,2,0,2},
	{LOADF,0,0,0}, {LOADF,0,4,1}, {LOADF_ERR,0,0,0}, {LOAD_OOM,0,0,0}, {LOAD_OOM,0,0,8}, {LOAD_OOM,1,0,2}, {SAVE_OOM,0,0,0}, {SAVEF,0,0,0}, {SAVEF_ERR,0,0,0}, {COPY_OOM,0,0,0}, {FREE_NULL,0,0,0}, {STRERROR,0,0,0},
};
static const int PICKED[] = {0, 2, 4, 6, 8, 10, 11, 13, 14, 17};   /* for the longest histories */
static const int ALL = (int)(sizeof FULL / sizeof *FULL), SMALL = 20, LONG = 10;
struct Obj { int k, d, c; uint8_t *p; unsigned n; bool exact; };
static const char *const KN[] = {"load", "load file", "load of unreadable file", "load without memory", "save", "save without memory", "save file", "save to failing file", "copy", "copy without memory", "free", "free NULL", "bad parameters", "cyaml_strerror"};

/* Whether the operation can happen with so many live objects, and how many there are afterwards. */
static bool possible(mc::Ctx &m, const Op &o, size_t &live) {
	World &w = W();
	bool on = (o.kind >= SAVE && o.kind <= FREE);
	if (on && !live) return false;
	if (on && o.kind != SAVEF && o.kind != SAVEF_ERR && o.kind != SAVE_OOM && o.kind != COPY_OOM && o.k == 1 && live < 2) return false;   /* oldest = newest */
	if (o.kind == LOAD || o.kind == LOADF) { static std::map<int, bool> ok; int key = o.k * 1000 + o.d * 10 + o.c; auto it = ok.find(key); if (it == ok.end()) it = ok.emplace(key, w.get(m, o.k, o.d, o.c).code == 0).first; if (it->second) live++; }
	if (o.kind == COPY) live++;
	if (o.kind == FREE) live--;
	return true;
}
static void exec(mc::Ctx &m, const std::vector<Op> &ops, int en) {
	World &w = W();
	env::Cfg *cfg[3]; env::Cfg c0(w.flags[0]), c1(w.flags[1], CYAML_LOG_DEBUG, true), c2(w.flags[2], CYAML_LOG_ERROR, true);
	cfg[0] = &c0; cfg[1] = &c1; cfg[2] = &c2; c1.log.keep = c2.log.keep = false;
	for (int i = 0; i < (int)ops.size(); i++) { const Op &o = ops[i]; if (o.kind <= LOAD_OOM) w.get(m, o.k, o.d, o.c); }
	env::reset_statics();
	env::entry_errno = en ? ERANGE : 0;
	std::vector<Obj> objs;
	for (int i = 0; i < (int)ops.size(); i++) {
		const Op &o = ops[i];
		if (m.tracing()) { m.note("%d: %s", i + 1, KN[o.kind]); if (o.kind <= LOAD_OOM) m.note(" schema %d document %d configuration %d", o.k, o.d, o.c); else if (o.kind <= FREE) m.note(" %s object", o.k ? "oldest" : "newest"); m.note("\n"); }
		Obj *ob = (o.kind >= SAVE && o.kind <= FREE) ? (o.k ? &objs.front() : &objs.back()) : nullptr;
		if (ob && (o.kind == SAVE_OOM || o.kind == COPY_OOM || o.kind == SAVEF || o.kind == SAVEF_ERR)) ob = &objs.back();
		auto expect = [&](int want, int got) { if (want != got) m.fail("%s as operation %d gives %s, alone it gives %s", KN[o.kind], i + 1, env::ename(got), env::ename(want)); };
		auto arg = [&](const Obj &x) { return w.s[x.k]->type == CYAML_SEQUENCE_FIXED ? w.s[x.k]->smax : x.n; };
		switch (o.kind) {
		case LOAD: {
			env::Cfg &c = *cfg[o.c]; const World::Ld &x = w.get(m, o.k, o.d, o.c);
			env::LoadRes r = env::load(m, c, w.s[o.k]->c, w.text[o.k][(size_t)o.d]);
			expect(x.code, r.err);
			if (!r.err) objs.push_back({o.k, o.d, o.c, r.data, r.count, true});
			break; }
		case LOADF: case LOADF_ERR: {
			env::Cfg &c = *cfg[o.c]; const World::Ld &x = w.get(m, o.k, o.d, o.c);
			io::File f; f.data = w.text[o.k][(size_t)o.d]; f.chunk = 5; if (o.kind == LOADF_ERR) f.fail_offset = 20; io::Use u(f);
			env::LoadRes r = env::load_file(m, c, w.s[o.k]->c, "in"); io::closed_once(m, f);
			if (o.kind == LOADF_ERR) { if (!r.err) m.fail("loading an unreadable file succeeded"); break; }
			expect(x.code, r.err);
			if (!r.err) objs.push_back({o.k, o.d, o.c, r.data, r.count, true});
			break; }
		case LOAD_OOM: {
			env::Cfg &c = *cfg[0]; c.heap.reset_faults(); c.heap.fail_at = o.c;
			env::LoadRes r = env::load(m, c, w.s[o.k]->c, w.text[o.k][(size_t)o.d]); c.heap.reset_faults();
			expect(CYAML_ERR_OOM, r.err); break; }
		case SAVE: case SAVEF: case SAVEF_ERR: {
			env::Cfg &c = *cfg[ob->c]; const World::Ld &x = w.get(m, ob->k, ob->d, ob->c);
			unsigned n = w.s[ob->k]->type == CYAML_SEQUENCE ? ob->n : 0;
			if (o.kind == SAVE) { env::SaveRes r = env::save(m, c, w.s[ob->k]->c, ob->p, n); expect(x.save_code, r.err); if (r.text != x.saved) m.fail("save as operation %d gives text\n%s\nalone\n%s", i + 1, env::quote(r.text).c_str(), env::quote(x.saved).c_str()); break; }
			io::File f; if (o.kind == SAVEF_ERR) f.fail_offset = 3; io::Use u(f);
			int e = env::save_file(m, c, "out", w.s[ob->k]->c, ob->p, n); io::closed_once(m, f);
			if (o.kind == SAVEF_ERR) { if (!e) m.fail("saving to a failing file succeeded"); break; }
			expect(x.save_code, e); if (!e && f.data != x.saved) m.fail("file differs from the text saved alone");
			break; }
		case SAVE_OOM: {
			env::Cfg &c = *cfg[ob->c]; c.heap.reset_faults(); c.heap.fail_at = o.c;
			env::SaveRes r = env::save(m, c, w.s[ob->k]->c, ob->p, w.s[ob->k]->type == CYAML_SEQUENCE ? ob->n : 0); bool hit = c.heap.failed; c.heap.reset_faults();
			if (hit) expect(CYAML_ERR_OOM, r.err); break; }
		case COPY: {
			Obj s = *ob; env::Cfg &c = *cfg[s.c]; env::CopyRes r = env::copy(m, c, w.s[s.k]->c, s.p, arg(s));
			expect(CYAML_OK, r.err); s.p = r.data; s.exact = false; objs.push_back(s); break; }
		case COPY_OOM: {
			env::Cfg &c = *cfg[ob->c]; c.heap.reset_faults(); c.heap.fail_at = o.c;
			env::CopyRes r = env::copy(m, c, w.s[ob->k]->c, ob->p, arg(*ob)); bool hit = c.heap.failed; c.heap.reset_faults();
			if (hit) expect(CYAML_ERR_OOM, r.err); else { expect(CYAML_OK, r.err); env::release(m, c, w.s[ob->k]->c, r.data, ob->n); }
			break; }
		case FREE: { Obj s = *ob; objs.erase(objs.begin() + (ob - objs.data())); env::release(m, *cfg[s.c], w.s[s.k]->c, s.p, s.n); break; }
		case FREE_NULL: env::release(m, *cfg[1], w.s[0]->c, nullptr, 0); break;
		case BAD: {
			cyaml_data_t *d = nullptr; unsigned n = 9; char *t = nullptr; size_t len = 0;
			env::Track tr(*cfg[0]); env::InLib il; const cyaml_config_t *k = &cfg[0]->c;
			int e[6] = {cyaml_load_data((const uint8_t *)"a", 1, nullptr, w.s[0]->c, &d, nullptr), cyaml_load_data((const uint8_t *)"a", 1, k, w.s[0]->c, &d, &n), cyaml_save_data(&t, &len, k, w.s[0]->c, nullptr, 0),
				cyaml_save_data(&t, &len, k, w.s[1]->c, &n, 0), cyaml_copy(k, nullptr, &n, 0, &d), cyaml_free(nullptr, w.s[0]->c, nullptr, 0)};
			static const int want[6] = {CYAML_ERR_BAD_PARAM_NULL_CONFIG, CYAML_ERR_BAD_PARAM_SEQ_COUNT, CYAML_ERR_BAD_PARAM_NULL_DATA, CYAML_ERR_BAD_PARAM_SEQ_COUNT, CYAML_ERR_BAD_PARAM_NULL_SCHEMA, CYAML_ERR_BAD_PARAM_NULL_CONFIG};
			for (int q = 0; q < 6; q++) expect(want[q], e[q]);
			if (d || t || n != 9 || len) m.fail("outputs of refused calls changed");
			break; }
		case STRERROR: { env::InLib il; for (int q = -1; q <= CYAML_ERR__COUNT; q++) { const char *x = cyaml_strerror((cyaml_err_t)q); static std::map<int, std::string> first; auto it = first.emplace(q, x).first; if (it->second != x) m.fail("cyaml_strerror(%d) changed", q); } break; }
		}
		/* Everything alive is as it was made. */
		size_t reached[3] = {0, 0, 0};
		for (auto &x : objs) {
			Reader rd(m, cfg[x.c]->heap, "live object"); rd.exact_zero = x.exact;
			Val got = rd.top(*w.s[x.k], x.p, x.n); same(m, *w.s[x.k], w.get(m, x.k, x.d, x.c).ref.v, got, mc::fmt("live object after operation %d", i + 1).c_str());
			reached[x.c] += rd.reached.size();
		}
		for (int q = 0; q < 3; q++) if (cfg[q]->heap.live() != reached[q]) m.fail("after operation %d %zu block(s) are live, the live objects have %zu", i + 1, cfg[q]->heap.live(), reached[q]);
		if (w.a.hash() != w.schema_hash) m.fail("operation %d changed a schema", i + 1);
		m.outcome((uint64_t)(((ops[i].kind * 8 + ops[i].k) * 16 + ops[i].d) * 4 + ops[i].c)); m.outcome((uint64_t)objs.size());
	}
	for (auto &x : objs) env::release(m, *cfg[x.c], w.s[x.k]->c, x.p, x.n);
	for (int q = 0; q < 3; q++) if (cfg[q]->heap.live()) m.fail("%zu block(s) left in the end", cfg[q]->heap.live());
	env::entry_errno = ERANGE;
	m.count("operations", (uint64_t)ops.size());
}
static void history(mc::Ctx &m, int depth, int nops) {
	int en = m.pick(2);
	std::vector<Op> ops;
	size_t live = 0;
	for (int i = 0; i < depth; i++) {
		int k = m.pick(nops); if (nops == LONG) k = PICKED[k];
		if (!possible(m, FULL[k], live)) m.prune();
		ops.push_back(FULL[k]);
	}
	m.commit();
	exec(m, ops, en);
}
/* Schemas and documents whose names differ only in case, under configurations that see and do not see the difference. */
static void twins(mc::Ctx &m, int depth) {
	static std::vector<Op> all;
	if (all.empty()) { for (int k = 3; k < 5; k++) for (int d = 0; d < 7; d++) for (int c = 0; c < 2; c++) all.push_back({LOAD, k, d, c}); all.push_back({LOAD, 0, 0, 0}); all.push_back({LOAD, 0, 7, 1}); all.push_back({LOAD, 0, 7, 0}); all.push_back({SAVE, 0, 0, 0}); all.push_back({COPY, 0, 0, 0}); }
	std::vector<Op> ops; size_t live = 0;
	for (int i = 0; i < depth; i++) { const Op &o = all[(size_t)m.pick((int)all.size())]; if (!possible(m, o, live)) m.prune(); ops.push_back(o); }
	m.commit();
	exec(m, ops, 0);
}
/* One operation many times, then any other. */
static void repeats(mc::Ctx &m) {
	static const int N[] = {2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
	int a = m.pick(ALL), b = m.pick(ALL), n = N[m.thorough ? m.pick(15) : (int[]){0, 4, 9, 13}[m.pick(4)]];
	std::vector<Op> ops; size_t live = 0;
	auto add = [&](const Op &o) { if (!possible(m, o, live)) m.prune(); ops.push_back(o); };
	Op first = {LOAD, 0, 0, 0}, drop = {FREE, 0, 0, 0};
	bool on = FULL[a].kind >= SAVE && FULL[a].kind <= FREE;
	if (on) { add(first); if (FULL[a].k == 1) add(first); }
	if (FULL[a].kind == FREE) m.prune();
	m.commit();
	size_t keep = live;
	for (int i = 0; i < n; i++) { add(FULL[a]); while (live > keep) add(drop); }
	add(FULL[b]);
	exec(m, ops, 0);
}
/* Schemas made in the memory of earlier ones, as by a client that builds them at run time: all that a call may rely on
 * is what the memory holds now.  Configurations share their address as well. */
static const int VARIANTS = 36, VDOCS = 7;
static void variant(gen::Case &c, int v, int d) {
	static const size_t SLOT = 1536, SLOTS = 64; static char *pool = (char *)malloc(SLOT * SLOTS);
	Arena &a = c.a; a.pool = pool; a.slot = SLOT; a.slots = SLOTS;
	auto add = [&](T *p, const char *k, T *t) { Field f; f.key = k; f.t = t; p->fields.push_back(f); return t; };
	T *p = c.top = a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
	T *i = add(p, v == 1 ? "A" : "a", a.t(v == 2 ? CYAML_UINT : CYAML_INT, 0, v == 3 ? 1 : 4));
	if (v == 4) { i->flags |= CYAML_FLAG_OPTIONAL; i->imiss = 9; }
	if (v == 5) { i->imin = -5; i->imax = 5; }
	T *e = add(p, "e", a.t(CYAML_ENUM, v == 6 ? 0 : CYAML_FLAG_STRICT)); e->strs = {{"one", 1}, {"two", 2}, {"ten", 10}};
	if (v == 7) std::swap(e->strs[0].second, e->strs[1].second);
	if (v == 8) std::swap(e->strs[0].first, e->strs[1].first);
	if (v == 9) e->strs.pop_back();
	if (v == 10) e->flags |= CYAML_FLAG_CASE_INSENSITIVE;
	T *f = add(p, "f", a.t(CYAML_FLAGS, v == 11 ? 0 : CYAML_FLAG_STRICT)); f->strs = {{"ra", 1}, {"rb", 2}, {"rc", 4}};
	if (v == 12) f->strs[1].second = 0x20;
	if (v == 13) f->strs[2].first = "RC";
	if (v == 14) f->strs.pop_back();
	T *b = add(p, "b", a.t(CYAML_BITFIELD)); b->bits = {{"lo", 0, 4}, {"hi", 8, 4}};
	if (v == 15) b->bits[1].off = 16;
	if (v == 16) b->bits[0].bits = 2;
	if (v == 17) std::swap(b->bits[0].name, b->bits[1].name);
	T *mm = add(p, "m", a.t(CYAML_MAPPING, v == 18 ? CYAML_FLAG_CASE_INSENSITIVE : 0));
	add(mm, v == 19 ? "y" : "x", a.t(CYAML_UINT, 0, 1)); add(mm, v == 19 ? "x" : "y", a.t(CYAML_UINT, v == 20 ? 0 : CYAML_FLAG_OPTIONAL, 1));
	if (v == 21) mm->fields[1].t->umiss = 33;
	if (v == 22) mm->fields.pop_back();
	T *q = add(p, "q", a.t(v == 23 ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE, CYAML_FLAG_POINTER)); q->smax = 5; if (v == 23) q->smin = q->smax = 3;
	if (v == 24) q->smax = 2;
	if (v == 25) q->smin = 4;
	if (v == 26) p->fields.back().cnt_size = 1;
	q->entry = a.t(CYAML_INT, v == 27 ? CYAML_FLAG_POINTER : 0, v == 28 ? 1 : 4);
	T *s = add(p, "s", a.t(CYAML_STRING, CYAML_FLAG_POINTER | (v == 29 ? CYAML_FLAG_POINTER_NULL_STR : 0u), 1)); s->smax = v == 30 ? 3 : CYAML_UNLIMITED;
	if (v == 31) { s->flags |= CYAML_FLAG_OPTIONAL; s->has_smiss = true; s->smiss = "none"; }
	if (v == 32) p->reverse = true;
	if (v == 33) p->flags |= CYAML_FLAG_CASE_INSENSITIVE;
	if (v != 34) add(p, v == 35 ? "u" : "t", a.t(CYAML_UINT, 0, 2));
	/* documents */
	auto L = [&](std::initializer_list<const char *> l) { Node x = Node::seq(); for (auto &y : l) x.add(S(y)); return x; };
	auto M = [&](std::initializer_list<std::pair<const char *, Node>> l) { Node x = Node::map(); for (auto &y : l) x.add(y.first, y.second); return x; };
	Node x = M({{"a", S(d == 1 ? "100" : "3")}, {"e", S(d == 1 ? "ten" : d == 2 ? "TWO" : "two")}, {"f", d == 1 ? L({"rc"}) : L({"ra", "rb"})}, {"b", M({{"lo", S(d == 1 ? "9" : "2")}, {"hi", S("5")}})},
		{"m", d == 3 ? M({{"x", S("7")}}) : d == 2 ? M({{"X", S("7")}, {"y", S("8")}}) : M({{"x", S("7")}, {"y", S("8")}})}, {"q", d == 4 ? L({"1"}) : L({"1", "2", "3"})}, {"s", S(d == 4 ? "null" : d == 1 ? "text" : "abc")}, {"t", S("77")}});
	if (d == 2) x.kids[0].s = "A";
	if (d == 5) x.kids.resize(x.kids.size() - 2);
	if (d == 6) x.kids[x.kids.size() - 2].s = "u";
	c.doc = x;
}
static void reused(mc::Ctx &m, int depth) {
	static const unsigned CF[] = {0, CYAML_CFG_CASE_INSENSITIVE | CYAML_CFG_IGNORE_UNKNOWN_KEYS, CYAML_CFG_STYLE_FLOW};
	std::vector<std::array<int, 3>> h;
	for (int i = 0; i < depth; i++) {
		int v = depth == 2 || i == 1 ? m.pick(VARIANTS) : 0, d = m.pick(VDOCS), k = m.pick(depth == 2 ? 2 : 3); h.push_back({v, d, k});
	}
	m.commit();
	const void *top = nullptr;
	for (auto &x : h) {
		gen::Case c; variant(c, x[0], x[1]); c.cfg = CF[x[2]]; gen::finish(m, c);
		if (!top) top = c.s; else if (top != c.s) m.fail("schemas at different addresses");
		verify_load(m, c);
		if (c.ref.ok()) { verify_save(m, c, c.ref.v); verify_copy(m, c, c.ref.v); }
	}
}
/* Conversions at their limits, one after another, with nothing reset in between: errno is what the last call left. */
static void numbers(mc::Ctx &m) {
	static const char *const TX[] = {"9223372036854775807", "-9223372036854775808", "18446744073709551615", "99999999999999999999", "-99999999999999999999", "9223372036854775808", "127", "128", "0", "1e400", "1e-400", "1.7976931348623157e308", "3.4028234e38", "3.5e38", "5e-324", "inf", "nan", "x", "", "-1"};
	const int NT = 20, NK = 12;
	struct One { int k, t; };
	One a[2];
	int en = m.pick(2), pos = m.pick(2);
	for (auto &x : a) { x.k = m.pick(NK); x.t = m.pick(NT); }
	m.commit();
	for (int i = 0; i < 2; i++) {
		env::entry_errno = -1;
		gen::Case c; Node n = Node::sc(TX[a[i].t], DOUBLE), sib = Node::sc("1"); T *t;
		switch (a[i].k) {
		case 0: t = c.a.t(CYAML_INT, 0, 8); break;
		case 1: t = c.a.t(CYAML_UINT, 0, 8); break;
		case 2: t = c.a.t(CYAML_INT, 0, 1); break;
		case 3: t = c.a.t(CYAML_UINT, 0, 4); break;
		case 4: t = c.a.t(CYAML_FLOAT, 0, 8); break;
		case 5: t = c.a.t(CYAML_FLOAT, CYAML_FLAG_STRICT, 8); break;
		case 6: t = c.a.t(CYAML_FLOAT, 0, 4); break;
		case 7: t = c.a.t(CYAML_FLOAT, CYAML_FLAG_STRICT, 4); break;
		case 8: t = c.a.t(CYAML_ENUM, 0, 8); t->strs = {{"x", 5}}; break;
		case 9: { t = c.a.t(CYAML_FLAGS, 0, 8); t->strs = {{"x", 5}}; Node q = Node::seq(); q.add(n); n = q; break; }
		case 10: { t = c.a.t(CYAML_BITFIELD, 0, 8); t->bits = {{"all", 0, 64}}; Node q = Node::map(); q.add("all", n); n = q; break; }
		default: t = c.a.t(CYAML_BOOL, 0, 1);
		}
		place(c, t, n, sib, pos);
		gen::finish(m, c);
		static int left; errno = i ? left : en ? ERANGE : 0;
		env::Cfg cfg(c.cfg);
		env::LoadRes r = env::load(m, cfg, c.s, c.text); left = errno;
		env::entry_errno = ERANGE;
		if (c.ref.unspecified) m.prune();
		if (m.tracing()) m.note("%s\nexpected %s, got %s\n", c.show().c_str(), errset(c.ref.errs).c_str(), env::ename(r.err));
		if (verdict(m, c.ref.errs, r.err, i ? "second load" : "load")) { check_loaded(m, cfg.heap, *c.top, c.ref.v, r.data, r.count, "load", 0); if (r.data) env::release(m, cfg, c.s, r.data, r.count); }
		m.outcome((uint64_t)(a[i].k * 32 + a[i].t)); m.outcome((uint64_t)r.err);
	}
}
static void build(std::vector<mc::Family> &f, bool th) {
	f.push_back({"all operations", mc::fmt("every history of 3 of %d operations (loads of conforming, failing and malformed documents under 3 schemas and 3 configurations, file loads and saves, failing memory and files, saves, copies, frees, refused calls), errno set or clear before each", ALL), [](mc::Ctx &m) { history(m, 3, ALL); }, 0, 0});
	f.push_back({"longer", mc::fmt("every history of 4 of %d operations", SMALL), [](mc::Ctx &m) { history(m, 4, SMALL); }, 0, 0});
	f.push_back({"longest", mc::fmt("every history of %d of %d operations", th ? 6 : 5, LONG), [th](mc::Ctx &m) { history(m, th ? 6 : 5, LONG); }, 0, 0});
	f.push_back({"twins", mc::fmt("every history of %d of 33 operations on schemas, documents and configurations for which names differing in case matter", th ? 4 : 3), [th](mc::Ctx &m) { twins(m, th ? 4 : 3); }, 0, 0});
	f.push_back({"repeats", mc::fmt("each of %d operations up to 257 (300) times, then any one", ALL), repeats, 0, 0});
	f.push_back({"numbers", "every two loads of 20 scalar texts at the limits of the conversions as 12 types, errno left as it is between them", numbers, 0, 0});
	f.push_back({"reused memory", mc::fmt("histories of two loads, saves and copies under %d schemas built at the same addresses, %d documents, 2 configurations", VARIANTS, VDOCS), [](mc::Ctx &m) { reused(m, 2); }, 0, 0});
	if (th) { f.push_back({"reused memory, 3", "one schema between two uses of another", [](mc::Ctx &m) { reused(m, 3); }, 0, 0}); f.push_back({"all operations, 4", mc::fmt("every history of 4 of %d operations", ALL), [](mc::Ctx &m) { history(m, 4, ALL); }, 0, 0});
		f.push_back({"longer, 5", mc::fmt("every history of 5 of %d operations", SMALL), [](mc::Ctx &m) { history(m, 5, SMALL); }, 0, 0}); }
}
const mc::Prop mc::PROP = {"C20", "A case is a history of calls on shared schemas, configurations and objects, from the library's initial state; the outcome of each call is compared with its outcome alone, and all live objects, schemas and allocators with what they must hold after each call.", build};
