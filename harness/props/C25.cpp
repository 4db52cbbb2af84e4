#include "../common.hpp"
#include <unistd.h>
#include <limits.h>
using namespace md;
using namespace com;

/* ---- bad parameters ---- */
enum Bad { NO_CONFIG = 1, NO_MEMFN = 2, NO_SCHEMA = 4, COUNT = 8, NON_PTR = 16, NO_DATA = 32, TARGET = 64, NO_PATH = 128 };
enum Api { LOAD, LOADF, SAVE, SAVEF, COPY, FREE, APIS };
static const char *const API[] = {"cyaml_load_data", "cyaml_load_file", "cyaml_save_data", "cyaml_save_file", "cyaml_copy", "cyaml_free"};
static unsigned applicable(int api, int kind) {
	bool seq = kind == 1, seqf = kind == 2;
	switch (api) {
	case LOAD: return NO_CONFIG | NO_MEMFN | NO_SCHEMA | COUNT | NON_PTR | NO_DATA;
	case LOADF: return NO_CONFIG | NO_MEMFN | NO_SCHEMA | COUNT | NON_PTR | NO_DATA | NO_PATH;
	case SAVE: return NO_CONFIG | NO_MEMFN | NO_SCHEMA | COUNT | NON_PTR | NO_DATA;
	case SAVEF: return NO_CONFIG | NO_MEMFN | NO_SCHEMA | COUNT | NON_PTR | NO_DATA | NO_PATH;
	case COPY: return NO_CONFIG | NO_MEMFN | NO_SCHEMA | COUNT | NON_PTR | NO_DATA | TARGET;
	default: (void)seq; (void)seqf; return NO_CONFIG | NO_MEMFN | NO_SCHEMA | NO_DATA;
	}
}
static void params(mc::Ctx &m) {
	const int KINDS = 5;
	int api = m.pick(APIS), kind = m.pick(KINDS);
	unsigned can = applicable(api, kind), bad = 0;
	for (unsigned b = 1; b <= NO_PATH; b <<= 1) if ((can & b) && m.pick(2)) bad |= b;
	int log = m.pick(3);
	bool data_null2 = api == COPY && (bad & NO_DATA) && m.pick(2);   /* the input, not the output */
	bool by_value = bad & NON_PTR;
	m.commit();
	gen::Case c;
	T *t; Node doc;
	switch (kind) {
	case 0: t = c.a.t(CYAML_MAPPING); t->fields.resize(1); t->fields[0].key = "k"; t->fields[0].t = c.a.t(CYAML_INT, CYAML_FLAG_POINTER, 4); doc = Node::map(); doc.add("k", Node::sc("5")); break;
	case 1: t = c.a.t(CYAML_SEQUENCE); t->smax = CYAML_UNLIMITED; t->entry = c.a.t(CYAML_INT, 0, 2); doc = Node::seq(); doc.add(Node::sc("5")); doc.add(Node::sc("6")); break;
	case 2: t = c.a.t(CYAML_SEQUENCE_FIXED); t->smin = t->smax = 2; t->entry = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->entry->smax = 10; doc = Node::seq(); doc.add(Node::sc("5")); doc.add(Node::sc("6")); break;
	case 3: t = c.a.t(CYAML_STRING, 0, 8); t->smax = 7; doc = Node::sc("text"); break;
	default: t = c.a.t(CYAML_UINT, 0, 8); doc = Node::sc("99"); break;
	}
	t->flags |= CYAML_FLAG_POINTER;
	c.top = t; c.doc = doc;
	gen::finish(m, c);
	Val v = c.ref.v;
	if (by_value) c.top->c->flags = (cyaml_flag_e)((unsigned)c.top->c->flags & ~(unsigned)CYAML_FLAG_POINTER);
	std::set<int> want;
	bool have_schema = !(bad & NO_SCHEMA);
	if (bad & NO_CONFIG) want.insert(CYAML_ERR_BAD_PARAM_NULL_CONFIG);
	else if (bad & NO_MEMFN) want.insert(CYAML_ERR_BAD_CONFIG_NULL_MEMFN);
	if (!have_schema) want.insert(CYAML_ERR_BAD_PARAM_NULL_SCHEMA);
	if ((bad & COUNT) && have_schema) want.insert(CYAML_ERR_BAD_PARAM_SEQ_COUNT);
	if (by_value && have_schema && api != COPY) want.insert(CYAML_ERR_TOP_LEVEL_NON_PTR);
	if ((bad & NO_DATA) && api != FREE) want.insert(CYAML_ERR_BAD_PARAM_NULL_DATA);
	if (bad & TARGET) { if (by_value && have_schema) bad &= ~(unsigned)TARGET; else if (have_schema && !((bad & NO_DATA) && !data_null2)) want.insert(CYAML_ERR_DATA_TARGET_NON_NULL); }
	if (bad & NO_PATH) want.insert(CYAML_ERR_FILE_OPEN);
	if (m.tracing()) m.note("%s, schema kind %d, arguments made bad: %s%s%s%s%s%s%s%s; expected %s\n", API[api], kind,
		bad & NO_CONFIG ? "config " : "", bad & NO_MEMFN ? "mem_fn " : "", bad & NO_SCHEMA ? "schema " : "", bad & COUNT ? "seq_count " : "", bad & NON_PTR ? "non-pointer " : "", bad & NO_DATA ? (data_null2 ? "data(in) " : "data ") : "", bad & TARGET ? "target " : "", bad & NO_PATH ? "path" : "", errset(want).c_str());
	env::Cfg cfg(0, log == 2 ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR, log > 0);
	cfg.log.keep = false;
	Src s = {nullptr, 0};
	uint8_t mark = 77, block[64];
	memset(block, 0xA5, sizeof block);
	s = source(cfg, *c.top, v);
	size_t live = cfg.heap.live(); uint64_t h = cfg.heap.content_hash();
	const cyaml_config_t *pc = bad & NO_CONFIG ? nullptr : &cfg.c;
	if (bad & NO_MEMFN) cfg.c.mem_fn = nullptr;
	const cyaml_schema_value_t *ps = have_schema ? c.s : nullptr;
	cyaml_err_t e = CYAML_OK;
	std::string path = bad & NO_PATH ? mc::scratch("absent") + "/no/such" : mc::scratch("p.yaml");
	bool seqt = kind == 1, anyseq = kind == 1 || kind == 2;
	const std::string &text = c.text;
	env::Track tr(cfg);
	switch (api) {
	case LOAD: case LOADF: {
		if (api == LOADF && !(bad & NO_PATH)) { FILE *f = fopen(path.c_str(), "wb"); fwrite(text.data(), 1, text.size(), f); fclose(f); }
		cyaml_data_t *out = &mark; unsigned n = 0xA5A5A5A5u;
		unsigned *pn = seqt != !!(bad & COUNT) ? &n : nullptr;
		{ env::InLib il; e = api == LOAD ? cyaml_load_data((const uint8_t *)text.data(), text.size(), pc, ps, bad & NO_DATA ? nullptr : &out, pn) : cyaml_load_file(path.c_str(), pc, ps, bad & NO_DATA ? nullptr : &out, pn); }
		if (e != CYAML_OK && (out != &mark || n != 0xA5A5A5A5u)) m.fail("%s failed (%s) but changed its outputs", API[api], env::ename(e));
		if (e == CYAML_OK && out == &mark) m.fail("%s succeeded without giving the data", API[api]);
		if (e == CYAML_OK && want.empty()) env::release(m, cfg, c.s, out, n);
		break; }
	case SAVE: {
		char *out = (char *)&mark; size_t len = 12345;
		unsigned n = seqt != !!(bad & COUNT) ? 2 : 0;
		{ env::InLib il; e = cyaml_save_data(&out, &len, pc, ps, bad & NO_DATA ? nullptr : s.p, n); }
		if (e != CYAML_OK && (out != (char *)&mark || len != 12345)) m.fail("%s failed (%s) but changed its outputs", API[api], env::ename(e));
		if (e == CYAML_OK) { if (out == (char *)&mark) m.fail("%s succeeded without giving the text", API[api]); env::Heap::fn(&cfg.heap, out, 0); }
		break; }
	case SAVEF: {
		unsigned n = seqt != !!(bad & COUNT) ? 2 : 0;
		{ env::InLib il; e = cyaml_save_file(path.c_str(), pc, ps, bad & NO_DATA ? nullptr : s.p, n); }
		break; }
	case COPY: {
		bool nul_out = (bad & NO_DATA) && !data_null2;
		cyaml_data_t *out = by_value && have_schema ? block : bad & TARGET ? &mark : nullptr, *out0;
		if (by_value && nul_out && m.choose(1) == 0) { /* no target memory is the same as no target */ if (log & 1) { nul_out = false; out = nullptr; } }
		out0 = out;
		unsigned n = anyseq != !!(bad & COUNT) ? 2 : 0;
		{ env::InLib il; e = cyaml_copy(pc, ps, data_null2 ? nullptr : s.p, n, nul_out ? nullptr : &out); }
		if (e != CYAML_OK) {
			if (out != out0) m.fail("%s failed (%s) but changed its output", API[api], env::ename(e));
			for (uint8_t b : block) if (b != 0xA5) m.fail("%s failed (%s) but changed the target memory", API[api], env::ename(e));
		} else if (want.empty()) {
			if (by_value) { if (out != block) m.fail("cyaml_copy replaced the target memory"); env::release(m, cfg, c.s, block, n); }
			else env::release(m, cfg, c.s, out, n);
		}
		break; }
	default: {
		/* freeing nothing is fine; a refused free leaves the data alone */
		{ env::InLib il; e = cyaml_free(pc, ps, bad & NO_DATA ? nullptr : s.p, s.count); }
		if (e == CYAML_OK && want.empty() && !(bad & NO_DATA)) {
			/* a non-pointer schema frees what is inside only; not asked here */
			if (cfg.heap.live()) m.fail("cyaml_free left %zu block(s)", cfg.heap.live());
			live = 0; h = cfg.heap.content_hash();
		}
	}
	}
	unlink(mc::scratch("p.yaml").c_str());
	cfg.c.mem_fn = env::Heap::fn;
	env::check_env(m, cfg, API[api]);
	verdict(m, want, e, API[api]);
	if (cfg.heap.live() != live) m.fail("%s (%s) changed the number of live blocks by %ld", API[api], env::ename(e), (long)cfg.heap.live() - (long)live);
	if (cfg.heap.content_hash() != h) m.fail("%s (%s) changed the data given to it", API[api], env::ename(e));
	m.outcome((uint64_t)e); m.outcome((uint64_t)(api * 8 + kind)); m.outcome(bad);
}
/* ---- malformed schemas ---- */
/* Values a document presents (D) or data holds (V): the schema node, the field naming it, whether an entry. */
struct Vis { T *t; Field *f; bool entry; const Node *n; const Val *v; bool in_array; };
static bool nullish(const T &t, const Node &n) {
	if (n.k != Node::SCALAR) return false;
	if (t.null_ok() && n.s.empty()) return true;
	return t.null_str() && (n.s.empty() || n.s == "~" || n.s == "null" || n.s == "Null" || n.s == "NULL");
}
static void visit(T &t, const Node &n, std::vector<Vis> &out, Field *f = nullptr, bool entry = false) {
	if (t.type == CYAML_IGNORE || nullish(t, n)) return;
	out.push_back({&t, f, entry, &n, nullptr, entry});
	if (t.type == CYAML_MAPPING && n.k == Node::MAP)
		for (size_t i = 0; i + 1 < n.kids.size(); i += 2) for (auto &x : t.fields) if (n.kids[i].k == Node::SCALAR && x.key == n.kids[i].s) { visit(*x.t, n.kids[i + 1], out, &x); break; }
	if (t.is_seq() && n.k == Node::SEQ) for (auto &k : n.kids) visit(*t.entry, k, out, nullptr, true);
}
static void visit(T &t, const Val &v, std::vector<Vis> &out, Field *f = nullptr, bool entry = false) {
	if (t.type == CYAML_IGNORE || v.k == Val::NUL) return;
	if (v.k == Val::ZERO && t.ptr()) return;
	out.push_back({&t, f, entry, nullptr, &v, entry});
	if (v.k == Val::MAP) for (size_t i = 0; i < v.v.size(); i++) visit(*t.fields[i].t, v.v[i], out, &t.fields[i]);
	if (v.k == Val::SEQ) for (auto &x : v.v) visit(*t.entry, x, out, nullptr, true);
}
static void nodes(T &t, std::vector<Vis> &out, Field *f = nullptr, bool entry = false) {
	out.push_back({&t, f, entry, nullptr, nullptr, entry});
	for (auto &x : t.fields) nodes(*x.t, out, &x);
	if (t.entry) nodes(*t.entry, out, nullptr, true);
}
static bool number(cyaml_type_e k) { return k == CYAML_INT || k == CYAML_UINT || k == CYAML_BOOL || k == CYAML_ENUM || k == CYAML_FLAGS || k == CYAML_BITFIELD; }
enum How { SIZE, FSIZE, TYPE, BITDEF, FIXED, INSEQ, CNT, STRLIM, INTLIM, SEQLIM, HOWS };
struct Mut { How how; Vis at; std::set<int> codes; int bit = -1; };
/* Make one schema node malformed. False: not possible there. */
static bool mutate(mc::Ctx &m, const Vis &x, How how, Mut &r) {
	cyaml_schema_value_t *s = x.t->c;
	r.how = how; r.at = x;
	switch (how) {
	case SIZE: { static const uint32_t BAD[] = {0, 9, 255, 0x108};
		if (!number(x.t->type)) return false;
		s->data_size = BAD[m.pick(4)]; r.codes = {CYAML_ERR_INVALID_DATA_SIZE}; break; }
	case FSIZE: { static const uint32_t BAD[] = {0, 1, 2, 3, 5, 7, 9, 16, 0x104};
		if (x.t->type != CYAML_FLOAT) return false;
		s->data_size = BAD[m.pick(9)]; r.codes = {CYAML_ERR_INVALID_DATA_SIZE}; break; }
	case TYPE: { static const int BAD[] = {CYAML__TYPE_COUNT, CYAML__TYPE_COUNT + 1, 100, -1, INT32_MAX};
		s->type = (cyaml_type_e)BAD[m.pick(5)]; r.codes = {CYAML_ERR_BAD_TYPE_IN_SCHEMA}; break; }
	case BITDEF: {
		if (x.t->type != CYAML_BITFIELD || x.t->bits.empty()) return false;
		int b = m.pick((int)x.t->bits.size()), h = m.pick(4); auto *d = (cyaml_bitdef_t *)s->bitfield.bitdefs + b; unsigned n = x.t->size * 8;
		if (h == 0) d->bits = (uint8_t)(n - d->offset + 1); else if (h == 1) { d->offset = (uint8_t)n; d->bits = 1; } else if (h == 2) { d->offset = 255; d->bits = 255; } else { d->offset = 0; d->bits = (uint8_t)(n + 1); }
		r.bit = b; r.codes = {CYAML_ERR_BAD_BITVAL_IN_SCHEMA}; break; }
	case FIXED: if (x.t->type != CYAML_SEQUENCE_FIXED) return false;
		{ static const int64_t D[] = {-1, 1, 1000}; int64_t mn = (int64_t)x.t->smin + D[m.pick(3)]; if (mn < 0) return false; s->sequence.min = (uint32_t)mn; }
		r.codes = {CYAML_ERR_SEQUENCE_FIXED_COUNT}; break;
	case INSEQ: if (!x.entry || x.t->type != CYAML_SEQUENCE_FIXED) return false;
		s->type = CYAML_SEQUENCE; r.codes = {CYAML_ERR_SEQUENCE_IN_SEQUENCE}; break;
	case CNT: { static const uint8_t BAD[] = {0, 9, 16, 255};
		if (!x.f || x.t->type != CYAML_SEQUENCE) return false;
		((cyaml_schema_field_t *)((char *)s - offsetof(cyaml_schema_field_t, value)))->count_size = BAD[m.pick(4)];
		r.codes = {CYAML_ERR_INVALID_DATA_SIZE}; break; }
	case STRLIM: if (x.t->type != CYAML_STRING) return false;
		{ int h = m.pick(3); s->string.max = h == 0 ? 0 : h == 1 ? 4 : 0xfffffffe; s->string.min = s->string.max + 1; }
		r.codes = {CYAML_ERR_BAD_MIN_MAX_SCHEMA}; break;
	case INTLIM: if (x.t->type != CYAML_INT && x.t->type != CYAML_UINT) return false;
		if (x.t->type == CYAML_INT) { int h = m.pick(3); s->integer.min = h == 0 ? 1 : h == 1 ? INT64_MAX : 5; s->integer.max = h == 0 ? 0 : h == 1 ? INT64_MIN : -5; }
		else { int h = m.pick(2); s->unsigned_integer.min = h ? UINT64_MAX : 1; s->unsigned_integer.max = h ? 1 : 0; }
		r.codes = {CYAML_ERR_INVALID_VALUE, CYAML_ERR_BAD_MIN_MAX_SCHEMA}; break;
	default: if (x.t->type != CYAML_SEQUENCE) return false;
		s->sequence.max = (uint32_t)m.pick(2); s->sequence.min = s->sequence.max + 1 + (uint32_t)m.pick(2);
		r.codes = {CYAML_ERR_SEQUENCE_ENTRIES_MIN, CYAML_ERR_SEQUENCE_ENTRIES_MAX, CYAML_ERR_BAD_MIN_MAX_SCHEMA};
	}
	return true;
}
/* Which of the malformations a call meets: the visited values give the codes that must (all of them met, any
 * may be the one reported). */
struct Expect { std::set<int> codes; bool certain = false, silent = true; };
static void meets(Expect &e, const std::vector<Vis> &seen, const std::vector<Mut> &muts, int api) {
	for (auto &u : muts) {
		bool met = false, sure = false;
		for (auto &x : seen) {
			if (x.t != u.at.t) continue;
			met = true;
			bool zero_ptr = x.t->ptr() && x.t->c->data_size == 0;
			switch (u.how) {
			case BITDEF:
				if (api == LOAD) { bool named = false; for (size_t i = 0; i < x.n->kids.size(); i += 2) if (x.n->kids[i].s == x.t->bits[(size_t)u.bit].name) named = true; if (!named) continue; }
				sure = api != COPY; break;
			case SIZE: case FSIZE: sure = api != COPY; if (zero_ptr) e.codes.insert(CYAML_ERR_OOM); break;   /* a zero-byte allocation may be refused */
			case CNT: sure = api != LOAD || !x.n->kids.empty(); break;
			case STRLIM: sure = api == LOAD; break;
			case INTLIM: sure = api == LOAD; break;
			case SEQLIM: sure = api == LOAD; break;
			default: sure = true;
			}
			if (sure) break;
		}
		if (met || u.how == CNT) { e.silent = false; e.codes.insert(u.codes.begin(), u.codes.end()); }
		if (sure) e.certain = true;
	}
}
static void expect(mc::Ctx &m, const Expect &e, int got, const char *what) {
	if (got == CYAML_OK) { if (e.certain) m.fail("%s succeeded where %s was expected", what, errset(e.codes).c_str()); return; }
	if (e.silent) m.fail("%s failed with %s although it meets nothing malformed", what, env::ename(got));
	if (!e.codes.count(got)) m.fail("%s failed with %s where %s was expected", what, env::ename(got), errset(e.codes).c_str());
}
/* Inside something with a default collection: the default's bytes would not be what the malformed schema says. */
static bool in_default(const T &t, const T *x, bool under = false) {
	under = under || t.has_miss;
	if (&t == x) return under;
	for (auto &f : t.fields) if (in_default(*f.t, x, under)) return true;
	return t.entry && in_default(*t.entry, x, under);
}
static bool start(mc::Ctx &m, gen::Case &c, const gen::Opt &o) {
	gen::Gen g(m, c, o);
	c.top = g.schema(gen::Gen::TOP, 0);
	if (o.nodes - g.left < o.min_nodes) m.prune();
	g.inst = 0; c.doc = g.doc(*c.top);
	gen::finish(m, c);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	return true;
}
static void run(mc::Ctx &m, gen::Case &c, const std::vector<Mut> &muts, bool savable) {
	std::vector<Vis> d, v;
	visit(*c.top, c.doc, d);
	Val val = canon(*c.top, c.ref.v);
	visit(*c.top, val, v);
	Expect el, es, ec;
	meets(el, d, muts, LOAD); meets(es, v, muts, SAVE); meets(ec, v, muts, COPY);
	/* defaults of missing fields are values of the data the document does not present: they may or may not be met */
	bool defaults = c.ref.defaults > 0, unchecked = false;
	{ std::vector<Vis> all; nodes(*c.top, all); for (auto &x : all) if (x.f && x.t->optional()) defaults = true; }
	for (auto &u : muts) {
		if (defaults) { el.silent = false; el.codes.insert(u.codes.begin(), u.codes.end()); if (u.how == SIZE || u.how == FSIZE) el.codes.insert(CYAML_ERR_OOM); }
		if (u.how == SIZE || u.how == FSIZE) unchecked = true;
		if (u.how == FIXED || u.how == STRLIM || u.how == SEQLIM) {
			/* what the schema gives as default may break its own limits */
			if (defaults) { el.codes.insert({CYAML_ERR_STRING_LENGTH_MIN, CYAML_ERR_STRING_LENGTH_MAX, CYAML_ERR_SEQUENCE_ENTRIES_MIN, CYAML_ERR_SEQUENCE_ENTRIES_MAX}); }
		}
	}
	if (m.tracing()) m.note("%s\nmalformed in %zu place(s); load: %s%s\n", c.show().substr(0, 5000).c_str(), muts.size(), errset(el.codes).c_str(), el.certain ? "" : " (if met)");
	for (auto &u : muts) if (m.tracing()) m.note("malformation %d at a value of type %d%s%s\n", u.how, (int)u.at.t->type, u.at.f ? ", field " : "", u.at.f ? u.at.f->key.c_str() : "");
	{
		env::Cfg cfg(c.cfg, CYAML_LOG_DEBUG, true); cfg.log.keep = false;
		env::LoadRes r = env::load(m, cfg, c.s, c.text);
		expect(m, el, r.err, "load");
		m.outcome((uint64_t)r.err); m.outcome(c.a.hash());
		if (r.err == CYAML_OK) { if (r.data) env::release(m, cfg, c.s, r.data, r.count); if (cfg.heap.live()) m.fail("cyaml_free left %zu block(s)", cfg.heap.live()); m.count("loads that met nothing malformed"); }
		else m.count("malformed schema refused by load");
	}
	if (!savable) return;
	{
		env::Cfg cfg(c.cfg, CYAML_LOG_DEBUG, true); cfg.log.keep = false;
		Src s = source(cfg, *c.top, val);
		env::SaveRes r = env::save(m, cfg, c.s, s.p, s.count);
		expect(m, es, r.err, "save");
		std::string p = mc::scratch("out.yaml");
		cyaml_err_t e = env::save_file(m, cfg, p.c_str(), c.s, s.p, s.count);
		unlink(p.c_str());
		expect(m, es, e, "save to a file");
		m.outcome((uint64_t)r.err);
		if (r.err != CYAML_OK) m.count("malformed schema refused by save");
	}
	if (unchecked) return;     /* copy takes numbers as the bytes the schema says they are */
	{
		env::Cfg cfg(c.cfg, CYAML_LOG_DEBUG, true); cfg.log.keep = false;
		env::Cfg src;
		Src s = source(src, *c.top, val);
		unsigned n = c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : s.count;
		env::CopyRes r = env::copy(m, cfg, c.s, s.p, n);
		expect(m, ec, r.err, "copy");
		m.outcome((uint64_t)r.err);
		if (r.err != CYAML_OK) m.count("malformed schema refused by copy");
		else if (r.data) env::release(m, cfg, c.s, r.data, s.count);
		if (cfg.heap.live()) m.fail("a copy and its free left %zu block(s)", cfg.heap.live());
	}
}
static void malformed(mc::Ctx &m, gen::Opt o) {
	gen::Case c; start(m, c, o);
	std::vector<Vis> at; nodes(*c.top, at);
	int times = 1 + m.choose(2);
	std::vector<Mut> muts;
	for (int i = 0; i < times; i++) {
		const Vis &x = at[(size_t)m.pick((int)at.size())];
		for (auto &u : muts) if (u.at.t == x.t) m.prune();      /* one malformation per node */
		if (x.t->type == CYAML_IGNORE) m.prune();
		How how = (How)m.pick(HOWS);
		if (&x == &at[0] && how == TYPE && x.t->is_seq()) m.prune();   /* that is a bad seq_count argument too */
		if ((how == SIZE || how == FSIZE) && in_default(*c.top, x.t)) m.prune();
		Mut u; if (!mutate(m, x, how, u)) m.prune();
		muts.push_back(u);
	}
	m.commit();
	bool savable = c.ref.v.k != Val::NUL && c.ref.v.k != Val::ZERO && !(c.top->type == CYAML_SEQUENCE && c.ref.v.v.empty());
	if (savable) { SaveRef r = ref_save(*c.top, c.ref.v, 0); savable = !r.unspecified && r.ok(); }
	/* a NULL that only a default could explain, and the like, are not this property's concern */
	run(m, c, muts, savable);
}
/* Long and deep structures with the malformed node at each position. */
static void ladders(mc::Ctx &m) {
	int kind = m.pick(3), n = 1 + m.pick(m.thorough ? 70 : 24), at = kind == 0 ? 0 : m.pick(n), what = m.pick(6), ind = m.pick(2);
	m.commit();
	gen::Case c;
	auto make = [&](Node &d) {
		T *t; unsigned p = ind ? CYAML_FLAG_POINTER : 0;
		switch (what) {
		case 0: t = c.a.t(CYAML_INT, p, 4); d = Node::sc("-5"); break;
		case 1: t = c.a.t(CYAML_FLOAT, p, 8); d = Node::sc("1.5"); break;
		case 2: t = c.a.t(CYAML_FLAGS, p, 4); t->strs = {{"a", 1}}; d = Node::seq(); d.add(Node::sc("a")); break;
		case 3: t = c.a.t(CYAML_BITFIELD, p, 4); t->bits = {{"a", 1, 5}}; d = Node::map(); d.add("a", Node::sc("3")); break;
		case 4: t = c.a.t(CYAML_SEQUENCE_FIXED, p); t->smin = t->smax = 2; t->entry = c.a.t(CYAML_INT, 0, 2); d = Node::seq(); d.add(Node::sc("1")); d.add(Node::sc("2")); break;
		default: t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->smax = 9; d = Node::sc("text"); break;
		}
		return t;
	};
	static const How H[] = {SIZE, FSIZE, SIZE, BITDEF, FIXED, STRLIM};
	T *target = nullptr; Node d;
	if (kind == 0) { T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; target = s->entry = make(d); c.doc = Node::seq(); for (int i = 0; i < n; i++) c.doc.add(d); }
	else if (kind == 1) { T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize(n); c.doc = Node::map();
		for (int i = 0; i < n; i++) { p->fields[i].key = mc::fmt("f%d", i); p->fields[i].t = make(d); if (i == at) target = p->fields[i].t; c.doc.add(p->fields[i].key, d); } }
	else {
		T *t = target = make(d); c.doc = d;
		for (int k = 0; k < n; k++) {
			Node q;
			if (k % 2 && t->type != CYAML_SEQUENCE) { T *s = c.a.t(CYAML_SEQUENCE_FIXED, ind && k % 4 == 1 ? CYAML_FLAG_POINTER : 0); s->smin = s->smax = 1; s->entry = t; q = Node::seq(); q.add(c.doc); t = s; }
			else { T *p = c.a.t(CYAML_MAPPING, k % 4 ? CYAML_FLAG_POINTER : 0); p->fields.resize(1); p->fields[0].key = "d"; p->fields[0].t = t; q = Node::map(); q.add("d", c.doc); t = p; }
			c.doc = q;
		}
		t->flags |= CYAML_FLAG_POINTER; c.top = t;
		if (at) m.prune();
	}
	gen::finish(m, c);
	if (!c.ref.ok()) m.fail("harness: ladder does not load");
	std::vector<Vis> ns; nodes(*c.top, ns); Mut u; bool done = false;
	for (auto &x : ns) if (x.t == target) { done = mutate(m, x, H[what], u); break; }
	if (!done) m.fail("harness: no malformation");
	run(m, c, {u}, true);
}
/* ---- error messages ---- */
struct Word { int code; const char *words[3]; };
static const Word WORDS[] = {
	{CYAML_OK, {"success", "ok", "no error"}}, {CYAML_ERR_OOM, {"memory", nullptr, nullptr}}, {CYAML_ERR_ALIAS, {"alias", nullptr, nullptr}},
	{CYAML_ERR_FILE_OPEN, {"open", "file", nullptr}}, {CYAML_ERR_INVALID_KEY, {"key", nullptr, nullptr}}, {CYAML_ERR_INVALID_VALUE, {"value", nullptr, nullptr}},
	{CYAML_ERR_INVALID_ALIAS, {"alias", "anchor", nullptr}}, {CYAML_ERR_INTERNAL_ERROR, {"internal", nullptr, nullptr}}, {CYAML_ERR_UNEXPECTED_EVENT, {"event", nullptr, nullptr}},
	{CYAML_ERR_STRING_LENGTH_MIN, {"short", "min", nullptr}}, {CYAML_ERR_STRING_LENGTH_MAX, {"long", "max", nullptr}}, {CYAML_ERR_INVALID_DATA_SIZE, {"size", nullptr, nullptr}},
	{CYAML_ERR_TOP_LEVEL_NON_PTR, {"top", "pointer", nullptr}}, {CYAML_ERR_BAD_TYPE_IN_SCHEMA, {"type", nullptr, nullptr}}, {CYAML_ERR_BAD_MIN_MAX_SCHEMA, {"min", "max", nullptr}},
	{CYAML_ERR_BAD_PARAM_SEQ_COUNT, {"count", nullptr, nullptr}}, {CYAML_ERR_BAD_PARAM_NULL_DATA, {"data", nullptr, nullptr}}, {CYAML_ERR_BAD_BITVAL_IN_SCHEMA, {"bit", nullptr, nullptr}},
	{CYAML_ERR_SEQUENCE_ENTRIES_MIN, {"few", "min", nullptr}}, {CYAML_ERR_SEQUENCE_ENTRIES_MAX, {"many", "max", nullptr}}, {CYAML_ERR_SEQUENCE_FIXED_COUNT, {"fixed", "unequal", nullptr}},
	{CYAML_ERR_SEQUENCE_IN_SEQUENCE, {"sequence", nullptr, nullptr}}, {CYAML_ERR_MAPPING_FIELD_MISSING, {"missing", nullptr, nullptr}}, {CYAML_ERR_BAD_CONFIG_NULL_MEMFN, {"mem", nullptr, nullptr}},
	{CYAML_ERR_BAD_PARAM_NULL_CONFIG, {"config", nullptr, nullptr}}, {CYAML_ERR_BAD_PARAM_NULL_SCHEMA, {"schema", nullptr, nullptr}}, {CYAML_ERR_DATA_TARGET_NON_NULL, {"target", nullptr, nullptr}},
	{CYAML_ERR_LIBYAML_EMITTER_INIT, {"emitter", nullptr, nullptr}}, {CYAML_ERR_LIBYAML_PARSER_INIT, {"parser", nullptr, nullptr}}, {CYAML_ERR_LIBYAML_EVENT_INIT, {"event", nullptr, nullptr}},
	{CYAML_ERR_LIBYAML_EMITTER, {"emitter", nullptr, nullptr}}, {CYAML_ERR_LIBYAML_PARSER, {"parser", nullptr, nullptr}},
};
static std::string message(mc::Ctx &m, int code) {
	const char *s = cyaml_strerror((cyaml_err_t)code);
	if (!s) m.fail("cyaml_strerror(%d) is NULL", code);
	return s;
}
static void named(mc::Ctx &m) {
	int k = m.pick(CYAML_ERR__COUNT);
	m.commit();
	std::string s = message(m, k), low;
	if (s.empty()) m.fail("the message for code %d is empty", k);
	for (int i = 0; i < CYAML_ERR__COUNT; i++) if (i != k && message(m, i) == s) m.fail("codes %d and %d have the same message '%s'", k, i, s.c_str());
	for (int i : {(int)CYAML_ERR__COUNT, -1}) if (message(m, i) == s) m.fail("the message for code %d is the one for invalid codes", k);
	for (char ch : s) low += (char)tolower((unsigned char)ch);
	for (auto &w : WORDS) if (w.code == k) {
		bool hit = false; for (const char *x : w.words) if (x && low.find(x) != std::string::npos) hit = true;
		if (!hit) m.fail("the message for code %d (%s) is '%s'", k, env::ename(k), s.c_str());
	}
	m.outcome(s);
}
/* Every other number. */
static const int BITS = 12;
static void numbers(mc::Ctx &m) {
	uint32_t block;
	uint32_t shift = 32 - BITS;
	if (m.thorough) block = (uint32_t)m.pick(1 << BITS);
	else { static const uint32_t B[] = {0, (1u << BITS) - 1, 1u << (BITS - 1), (1u << (BITS - 1)) - 1, 1, 2, 16, 256}; block = B[m.pick(8)]; }
	m.commit();
	const char *inv = cyaml_strerror(CYAML_ERR__COUNT); std::string invalid = inv ? inv : "";
	if (invalid.empty()) m.fail("no message for invalid codes");
	uint64_t first = (uint64_t)block << shift, n = 1ull << shift;
	for (uint64_t i = 0; i < n; i++) {
		uint32_t u = (uint32_t)(first + i); int v; memcpy(&v, &u, 4);
		const char *s = cyaml_strerror((cyaml_err_t)v);
		if (v >= 0 && v < CYAML_ERR__COUNT) { if (!s || !*s || s == inv) m.fail("code %d has no message of its own", v); continue; }
		if (s != inv && (!s || invalid != s)) m.fail("the number %d, not an error code, gives '%s'", v, s ? s : "(null)");
	}
	m.count("numbers given to cyaml_strerror", n);
	m.outcome(block);
}
static void build(std::vector<mc::Family> &f, bool th) {
	f.push_back({"params", "6 functions x 5 top-level types x every subset of bad arguments x no log, errors, debug", params, 0, 0});
	{ gen::Opt o; o.nodes = 3; o.vary_style = o.vary_names = o.vary_order = o.vary_cfg = false; o.vary_text = false; o.vary_layout = false;
	  f.push_back({"malformed", "every schema tree of up to 3 nodes with conforming documents; one or two schema nodes, presented by the document or not, made malformed in every way; load, save, copy, free", [o](mc::Ctx &m) { malformed(m, o); }, 2, 3});
	  o.nodes = 4; o.min_nodes = 4;
	  f.push_back({"malformed4", "the same for trees of 4 nodes", [o](mc::Ctx &m) { malformed(m, o); }, 1, 2}); }
	f.push_back({"ladders", "sequences and mappings of 1..24 (thorough 1..70) and nests of that depth with the malformed node at each position", ladders, 0, 0});
	f.push_back({"messages", "every error code", named, 0, 0});
	f.push_back({"numbers", th ? "all 2^32 numbers as error codes" : "8 x 2^20 numbers as error codes: around 0, INT_MAX, INT_MIN, -1 and powers of two", numbers, 0, 0});
}
const mc::Prop mc::PROP = {"C25", "A case is an API call with some of its arguments bad, or a schema with one or two malformed nodes and a document and data for the sound schema; every result code, the outputs and memory of load, save, copy and free are checked, and every number given to cyaml_strerror.", build};
