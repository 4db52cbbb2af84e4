#include "../savetext.hpp"
#include "../numbers.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace md;
using namespace com;

static std::string slurp(const std::string &p) {
	std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r;
	char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
	fclose(f); return r;
}
/* Save to memory and to a file; compare content, order, styles and delimiters with the reference. */
static void check(mc::Ctx &m, gen::Case &c, const Val &v, bool file) {
	SaveRef ref = ref_save(*c.top, v, c.cfg);
	if (ref.unspecified) m.prune();
	if (m.tracing()) m.note("schema %sconfiguration flags 0x%x\nvalue %s", describe(*c.top).substr(0, 3000).c_str(), c.cfg, describe(v).substr(0, 2000).c_str());
	if (!ref.ok()) m.prune();
	if (!expressible(c.top, ref.doc, c.cfg)) { m.count("not expressible by libyaml"); return; }
	std::string text;
	if (!verify_save(m, c, v, false, &text)) return;
	check_style(m, c.top, ref.doc, text, c.cfg);
	if (file) {
		env::Cfg cfg(c.cfg);
		Src s = source(cfg, *c.top, v);
		std::string p = mc::scratch("out.yaml");
		FILE *f = fopen(p.c_str(), "wb"); if (f) { fputs("old content, longer than some of the new ones", f); fclose(f); }
		cyaml_err_t e = env::save_file(m, cfg, p.c_str(), c.s, s.p, s.count);
		if (e != CYAML_OK) m.fail("save to a file failed: %s", env::ename(e));
		std::string t = slurp(p); unlink(p.c_str());
		if (t != text) m.fail("file and memory differ: %zu and %zu bytes\nmemory:\n%s\nfile:\n%s", text.size(), t.size(), env::quote(text, 1500).c_str(), env::quote(t, 1500).c_str());
		m.count("saved to a file as well");
	}
	m.outcome(c.a.hash());
}
static bool topless(const gen::Case &c, const Val &v) { return v.k == Val::NUL || v.k == Val::ZERO || (c.top->type == CYAML_SEQUENCE && v.v.empty()); }
static const unsigned CF[] = {0, CYAML_CFG_STYLE_FLOW, CYAML_CFG_STYLE_BLOCK, CYAML_CFG_STYLE_FLOW | CYAML_CFG_STYLE_BLOCK};
static const unsigned CO[] = {0, CYAML_FLAG_FLOW, CYAML_FLAG_BLOCK, CYAML_FLAG_FLOW | CYAML_FLAG_BLOCK};

/* Every combination of the five scalar style flags and the collection flags on a value and its parent. */
static void scalars(mc::Ctx &m) {
	static const struct { int prof; const char *txt; } P[] = {{0, "-42"}, {6, "42"}, {12, "true"}, {15, "1.5"}, {21, "one"}, {17, "abc"}, {17, "a b: c"}, {17, "two\nlines\n"}, {17, ""}, {18, " x"}, {25, ""}, {28, ""}};
	int p = m.pick(12), st = m.pick(32), pos = m.pick(PLACES), cf = m.pick(8), co = m.pick(4), ptr = m.pick(2);
	m.commit();
	gen::Case c; T *t = gen::leaf(c.a, P[p].prof);
	for (int i = 0; i < 5; i++) if (st >> i & 1) t->flags |= 1u << (9 + i);
	if (ptr) t->flags |= CYAML_FLAG_POINTER;
	Node n = p < 10 ? Node::sc(P[p].txt) : gen::texts(*t, P[p].prof).good[0];
	t->flags |= CO[co];
	Ref r = ref_load(*t, &n, 0); if (!r.ok()) m.fail("harness: text does not conform");
	Val v = place_val(c, t, r.v, pos);
	c.cfg = CF[cf & 3] | (cf & 4 ? (unsigned)CYAML_CFG_DOCUMENT_DELIM : 0);
	c.s = lower(c.a, *c.top);
	check(m, c, v, false);
}
/* Flow, block, both or none on every collection of every shape. */
static void marks(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::Gen g(m, c, o);
	c.top = g.schema(gen::Gen::TOP, 0);
	if (o.nodes - g.left < o.min_nodes) m.prune();
	std::function<void(T &)> each = [&](T &t) {
		if (t.type == CYAML_MAPPING || t.is_seq()) t.flags |= CO[m.pick(4)];
		if (t.type == CYAML_MAPPING) for (auto &f : t.fields) each(*f.t);
		if (t.is_seq()) each(*t.entry);
	};
	each(*c.top);
	c.cfg = CF[m.pick(4)] | (m.pick(2) ? (unsigned)CYAML_CFG_DOCUMENT_DELIM : 0);
	g.inst = 0; c.doc = g.doc(*c.top);
	m.commit();
	gen::finish(m, c);
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v)) m.prune();
	check(m, c, c.ref.v, false);
}
static void shapes(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v)) m.prune();
	check(m, c, c.ref.v, true);
}
/* Output of every size: one string or many entries. */
static void sizes(mc::Ctx &m) {
	int kind = m.pick(4); size_t n;
	if (kind == 0) {
		int base = m.pick(m.thorough ? 52 : 26), d = m.pick(33);
		n = (size_t)(base < 18 ? base * 4096 : base < 22 ? 65536 + (base - 17) * 16384 : 131072 + (base - 21) * 16384) + (size_t)d;
		if (n < 16) n = 16;
		n -= 16;
	} else if (kind == 1) n = (size_t)m.pick(600);
	else { static const int N[] = {100, 500, 1000, 1023, 1024, 1025, 2000, 4000, 5000, 10000, 20000, 40000}; n = (size_t)N[m.pick(12)]; }
	int fl = m.pick(4);
	m.commit();
	gen::Case c; Val v;
	if (kind < 2) {
		T *t = c.top = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER | (fl & 1 ? CYAML_FLAG_SCALAR_QUOTE_DOUBLE : 0), 1); t->smax = CYAML_UNLIMITED;
		std::string s; for (size_t i = 0; i < n; i++) s += (fl & 2) && i % 61 == 60 ? ' ' : (char)('a' + i % 26);
		v = Val::str(s);
	} else {
		T *q = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); q->smax = CYAML_UNLIMITED;
		v = Val::seq();
		if (kind == 2) { q->entry = c.a.t(CYAML_UINT, 0, 4); for (size_t i = 0; i < n; i++) v.v.push_back(Val::num(i * 2654435761u & 0xffffffffu)); }
		else { T *p = q->entry = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize(2); p->fields[0].key = "id"; p->fields[0].t = c.a.t(CYAML_UINT, 0, 4); p->fields[1].key = "name"; p->fields[1].t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); p->fields[1].t->smax = CYAML_UNLIMITED;
			for (size_t i = 0; i < n / 4; i++) { Val x = Val::map(); x.v = {Val::num(i), Val::str(mc::fmt("name number %zu", i))}; v.v.push_back(x); } }
		c.cfg = CF[fl];
	}
	c.s = lower(c.a, *c.top);
	check(m, c, v, true);
}
static void ladders(mc::Ctx &m) {
	static const int N[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 250, 255};
	int kind = m.pick(3), i = m.pick(19), k = m.pick(gen::SEQ_KINDS), form = m.pick(gen::SEQ_FORMS), cf = m.pick(8);
	if (kind && form) m.prune();
	if (kind == 1 && (k >= gen::DEPTH_KINDS || i > 12)) m.prune();
	if (kind == 2 && k >= gen::FIELD_KINDS) m.prune();
	m.commit();
	gen::Case c;
	if (kind == 0) gen::ladder_seq(c, N[i], k, form); else if (kind == 1) gen::ladder_depth(c, N[i], k); else gen::ladder_fields(c, N[i], k, 1);
	c.cfg |= CF[cf & 3] | (cf & 4 ? (unsigned)CYAML_CFG_DOCUMENT_DELIM : 0);
	gen::finish(m, c);
	if (!c.ref.ok() || topless(c, c.ref.v)) m.prune();
	check(m, c, c.ref.v, i % 4 == 0);
}
static void scaled(mc::Ctx &m) {
	int cf = m.pick(m.thorough ? 8 : 2); gen::Case c; c.cfg = CF[cf & 3] | (cf & 4 ? (unsigned)CYAML_CFG_DOCUMENT_DELIM : 0);
	scale(m, c);
	if (!c.ref.ok() || topless(c, c.ref.v)) m.prune();
	check(m, c, c.ref.v, true);
}
static void build(std::vector<mc::Family> &f, bool th) {
	f.push_back({"scalar styles", "12 values x every combination of the 5 scalar style flags x 4 collection flags x 7 places x 8 configurations x pointer or not", scalars, 0, 0});
	{ gen::Opt o; o.nodes = th ? 5 : 4; o.min_nodes = 2; o.vary_style = o.vary_names = o.vary_layout = o.vary_cfg = o.vary_order = o.vary_text = o.vary_limits = o.vary_leaf = false;
	  f.push_back({"collection styles", "every schema tree of 2..4 (5) nodes x flow/block/both/none on every collection x 8 configurations", [o](mc::Ctx &m) { marks(m, o); }, 1, 1}); }
	{ gen::Opt o; o.nodes = 4; o.all_optional = false;
	  f.push_back({"shapes", "data of every conforming generated document of up to 4 schema nodes within the bound, to memory and to a file", [o](mc::Ctx &m) { shapes(m, o); }, 2, 3}); }
	f.push_back({"raw values", RAW, [](mc::Ctx &m) { gen::Case c; Val v = raw_value(m, c); check(m, c, v, false); }, 0, 0});
	f.push_back({"sizes", "outputs of every size up to 600 bytes, within 32 bytes of multiples of 4 kB up to 200 kB (more), sequences of up to 40000 entries, to memory and to a file", sizes, 0, 0});
	f.push_back({"scale", std::string(SCALE) + ", to memory and to a file", scaled, 0, 0});
	f.push_back({"ladders", "sequences and mappings of 1..255, depths 1..64 x 8 configurations", ladders, 0, 0});
}
const mc::Prop mc::PROP = {"C13", "A case is a schema with style flags, a configuration and data; content, order, styles and delimiters of the saved text are compared with the reference's document as written by libyaml in the requested styles, and the file with the memory result.", build};
