#include "../savetext.hpp"
#include <math.h>
using namespace md;
using namespace com;

static bool topless(const gen::Case &c, const Val &v) { return v.k == Val::NUL || v.k == Val::ZERO || (c.top->type == CYAML_SEQUENCE && v.v.empty()); }
/* Save v, compare the text, reload it, save it again. */
static void round(mc::Ctx &m, gen::Case &c, const Val &v, bool must = true) {
	SaveRef ref = ref_save(*c.top, v, c.cfg);
	if (ref.unspecified) m.prune();
	if (m.tracing()) m.note("schema %sconfiguration flags 0x%x\nvalue %s", describe(*c.top).substr(0, 3000).c_str(), c.cfg, describe(v).substr(0, 3000).c_str());
	if (must && !ref.ok()) m.fail("harness: value cannot be saved: %s", errset(ref.errs).c_str());
	if (ref.ok() && !expressible(c.top, ref.doc, c.cfg)) { m.count("not expressible by libyaml"); return; }
	std::string text;
	if (!verify_save(m, c, v, false, &text)) return;
	env::Cfg cfg(c.cfg);
	env::LoadRes l = env::load(m, cfg, c.s, text);
	if (l.err != CYAML_OK) m.fail("saved text does not load: %s\n%s", env::ename(l.err), env::quote(text).c_str());
	check_loaded(m, cfg.heap, *c.top, v, l.data, l.count, "load of saved text", 0);
	env::SaveRes r = env::save(m, cfg, c.s, l.data, l.count);
	if (r.err != CYAML_OK) m.fail("saving reloaded data failed: %s", env::ename(r.err));
	if (r.text != text) m.fail("saving reloaded data gives another text:\n%s\nfirst:\n%s", env::quote(r.text).c_str(), env::quote(text).c_str());
	env::release(m, cfg, c.s, l.data, l.count);
	m.outcome(c.a.hash());
}
/* Data that came from a load. */
static void from_load(mc::Ctx &m, gen::Case &c) {
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v) || !lengths_ok(*c.top, c.ref.v)) m.prune();
	SaveRef ref = ref_save(*c.top, c.ref.v, c.cfg);
	if (ref.unspecified) m.prune();
	if (!ref.ok()) m.fail("harness: loaded value cannot be saved: %s", errset(ref.errs).c_str());
	if (!expressible(c.top, ref.doc, c.cfg)) { m.count("not expressible by libyaml"); return; }
	env::Cfg cfg(c.cfg);
	env::LoadRes l = env::load(m, cfg, c.s, c.text);
	if (l.err != CYAML_OK) m.fail("load failed: %s", env::ename(l.err));
	std::string text[2];
	for (int k = 0; k < 2; k++) {
		env::SaveRes r = env::save(m, cfg, c.s, l.data, l.count);
		if (m.tracing()) m.note("save %d: %s\n%s", k + 1, env::ename(r.err), env::quote(r.text).c_str());
		if (r.err != CYAML_OK) m.fail("%s data cannot be saved: %s", k ? "reloaded" : "loaded", env::ename(r.err));
		text[k] = r.text;
		env::release(m, cfg, c.s, l.data, l.count);
		l = env::load(m, cfg, c.s, text[k]);
		if (l.err != CYAML_OK) m.fail("saved text does not load: %s\n%s", env::ename(l.err), env::quote(text[k]).c_str());
		check_loaded(m, cfg.heap, *c.top, c.ref.v, l.data, l.count, "load of saved text", 0);
	}
	env::release(m, cfg, c.s, l.data, l.count);
	if (text[0] != text[1]) m.fail("saving reloaded data gives another text:\n%s\nfirst:\n%s", env::quote(text[1]).c_str(), env::quote(text[0]).c_str());
	m.outcome(text[0]); m.outcome(c.a.hash());
}
static T *many(gen::Case &c, T *e) { T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = e; return s; }
static uint64_t maskof(uint32_t n) { return n >= 8 ? ~0ull : (1ull << (n * 8)) - 1; }
static void go(mc::Ctx &m, gen::Case &c, const Val &v, bool must = true) { c.s = lower(c.a, *c.top); round(m, c, v, must); }

/* Boundary values of every width. */
static std::vector<uint64_t> edges(uint32_t size) {
	std::vector<uint64_t> r; 
	for (int k = 0; k <= (int)size * 8; k++) for (int d = -2; d <= 2; d++) { uint64_t b = k == 64 ? 0 : 1ull << k; r.push_back((b + (uint64_t)d) & maskof(size)); r.push_back((0 - b + (uint64_t)d) & maskof(size)); }
	return r;
}
static void numbers(mc::Ctx &m) {
	int type = m.pick(4), size = 1 + m.pick(8), mode = m.pick(2);
	if (mode && size > 2) m.prune();
	int blk = mode && size == 2 ? m.pick(256) : 0, st = m.pick(6), flow = m.pick(2);
	if (st > 1 && mode) m.prune();
	m.commit();
	gen::Case c; T *e;
	static const unsigned SF[] = {0, CYAML_FLAG_SCALAR_PLAIN, CYAML_FLAG_SCALAR_FOLDED, CYAML_FLAG_SCALAR_LITERAL, CYAML_FLAG_SCALAR_QUOTE_SINGLE, CYAML_FLAG_SCALAR_QUOTE_DOUBLE};
	bool pow = size == 1 || size == 2 || size == 4 || size == 8;
	switch (type) {
	case 0: e = c.a.t(CYAML_INT, SF[st], (uint32_t)size); break;
	case 1: e = c.a.t(CYAML_UINT, SF[st], (uint32_t)size); break;
	case 2: if (!pow) m.prune(); e = c.a.t(CYAML_ENUM, SF[st], (uint32_t)size); e->strs = {{"zero", 0}, {"one", 1}, {"neg", -1}, {"x y", -128}, {"low", -2}}; break;
	default: if (!pow) m.prune(); e = c.a.t(CYAML_BOOL, SF[st], (uint32_t)size);
	}
	if (flow) c.cfg = CYAML_CFG_STYLE_FLOW;
	many(c, e);
	Val v = Val::seq();
	if (mode) for (int i = 0; i < 256; i++) v.v.push_back(Val::num((uint64_t)(blk * 256 + i)));
	else for (uint64_t x : edges((uint32_t)size)) v.v.push_back(Val::num(x));
	if (type == 3) for (auto &x : v.v) x.n = x.n ? 1 : 0;
	go(m, c, v);
}
static void reals(mc::Ctx &m) {
	int dbl = m.pick(2), how = m.pick(2);
	int e = how ? m.pick(dbl ? 640 : 90) : m.pick(dbl ? 2047 : 255), sign = m.pick(2), st = how ? 0 : m.pick(2);
	m.commit();
	gen::Case c; T *t = c.a.t(CYAML_FLOAT, st ? CYAML_FLAG_SCALAR_QUOTE_DOUBLE : 0, dbl ? 8 : 4);
	many(c, t); if (sign) c.cfg = CYAML_CFG_STYLE_FLOW;
	Val v = Val::seq();
	auto add = [&](uint64_t bits) { v.v.push_back(Val::num(bits | (sign ? dbl ? 1ull << 63 : 1ull << 31 : 0))); };
	if (how) {
		for (int d = 1; d < 1000; d++) {
			std::string s = mc::fmt("%de%d", d, e - (dbl ? 330 : 50));
			if (dbl) { double x = strtod(s.c_str(), nullptr); uint64_t b; memcpy(&b, &x, 8); if (x < HUGE_VAL) add(b); }
			else { float x = strtof(s.c_str(), nullptr); uint32_t b; memcpy(&b, &x, 4); if (x < HUGE_VALF) add(b); }
		}
	} else {
		int mb = dbl ? 52 : 23; uint64_t base = (uint64_t)e << mb, all = (1ull << mb) - 1;
		for (int k = 0; k < mb; k++) { add(base | 1ull << k); add(base | (all >> k)); add(base | (all & ~(1ull << k))); }
		add(base); add(base | 0x5555555555555555ull % (all + 1)); add(base | 0xAAAAAAAAAAAAAAAAull % (all + 1)); add(base | (0x3243F6A8885A3ull & all)); add(base | (0x5BF0A8B145769ull & all));
		if (e == (dbl ? 2046 : 254)) add((uint64_t)(e + 1) << mb);      /* infinity */
	}
	if (v.v.empty()) m.prune();
	go(m, c, v);
}
static void bits(mc::Ctx &m) {
	int kind = m.pick(6), blk = m.pick(kind == 1 || kind == 4 ? 64 : 1);
	int flow = m.pick(2);
	m.commit();
	gen::Case c; T *e; Val v = Val::seq(); if (flow) c.cfg = CYAML_CFG_STYLE_FLOW;
	auto block = [&](int n) { for (int i = 0; i < n; i++) v.v.push_back(Val::num((uint64_t)(blk * n + i))); };
	switch (kind) {
	case 0: e = c.a.t(CYAML_FLAGS, 0, 1); e->strs = {{"a", 1}, {"b b", 2}, {"c", 4}, {"top", 0x80}}; block(256); break;
	case 1: e = c.a.t(CYAML_FLAGS, 0, 2); e->strs = {{"d", 4}, {"e", 64}, {"top", 0x8000}, {"a", 1}}; block(1024); break;
	case 2: e = c.a.t(CYAML_FLAGS, 0, 8); e->strs = {{"d", 1ll << 40}, {"top", INT64_MIN}, {"a", 1}}; for (uint64_t x : edges(8)) v.v.push_back(Val::num(x)); break;
	case 3: e = c.a.t(CYAML_BITFIELD, 0, 1); e->bits = {{"hi", 5, 3}, {"lo", 0, 4}, {"m", 4, 1}}; block(256); break;
	case 4: e = c.a.t(CYAML_BITFIELD, 0, 2); e->bits = {{"a", 0, 1}, {"b", 1, 7}, {"c", 8, 8}}; block(1024); break;
	default: e = c.a.t(CYAML_BITFIELD, 0, 8); e->bits = {{"a", 0, 31}, {"b", 31, 2}, {"c", 33, 30}, {"d", 63, 1}}; for (uint64_t x : edges(8)) v.v.push_back(Val::num(x)); break;
	}
	many(c, e);
	go(m, c, v);
}
static const unsigned SF[] = {0, CYAML_FLAG_SCALAR_PLAIN, CYAML_FLAG_SCALAR_FOLDED, CYAML_FLAG_SCALAR_LITERAL, CYAML_FLAG_SCALAR_QUOTE_SINGLE, CYAML_FLAG_SCALAR_QUOTE_DOUBLE,
	CYAML_FLAG_SCALAR_QUOTE_SINGLE | CYAML_FLAG_SCALAR_LITERAL};
/* A string in a place: 0 top; 1 field; 2 field in flow; 3 entry; 4 entry in flow; 5 embedded field; 6 nullable field. */
static Val strcase(gen::Case &c, const std::string &s, int st, int where) {
	T *t = where == 5 ? c.a.t(CYAML_STRING, SF[st], (uint32_t)s.size() + 3) : c.a.t(CYAML_STRING, SF[st] | CYAML_FLAG_POINTER, 1);
	t->smax = where == 5 ? (uint32_t)s.size() + 2 : CYAML_UNLIMITED;
	if (where == 0) { c.top = t; return Val::str(s); }
	if (where == 2 || where == 4) c.cfg |= CYAML_CFG_STYLE_FLOW;
	if (where == 3 || where == 4) { many(c, t); Val v = Val::seq(); v.v = {Val::str("x"), Val::str(s), Val::str("y")}; return v; }
	T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); p->fields.resize(2);
	p->fields[0].key = "s"; p->fields[0].t = t; p->fields[1].key = "n"; p->fields[1].t = c.a.t(CYAML_UINT, 0, 1);
	Val v = Val::map(); v.v = {Val::str(s), Val::num(9)}; return v;
}
static const char *const CH[] = {"a", " ", "\n", ":", "#", "-", "\"", "'", "\t", "~", "\xc3\xa9", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "\x07", "\\", "&", "[", "}", ",", "?", "|", "%", "@", "!", "0", "\x7f", "\xef\xbb\xbf", "\xc2\x85", "."};
static void strings(mc::Ctx &m) {
	const int all = (int)(sizeof CH / sizeof *CH);
	int len = m.pick(m.thorough ? 5 : 4); std::string s;
	int n = len <= 2 ? all : len == 3 ? (m.thorough ? all : 14) : 9;
	for (int i = 0; i < len; i++) s += CH[m.pick(n)];
	int st = m.pick(7), where = m.pick(6);
	if (len > 2 && (st == 6 || where == 5)) m.prune();
	m.commit();
	gen::Case c; Val v = strcase(c, s, st, where);
	if (where == 1 || where == 5) c.cfg |= CYAML_CFG_DOCUMENT_DELIM;
	go(m, c, v);
}
/* Words and lines past the emitter's line width. */
static void longs(mc::Ctx &m) {
	int len = 60 + m.pick(m.thorough ? 220 : 60), every = m.pick(8), brk = m.pick(5), st = m.pick(6), where = m.pick(5);
	m.commit();
	static const int EV[] = {0, 2, 3, 5, 9, 17, 41, 79};
	std::string s;
	for (int i = 0; i < len; i++) s += EV[every] && i % EV[every] == EV[every] - 1 ? (brk == 1 && i % (2 * EV[every]) > EV[every] ? '\n' : brk == 2 && i % 3 == 1 ? '\t' : ' ') : brk == 3 && i % 11 == 5 ? '"' : brk == 4 && i % 13 == 7 ? '\'' : (char)('a' + i % 26);
	gen::Case c; Val v = strcase(c, s, st, where);
	go(m, c, v);
}
static const char *const WORDS[] = {"", "null", "~", "true", "no", "0x10", "1.5", "-", "---", "...", "--- a", "key: v", "- item", "[1, 2]", "{a: b}", "*alias", "&anchor", "!tag", "# c", "a #c", "a: ", ":", " lead", "trail ", "\n", "\n\n", "a\n", "a\n\n", "\na", " \na", "a\n b", "a\n\n\nb",
	"\ta", "a\t", "%YAML", "@at", "`bt", "'", "\"", "\\", "\\n", "<<", "=", "?", "? a", "|", ">", "|\n a", ",", "a,b", "\xc3\xa9", "\xf0\x9f\x98\x80", "\x01", "\x1b[0m", "\r", "a\r\nb", "\xef\xbb\xbf" "bom", "\xe2\x80\xa9", "\xc2\xa0", "123456789012345678901234567890", "  two  spaces  ", "a\n  indented\nback\n", "x: |\n  y\n", "\xef\xbf\xbd", "\xf4\x8f\xbf\xbf", "\xee\x80\x80", "\xed\x9f\xbf"};
static void words(mc::Ctx &m) {
	int w = m.pick((int)(sizeof WORDS / sizeof *WORDS)), st = m.pick(7), where = m.pick(7), cf = m.pick(4), reps = m.pick(3);
	m.commit();
	std::string s = WORDS[w]; for (int i = 0; i < reps; i++) s += i ? WORDS[w] : "a" + s;
	gen::Case c; Val v = strcase(c, s, st, where % 7 == 6 ? 1 : where);
	if (where == 6) { c.top->fields[0].t->flags |= CYAML_FLAG_POINTER_NULL_STR; c.s = lower(c.a, *c.top); Node n = Node::sc(s); if (ref_load(*c.top->fields[0].t, &n, 0).v.k == Val::NUL) m.prune(); }
	if (cf & 1) c.cfg |= CYAML_CFG_DOCUMENT_DELIM;
	if (cf & 2) c.cfg |= CYAML_CFG_STYLE_FLOW;
	go(m, c, v);
}
/* Names of enums, flags, bitfield values and keys that need quoting. */
static void names(mc::Ctx &m) {
	int w = m.pick((int)(sizeof WORDS / sizeof *WORDS)), kind = m.pick(4), st = m.pick(7), cf = m.pick(4);
	m.commit();
	gen::Case c; T *t; Val v; std::string s = WORDS[w];
	if (s.size() > 120) m.prune();
	switch (kind) {
	case 0: t = c.a.t(CYAML_ENUM, CYAML_FLAG_STRICT, 4); t->strs = {{"other", 1}, {s, 2}}; v = Val::num(2); break;
	case 1: t = c.a.t(CYAML_FLAGS, CYAML_FLAG_STRICT, 4); t->strs = {{"other", 1}, {s, 2}}; v = Val::num(3); break;
	case 2: t = c.a.t(CYAML_BITFIELD, 0, 4); t->bits = {{s, 0, 4}, {"other", 4, 4}}; v = Val::num(0x21); break;
	default: t = c.a.t(CYAML_MAPPING); t->fields.resize(2); t->fields[0].key = s; t->fields[0].t = c.a.t(CYAML_UINT, 0, 1); t->fields[1].key = "other"; t->fields[1].t = c.a.t(CYAML_UINT, 0, 1); v = Val::map(); v.v = {Val::num(1), Val::num(2)};
	}
	t->flags |= SF[st];
	if (cf & 1) c.cfg |= CYAML_CFG_STYLE_FLOW;
	T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER | (cf & 2 ? CYAML_FLAG_BLOCK : 0)); p->fields.resize(1); p->fields[0].key = "v"; p->fields[0].t = t;
	Val q = Val::map(); q.v = {v};
	/* The styles of keys and of names inside flags and bitfields are libyaml's to choose or the flags': only judged when either is expressible. */
	if (kind && st >= 1) { c.s = lower(c.a, *c.top); SaveRef r = ref_save(*c.top, q, c.cfg); std::function<void(Node &)> f; Node d = r.doc;
		Emit e; if (!e.run(c.top, d, nullptr, c.cfg)) m.prune();
		T str; str.type = CYAML_STRING; str.flags = CYAML_FLAG_POINTER | SF[st]; T sq; sq.type = CYAML_SEQUENCE; sq.flags = CYAML_FLAG_POINTER; sq.entry = &str; Node qn = Node::seq(); qn.add(Node::sc(s));
		if (kind == 1 && !expressible(&sq, qn, c.cfg)) m.prune();
		if (kind > 1) { T mp; mp.type = CYAML_MAPPING; (void)mp; if (st == 2 || st == 3 || s.find('\n') != std::string::npos || s.empty()) m.prune(); }
	}
	go(m, c, q);
}
static void shapes(mc::Ctx &m, gen::Opt o) {
	gen::Case c;
	gen::make(m, c, o);
	from_load(m, c);
}
/* Flow or block asked for at every collection. */
static void marks(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::Gen g(m, c, o);
	c.top = g.schema(gen::Gen::TOP, 0);
	if (o.nodes - g.left < o.min_nodes) m.prune();
	std::function<void(T &)> each = [&](T &t) {
		static const unsigned F[] = {0, CYAML_FLAG_FLOW, CYAML_FLAG_BLOCK, CYAML_FLAG_FLOW | CYAML_FLAG_BLOCK};
		if (t.type == CYAML_MAPPING || t.is_seq() || t.type == CYAML_FLAGS || t.type == CYAML_BITFIELD) t.flags |= F[m.pick(4)];
		if (t.type == CYAML_MAPPING) for (auto &f : t.fields) each(*f.t);
		if (t.is_seq()) each(*t.entry);
	};
	each(*c.top);
	static const unsigned C[] = {0, CYAML_CFG_STYLE_FLOW, CYAML_CFG_STYLE_BLOCK, CYAML_CFG_STYLE_FLOW | CYAML_CFG_STYLE_BLOCK | CYAML_CFG_DOCUMENT_DELIM};
	c.cfg = C[m.pick(4)];
	g.inst = 0; c.doc = g.doc(*c.top);
	m.commit();
	gen::finish(m, c);
	from_load(m, c);
}
static void ladders(mc::Ctx &m) {
	static const int N[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 250, 255};
	int kind = m.pick(4), i = m.pick(19), k = m.pick(gen::SEQ_KINDS), form = m.pick(gen::SEQ_FORMS), cf = m.pick(3);
	static const unsigned C[] = {0, CYAML_CFG_STYLE_FLOW, CYAML_CFG_STYLE_BLOCK | CYAML_CFG_DOCUMENT_DELIM};
	if (kind && form) m.prune();
	if (kind == 1 && (k >= gen::DEPTH_KINDS || i > 12)) m.prune();
	if (kind == 2 && k >= gen::FIELD_KINDS) m.prune();
	if (kind == 3 && k >= gen::STRING_FORMS) m.prune();
	m.commit();
	gen::Case c;
	if (kind == 0) gen::ladder_seq(c, N[i], k, form); else if (kind == 1) gen::ladder_depth(c, N[i], k); else if (kind == 2) gen::ladder_fields(c, N[i], k, 1); else gen::ladder_string(c, (size_t)N[i] * 65, k);
	c.cfg |= C[cf];
	gen::finish(m, c);
	from_load(m, c);
}
static void build(std::vector<mc::Family> &f, bool th) {
	f.push_back({"numbers", "INT, UINT, ENUM, BOOL x sizes x every 8- and 16-bit value, else 2^k-2..2^k+2 both signs x scalar styles x block/flow", numbers, 0, 0});
	f.push_back({"reals", "float and double: every exponent x sign x bit patterns (each single bit, run and hole), and every d*10^e with d below 1000 in range", reals, 0, 0});
	f.push_back({"bits", "flags of 8 and 16 bits and bitfields of 8 and 16 bits: every value; 64-bit ones: 2^k-2..2^k+2", bits, 0, 0});
	f.push_back({"strings", th ? "every string up to length 4 over alphabets of 29 (up to 3) and 9 characters x 7 styles x 6 places" : "every string up to length 3 over alphabets of 29 (up to 2) and 14 characters x 7 styles x 6 places", strings, 0, 0});
	f.push_back({"long strings", "strings of 60..119 (279) bytes, spaces at 8 distances, 5 kinds of breaks x 6 styles x 5 places", longs, 0, 0});
	f.push_back({"words", "67 texts with meaning in YAML, alone and repeated x 7 styles x 7 places x delimiters x flow", words, 0, 0});
	f.push_back({"names", "the same as names of enum, flag and bit values and keys x 7 styles x block/flow", names, 0, 0});
	{ gen::Opt o; o.nodes = 4; o.no_empty_top = true;
	  f.push_back({"shapes", "data of every conforming generated document of up to 4 schema nodes within the bound, every configuration", [o](mc::Ctx &m) { shapes(m, o); }, 2, 3}); }
	{ gen::Opt o; o.nodes = th ? 5 : 4; o.min_nodes = 2; o.vary_style = o.vary_names = o.vary_layout = o.vary_cfg = o.vary_order = o.vary_text = o.vary_limits = false;
	  f.push_back({"marks", "every schema tree of 2..4 (5) nodes x flow/block/both/none on every collection x 4 configurations", [o](mc::Ctx &m) { marks(m, o); }, 1, 1}); }
	f.push_back({"ladders", "sequences and mappings of 1..255, depths 1..64, strings up to 16 kB x 3 configurations", ladders, 0, 0});
	f.push_back({"scale", SCALE, [](mc::Ctx &m) { gen::Case c; c.cfg = m.pick(2) ? CYAML_CFG_STYLE_FLOW : 0; scale(m, c); from_load(m, c); }, 0, 0});
}
const mc::Prop mc::PROP = {"C12", "A case is a schema, configuration and data; the saved text is compared with the reference, reloaded, compared value by value, and saved again.", build};
