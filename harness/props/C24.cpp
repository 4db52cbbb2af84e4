#include "../world.hpp"
#include <algorithm>
using namespace md;
using namespace com;
using world::S;

/* Schemas every text is loaded with. */
struct Zoo { Arena a; std::vector<T *> s; std::vector<unsigned> cfg; Zoo(); };
Zoo::Zoo() {
	auto str = [&](unsigned f) { T *t = a.t(CYAML_STRING, CYAML_FLAG_POINTER | f, 1); t->smax = CYAML_UNLIMITED; return t; };
	auto add = [&](T *p, const char *k, T *t) { Field f; f.key = k; f.t = t; p->fields.push_back(f); };
	auto seq = [&](T *e, unsigned f, uint32_t lo, uint32_t hi) { T *t = a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER | f); t->smin = lo; t->smax = hi; t->entry = e; return t; };
	auto fix = [&](T *e, unsigned f, uint32_t n) { T *t = a.t(CYAML_SEQUENCE_FIXED, f); t->smin = t->smax = n; t->entry = e; return t; };
	const unsigned P = CYAML_FLAG_POINTER, O = CYAML_FLAG_OPTIONAL;
	/* 0: nested mappings and sequences with ignored and unknown keys */
	T *in = a.t(CYAML_MAPPING, P); add(in, "a", str(O)); add(in, "b", seq(a.t(CYAML_INT, 0, 2), O, 0, 3));
	T *m0 = a.t(CYAML_MAPPING, P); add(m0, "a", in); add(m0, "b", a.t(CYAML_IGNORE, O)); add(m0, "1", a.t(CYAML_UINT, O, 1)); m0->fields[0].t->flags |= O;
	s.push_back(m0); cfg.push_back(0);
	/* 1: the same, lenient */
	s.push_back(m0); cfg.push_back(CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_IGNORED_KEY_WARNING | CYAML_CFG_CASE_INSENSITIVE);
	/* 2: sequence of mappings by value */
	T *m2 = a.t(CYAML_MAPPING); add(m2, "a", a.t(CYAML_INT, O, 4)); m2->fields[0].t->imiss = 7; T *sa = a.t(CYAML_STRING, O, 4); sa->smax = 3; add(m2, "b", sa);
	s.push_back(seq(m2, 0, 0, 2)); cfg.push_back(0);
	/* 3: flags, bitfields, enums together */
	T *m3 = a.t(CYAML_MAPPING, P);
	T *fl = a.t(CYAML_FLAGS, P | O, 2); fl->strs = {{"a", 1}, {"b", 4}}; add(m3, "a", fl);
	T *bf = a.t(CYAML_BITFIELD, O, 1); bf->bits = {{"a", 0, 3}, {"b", 7, 1}}; add(m3, "b", bf);
	T *en = a.t(CYAML_ENUM, O, 4); en->strs = {{"a", 3}, {"1", 9}}; add(m3, "1", en);
	s.push_back(m3); cfg.push_back(CYAML_CFG_IGNORE_UNKNOWN_KEYS);
	/* 4: nested fixed sequences with pointers */
	s.push_back(seq(fix(fix(str(CYAML_FLAG_POINTER_NULL_STR), P, 1), P, 2), 0, 1, CYAML_UNLIMITED)); cfg.push_back(0);
	/* 5: a string; 6: flags; 7: nullable bool; 8: float */
	T *st = str(CYAML_FLAG_POINTER_NULL); st->smin = 1; st->smax = 2; s.push_back(st); cfg.push_back(0);
	T *f2 = a.t(CYAML_FLAGS, P | CYAML_FLAG_STRICT, 4); f2->strs = {{"a", 1}, {"1", 2}}; s.push_back(f2); cfg.push_back(0);
	s.push_back(a.t(CYAML_BOOL, P | CYAML_FLAG_POINTER_NULL_STR, 1)); cfg.push_back(CYAML_CFG_NO_ALIAS);
	s.push_back(a.t(CYAML_FLOAT, P, 8)); cfg.push_back(0);
	/* 9: strings without alias; 10: everything ignored */
	s.push_back(seq(str(0), 0, 0, CYAML_UNLIMITED)); cfg.push_back(CYAML_CFG_NO_ALIAS);
	T *m10 = a.t(CYAML_MAPPING, P); add(m10, "a", a.t(CYAML_IGNORE, O)); s.push_back(m10); cfg.push_back(CYAML_CFG_IGNORE_UNKNOWN_KEYS);
	std::set<T *> done; for (T *t : s) if (done.insert(t).second) lower(a, *t);
	/* the world's schemas too */
	for (int k = 0; k < 3; k++) { s.push_back(world::W().s[k]); cfg.push_back(world::W().flags[k]); }
}
static Zoo &Z() { static Zoo *z = new Zoo; return *z; }
static bool has_nul(const Node &n) { if (n.s.find('\0') != std::string::npos) return true; for (auto &k : n.kids) if (has_nul(k)) return true; return false; }

static bool limits_ok(const T &t, const Val &v) {
	if (v.k == Val::NUL || v.k == Val::ZERO) return true;
	if (t.type == CYAML_STRING) return v.s.size() >= t.smin && v.s.size() <= t.smax;
	if (t.type == CYAML_MAPPING) { for (size_t i = 0; i < v.v.size(); i++) if (t.fields[i].t->type != CYAML_IGNORE && !limits_ok(*t.fields[i].t, v.v[i])) return false; }
	if (t.is_seq() && !(t.optional() && v.v.empty()) && (v.v.size() < t.smin || v.v.size() > t.smax)) return false;
	if (t.is_seq()) for (auto &x : v.v) if (!limits_ok(*t.entry, x)) return false;
	return true;
}
/* One text, one schema. */
static void one(mc::Ctx &m, const std::string &text, const Parsed &p, bool first, bool nul, const T &t, unsigned flags, size_t k) {
	if (m.tracing()) m.note("schema %zu, configuration 0x%x: %s", k, flags, describe(t).c_str());
	env::Cfg cfg(flags, CYAML_LOG_DEBUG, k & 1); cfg.log.keep = false;
	env::LoadRes r = env::load(m, cfg, t.c, text);
	if (m.tracing()) m.note("load: %s\n", env::ename(r.err));
	m.outcome((uint64_t)r.err);
	Val v; bool known = false;
	if (!first && !(p.ok && p.docs == 0)) { if (!r.err) m.fail("load accepted text that is not YAML"); known = true; }
	else if (p.docs == 0) { verdict(m, {}, r.err, "load of an empty stream"); if (r.data) m.fail("an empty stream gave data"); known = true; }
	else if (!nul) {
		Ref ref = ref_load(t, &p.doc, flags);
		if (!ref.unspecified) { known = true; if (verdict(m, ref.errs, r.err, "load")) { check_loaded(m, cfg.heap, t, ref.v, r.data, r.count, "load", 0); v = ref.v; m.count("accepted"); } else m.count("rejected"); }
	}
	if (r.err) { m.count(known ? "errors" : "errors not predicted"); return; }
	if (!r.data) return;
	if (!known) { Reader rd(m, cfg.heap, "load"); rd.exact_zero = !nul; v = rd.top(t, r.data, r.count); rd.finish(0); if (!limits_ok(t, v)) m.fail("load gave data outside the limits of the schema: %s", describe(v).c_str()); m.count("data not predicted"); }
	/* What was loaded can be saved, copied and freed. */
	unsigned n = t.type == CYAML_SEQUENCE_FIXED ? t.smax : r.count;
	bool empty = t.type == CYAML_SEQUENCE && !r.count;
	if (!empty) {
		env::SaveRes w = env::save(m, cfg, t.c, r.data, r.count);
		SaveRef sr = ref_save(t, v, flags);
		if (!sr.unspecified) verdict(m, sr.errs, w.err, "save of what was loaded");
		env::CopyRes c = env::copy(m, cfg, t.c, r.data, n);
		if (c.err) m.fail("copy of what was loaded gives %s", env::ename(c.err));
		env::release(m, cfg, t.c, c.data, r.count);
	}
	env::release(m, cfg, t.c, r.data, r.count);
	if (cfg.heap.live()) m.fail("%zu block(s) left after cyaml_free", cfg.heap.live());
}
/* One text, all schemas. */
static void check(mc::Ctx &m, const std::string &text, int only = -1) {
	Zoo &z = Z();
	Parsed p = parse_yaml(text);
	bool first = p.docs >= 1 && (p.ok || p.docs >= 2);        /* the first document is complete */
	bool nul = first && has_nul(p.doc);
	if (m.tracing()) m.note("text (%zu bytes):\n%s\n", text.size(), env::quote(text).c_str());
	m.outcome(text);
	for (size_t k = 0; k < z.s.size(); k++) if (only < 0 || (int)k == only) one(m, text, p, first, nul, *z.s[k], z.cfg[k], k);
}
/* ---- token strings ---- */
static const char *const FULL[] = {"a", ": ", "\n", "- ", "[", "]", "{", "}", ",", "1", "&a ", "*a ", "  ", "? ", "\"", "'", "|", "#", "!t ", "---\n", "...\n", "b", "~", ">-", "%", "@", "\t", "\\", "!!int ", "<<"};
static const int NFULL = sizeof FULL / sizeof *FULL;
static const char *const FLOW[] = {"[", "]", "{", "}", ",", "a", ":", " ", "&a ", "*a"};
static const char *const BLOCK[] = {"a:", "\n", " ", "- ", "1", "b: ", "*a", "&a "};
static const char *const QUOTE[] = {"\"", "'", "\\", "a", "\n", "x4", "1", " "};
static void tokens(mc::Ctx &m, const char *const *tok, int n, int len) {
	std::string s; int l = m.pick(len + 1);
	for (int i = 0; i < l; i++) s += tok[m.pick(n)];
	m.commit();
	check(m, s);
}
/* ---- lines ---- */
static void lines(mc::Ctx &m, int n) {
	static const char *const L[] = {"a:", "b: 1", "- 1", "-", "a", "? a", ": 1", "- a: b", "a: &a", "b: *a", "a: |", "# c", "- &a [a]", "b: {a: 1}"};
	std::string s; int l = 1 + m.pick(n);
	for (int i = 0; i < l; i++) { int ind = m.pick(3); s += std::string((size_t)ind * 2, ' ') + L[m.pick(14)] + "\n"; }
	m.commit();
	check(m, s);
}
/* ---- every tree of events ---- */
static Node tree(mc::Ctx &m, int &left, int depth) {
	left--;
	int k = m.pick(left > 0 && depth < 6 ? 8 : 6);
	Node n;
	static const char *const X[] = {"a", "1", "", "b"};
	if (k < 4) n = S(X[k]);
	else if (k == 4) n = Node::alias("a");
	else if (k == 5) { n = S("1"); n.anchor = "a"; return n; }
	else if (k == 6) { n = Node::seq(); n.flow = true; while (left > 0 && m.pick(2)) n.add(tree(m, left, depth + 1)); if (m.pick(2)) n.anchor = "a"; }
	else { n = Node::map(); n.flow = true; while (left > 1 && m.pick(2)) { Node key = tree(m, left, depth + 1); if (left <= 0) m.prune(); n.kids.push_back(key); n.kids.push_back(tree(m, left, depth + 1)); } if (m.pick(2)) n.anchor = "a"; }
	return n;
}
static void trees(mc::Ctx &m, int nodes) {
	int left = nodes;
	Node d = tree(m, left, 0);
	if (left) m.prune();          /* smaller trees are enumerated with their own size */
	m.commit();
	check(m, render(d));
}
/* ---- mutations ---- */
static std::vector<std::pair<std::string, int>> &seeds() {
	static std::vector<std::pair<std::string, int>> *v;
	if (v) return *v;
	v = new std::vector<std::pair<std::string, int>>;
	auto z = [&](const char *t, int k) { v->push_back({t, k}); };
	z("a:\n  a: x\n  b: [1, -2]\nb: {q: [r]}\n1: 0x7f\n", 0);
	z("A: {a: \"q\\u00e9\\x41\"}\nzz: &a [*b]\n", 1);
	z("- a: 5\n  b: xyz\n- {b: \"\"}\n", 2);
	z("a: [a, b, 0x100]\nb: {a: 7, b: 0}\n1: a\n", 3);
	z("- [[~], [b]]\n- &a [[\"\"], [null]]\n", 4);
	z("--- \"ab\"\n...\n", 5);
	z("- a\n- 1\n", 6); z("true", 7); z("-1.5e+3", 8);
	z("- 'it''s'\n- |2\n    x\n- >+\n  y\n\n- \"\\\n  z\"\n", 9);
	z("a: &a {? [x] : *a, y: {}}\nb: 1\n", 10);
	world::World &w = world::W();
	for (int k = 0; k < 3; k++) for (size_t d = 0; d < 3 && d < w.text[k].size(); d++) v->push_back({w.text[k][d], 11 + k});
	return *v;
}
static void single(mc::Ctx &m) {
	auto &sd = seeds(); auto &x = sd[(size_t)m.pick((int)sd.size())];
	std::string s = x.first; int how = m.pick(4);
	if (how == 0) { size_t at = (size_t)m.pick((int)s.size()); s[at] = (char)m.pick(256); }
	else if (how == 1) { size_t at = (size_t)m.pick((int)s.size() + 1); s.insert(at, 1, (char)m.pick(256)); }
	else if (how == 2) { size_t at = (size_t)m.pick((int)s.size()), n = 1 + (size_t)m.pick(std::min<int>(8, (int)(s.size() - at))); s.erase(at, n); }
	else { size_t at = (size_t)m.pick((int)s.size()); s = m.pick(2) ? s.substr(at) : s.substr(0, at); }
	m.commit();
	check(m, s, m.thorough ? -1 : x.second);
}
static const unsigned char BYTES[] = {0, '\n', ' ', ':', '-', '[', '}', '"', '&', '*', '?', '#', ',', 'a', '1', 0x80, 0xc3, 0xff, '|', '\t'};
static void twice(mc::Ctx &m, int nb) {
	auto &sd = seeds(); auto &x = sd[(size_t)m.pick((int)sd.size())];
	std::string s = x.first;
	if (s.size() > (m.thorough ? 200u : 50u)) m.prune();
	size_t i = (size_t)m.pick((int)s.size()), j = (size_t)m.pick((int)s.size()); if (j <= i) m.prune();
	int kind = m.pick(3);
	if (kind == 0) { s[j] = (char)BYTES[m.pick(nb)]; s[i] = (char)BYTES[m.pick(nb)]; }
	else if (kind == 1) { std::swap(s[i], s[j]); }
	else { std::string part = s.substr(i, j - i); size_t at = (size_t)m.pick(3); s.insert(at == 0 ? 0 : at == 1 ? j : s.size(), part); }
	m.commit();
	check(m, s, x.second);
}
/* Aliases that multiply: the work is bounded by the expansion. */
static void bombs(mc::Ctx &m) {
	int levels = 1 + m.pick(m.thorough ? 14 : 11), width = 1 + m.pick(3), shape = m.pick(3), where = m.pick(2);
	double total = 1; for (int i = 0; i < levels; i++) total *= width;
	if (total > 20000) m.prune();
	m.commit();
	std::string s = where ? "b:\n" : "a:\n";
	for (int i = 0; i < levels; i++) {
		s += mc::fmt("- &x%d ", i);
		if (i == 0) s += "z\n";
		else { s += shape == 1 ? "{" : "["; for (int j = 0; j < width; j++) s += mc::fmt(shape == 1 ? "%sk%d: *x%d" : "%s*x%d", j ? ", " : "", shape == 1 ? j : i - 1, i - 1); s += shape == 1 ? "}\n" : "]\n"; }
	}
	if (shape == 2) s += mc::fmt("- *x%d\n", levels);       /* never defined */
	check(m, s, 10); check(m, s, 0); check(m, s, 1);
}
/* Long and deep texts. */
static void big(mc::Ctx &m) {
	int k = m.pick(12), size = m.pick(m.thorough ? 6 : 5); static const int N[] = {100, 1000, 4000, 9000, 20000, 100000};
	int n = N[size];
	if (n > 9000 && k != 0 && k != 3 && k != 6 && k != 10) m.prune();
	m.commit();
	std::string s; auto rep = [&](const char *x, int c) { for (int i = 0; i < c; i++) s += x; };
	switch (k) {
	case 0: rep("x", n); break;
	case 1: rep("[", n); break;
	case 2: rep("[", n / 10); rep("]", n / 10); break;
	case 3: for (int i = 0; i < n / 10; i++) s += "- [a]\n"; break;
	case 4: rep("{a: ", n / 10); rep("}", n / 10); break;
	case 5: rep("- ", n / 4); break;
	case 6: for (int i = 0; i < n / 10; i++) s += mc::fmt("k%d: [x]\n", i); break;
	case 7: s = "a: \""; rep("\\u00e9", n / 6); s += "\"\n"; break;
	case 8: for (int i = 0; i < n / 20; i++) s += mc::fmt("- &x%d [a]\n", i); break;
	case 9: s = "a: &a []\n"; for (int i = 0; i < n / 20; i++) s += mc::fmt("k%d: *a\n", i); break;
	case 10: rep("#", n); s += "\na: {}\n"; break;
	default: rep("---\n", n / 4); break;
	}
	check(m, s);
}
/* One long word at each place of a document where a word can stand. */
static void words(mc::Ctx &m) {
	static const char *const AT[] = {"%", "%: 1", "? %\n: 1", "a: %", "b: %", "1: %", "- %", "a: {%: 1}", "a:\n  a: 1\n  ? %\n  : [1]", "a: &% x\nb: *%", "a: *%", "- &% {a: 1}\n- *%", "? %\n: {a: [%, {%: %}]}\na: 1",
		"a: [%]", "a: [%, a]", "b: {%: 1}", "b: {a: %}", "a: {a: 1, b: [%]}", "- {a: 1, %: 2}", "- [[%]]", "a: !<%> x", "# %\na: 1", "a: \"%\"", "a: |\n  %", "a: 1\n? %\n: 1\n? %\n: 2", "{%}", "- - %", "'%': %"};
	static const int NAT = sizeof AT / sizeof *AT;
	static const char *const W[] = {"k", "7", "0", "\xc3\xa9", "\xe2\x82\xac", "- ", "%s", "a_"};
	static const int N[] = {15, 16, 17, 31, 32, 33, 39, 40, 41, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 16384, 65535, 65536, 65537};
	int at = m.pick(NAT), w = m.pick(8), lead = m.pick(4); int n = N[m.pick(m.thorough ? 30 : 26)];
	if (w >= 2 && lead) m.prune();
	m.commit();
	static const char *const LEAD[] = {"", "-", "0x", "1."};
	std::string word = LEAD[lead]; while ((int)word.size() < n) word += W[w];
	std::string s; for (const char *c = AT[at]; *c; c++) if (*c == '%') s += word; else s += *c;
	s += '\n';
	check(m, s);
}
/* Scalars with NUL characters inside, short and long, as every kind of value and name. */
static void nuls(mc::Ctx &m) {
	static const char *const PRE[] = {"", "x", "abc", "1", "0x1f", "true", "1.5", "null", "~"};
	static const int TAIL[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 39, 40, 41, 255, 256, 5000};
	int k = m.pick(18), pre = m.pick(9), tail = TAIL[m.pick(16)], nul = m.pick(4), pos = m.pick(PLACES), cf = m.pick(3);
	m.commit();
	std::string s = PRE[pre]; s += std::string("\0", 1); if (nul == 1) s += std::string("\0", 1); s += std::string((size_t)tail, nul == 2 ? '\0' : 'y'); if (nul == 3) s += std::string("\0z", 2);
	gen::Case c; T *t; Node v = Node::sc(s, DOUBLE), sib = v;
	auto str = [&](unsigned f, uint32_t size, uint32_t lo, uint32_t hi) { T *x = c.a.t(CYAML_STRING, f, size); x->smin = lo; x->smax = hi; return x; };
	switch (k) {
	case 0: t = str(CYAML_FLAG_POINTER, 1, 0, CYAML_UNLIMITED); break;
	case 1: t = str(CYAML_FLAG_POINTER, 1, 0, 40); break;
	case 2: t = str(CYAML_FLAG_POINTER, 1, 2, 8); break;
	case 3: t = str(CYAML_FLAG_POINTER_NULL, 1, 0, 2); break;
	case 4: t = str(CYAML_FLAG_POINTER_NULL_STR, 1, 0, CYAML_UNLIMITED); break;
	case 5: t = str(0, 8, 0, 7); break;
	case 6: t = str(0, 2, 1, 1); break;
	case 7: t = str(0, 41, 3, 40); break;
	case 8: t = c.a.t(CYAML_INT, 0, 4); break;
	case 9: t = c.a.t(CYAML_UINT, CYAML_FLAG_POINTER_NULL, 8); break;
	case 10: t = c.a.t(CYAML_BOOL, 0, 1); break;
	case 11: t = c.a.t(CYAML_FLOAT, CYAML_FLAG_STRICT, 8); break;
	case 12: t = c.a.t(CYAML_ENUM, 0, 4); t->strs = {{"x", 1}, {"abc", 2}, {"1", 3}}; break;
	case 13: { t = c.a.t(CYAML_FLAGS, 0, 4); t->strs = {{"x", 1}, {"abc", 2}}; Node q = Node::seq(); q.add(v); q.add(v); v = q; break; }
	case 14: { t = c.a.t(CYAML_BITFIELD, 0, 4); t->bits = {{"x", 0, 4}, {"abc", 8, 1}}; Node q = Node::map(); q.kids.push_back(v); q.kids.push_back(v); v = q; break; }
	case 15: { t = c.a.t(CYAML_MAPPING); Field f; f.key = "x"; f.t = str(CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL, 1, 0, CYAML_UNLIMITED); t->fields.push_back(f); f.key = "abc"; f.t = c.a.t(CYAML_INT, CYAML_FLAG_OPTIONAL); t->fields.push_back(f); Node q = Node::map(); q.kids.push_back(v); q.kids.push_back(v); v = q; break; }
	case 16: t = c.a.t(CYAML_IGNORE); break;
	default: { t = c.a.t(CYAML_MAPPING); Field f; f.key = "x"; f.t = str(CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL, 1, 0, 40); t->fields.push_back(f); Node q = Node::map(); Node a = v; a.anchor = "an"; q.add("x", a); q.add("y", Node::alias("an")); v = q; }
	}
	if (k == 16 && pos != 1) m.prune();
	if (k == 17 && pos != 0 && pos != 1) m.prune();
	sib = v; place(c, t, v, sib, pos);
	c.cfg = cf == 0 ? 0u : cf == 1 ? (unsigned)(CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_CASE_INSENSITIVE) : (unsigned)(CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_NO_ALIAS);
	gen::finish(m, c);
	Parsed p = parse_yaml(c.text);
	if (!p.ok || p.docs != 1) m.prune();       /* libyaml bounds keys */
	if (!has_nul(p.doc)) m.fail("harness: text without NUL");
	m.outcome(c.text); m.outcome(c.a.hash());
	if (m.tracing()) m.note("%s\n", env::quote(c.text).c_str());
	one(m, c.text, p, true, true, *c.top, c.cfg, 0);
}
static void build(std::vector<mc::Family> &f, bool th) {
	f.push_back({"token strings", mc::fmt("every string of up to %d of %d YAML tokens", th ? 4 : 3, NFULL), [th](mc::Ctx &m) { tokens(m, FULL, NFULL, th ? 4 : 3); }, 0, 0});
	f.push_back({"flow tokens", mc::fmt("every string of up to %d of 10 tokens of flow syntax", th ? 7 : 5), [th](mc::Ctx &m) { tokens(m, FLOW, 10, th ? 7 : 5); }, 0, 0});
	f.push_back({"block tokens", mc::fmt("every string of up to %d of 8 tokens of block syntax", th ? 7 : 5), [th](mc::Ctx &m) { tokens(m, BLOCK, 8, th ? 7 : 5); }, 0, 0});
	f.push_back({"quoting tokens", mc::fmt("every string of up to %d of 8 tokens of quoted scalars", th ? 6 : 4), [th](mc::Ctx &m) { tokens(m, QUOTE, 8, th ? 6 : 4); }, 0, 0});
	f.push_back({"lines", mc::fmt("every text of up to %d lines out of 14 contents at 3 indentations", th ? 4 : 3), [th](mc::Ctx &m) { lines(m, th ? 4 : 3); }, 0, 0});
	for (int n = 1; n <= (th ? 7 : 5); n++) f.push_back({mc::fmt("trees of %d nodes", n), "every YAML tree with 4 scalar texts, sequences, mappings with any kind of key, anchors and aliases", [n](mc::Ctx &m) { trees(m, n); }, 0, 0});
	f.push_back({"single mutations", "every byte of 20 seed texts replaced by, or preceded by, each of 256 bytes; every run of up to 8 bytes removed; every prefix and suffix", single, 0, 0});
	f.push_back({"double mutations", "every pair of positions of the seed texts of up to 50 (200) bytes: replaced by each pair of interesting bytes, swapped, the part between repeated", [th](mc::Ctx &m) { twice(m, th ? 20 : 5); }, 0, 0});
	f.push_back({"alias expansion", "multiplying aliases, up to 11 (14) levels of 1..3 aliases and 20000 nodes, in ignored and other content", bombs, 0, 0});
	f.push_back({"long words", mc::fmt("a word of %s bytes out of 14 kinds at each of 28 places of a document", th ? "15 to 65537" : "15 to 4097"), words, 0, 0});
	f.push_back({"NUL characters", "scalars with escaped NULs after 9 beginnings and before 0..5000 characters as 18 kinds of value or name at 7 places, 3 configurations", nuls, 0, 0});
	f.push_back({"long texts", "12 kinds of long or deep texts of up to 20000 (100000) bytes", big, 0, 0});
}
const mc::Prop mc::PROP = {"C24", "A case is a text, loaded under each schema of a fixed set; the outcome and data are compared with the reference applied to an independent parse of the text by libyaml, memory is checked throughout, and loaded data is saved, copied and freed.", build};
