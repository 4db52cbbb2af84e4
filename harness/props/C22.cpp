#include "../junk.hpp"
#include "../stream.hpp"
#include "../world.hpp"
using namespace md;
using namespace com;
using world::World;

static void log_std(cyaml_log_t level, void *ctx, const char *fmt, va_list args) { env::OutLib o; cyaml_log(level, ctx, fmt, args); }

/* One operation as seen from outside, run with a given logging set-up. */
struct Seen { int err = 0; Val v; std::string text; bool has = false; std::vector<env::Msg> msgs; };
typedef std::function<Seen(env::Cfg &)> Run;
using env::norm;
static Seen loaded(mc::Ctx &m, env::Cfg &cfg, const T &t, const cyaml_schema_value_t *s, const std::string &text) {
	Seen r; env::LoadRes l = env::load(m, cfg, s, text); r.err = l.err;
	if (!l.err && l.data) { Reader rd(m, cfg.heap, "load"); r.v = rd.top(t, l.data, l.count); r.has = true; env::release(m, cfg, s, l.data, l.count); }
	r.msgs = cfg.log.msgs;
	if (cfg.heap.live()) m.fail("%zu block(s) left", cfg.heap.live());
	return r;
}
static const char *const LN[] = {"DEBUG", "INFO", "NOTICE", "WARNING", "ERROR"};
/* All levels and no log function against the most verbose run. */
static Seen levels(mc::Ctx &m, unsigned flags, const T &t, const char *what, const Run &run, long oom = -1) {
	auto go = [&](int level, bool with) { env::Cfg c(flags, level, with); c.heap.fail_at = oom; return run(c); };
	Seen d = go(CYAML_LOG_DEBUG, true);
	for (auto &x : d.msgs) x.text = norm(x.text);
	if (m.tracing()) for (auto &x : d.msgs) m.note("%-7s %s", LN[x.level], x.text.c_str());
	if (!d.err) for (auto &x : d.msgs) if (x.level == CYAML_LOG_ERROR) m.fail("%s succeeds but reports an error: %s", what, x.text.c_str());
	/* A failure for what the document or the data is says why; others are told by the code alone. */
	bool input = d.err && d.err != CYAML_ERR_OOM && d.err != CYAML_ERR_FILE_OPEN && d.err != CYAML_ERR_TOP_LEVEL_NON_PTR
		&& std::string(env::ename(d.err)).find("BAD_PARAM") == std::string::npos && std::string(env::ename(d.err)).find("INIT") == std::string::npos && std::string(env::ename(d.err)).find("CONFIG") == std::string::npos;
	if (input) { bool e = false; for (auto &x : d.msgs) e |= x.level == CYAML_LOG_ERROR; if (!e) m.fail("%s fails with %s but reports no error", what, env::ename(d.err)); }
	auto differ = [&](const Seen &s, const char *how) {
		if (s.err != d.err) m.fail("%s gives %s %s, %s logging everything", what, env::ename(s.err), how, env::ename(d.err));
		if (s.text != d.text) m.fail("%s gives other text %s than logging everything", what, how);
		if (s.has != d.has) m.fail("%s gives data only with or without logging (%s)", what, how);
		if (s.has) same(m, t, d.v, s.v, mc::fmt("%s %s", what, how).c_str());
	};
	for (int l = CYAML_LOG_INFO; l <= CYAML_LOG_ERROR; l++) {
		Seen s = go(l, true);
		differ(s, mc::fmt("at level %s", LN[l]).c_str());
		size_t k = 0;
		for (auto &x : d.msgs) {
			if (x.level < l) continue;
			if (k >= s.msgs.size()) m.fail("%s at level %s misses the %s message: %s", what, LN[l], LN[x.level], x.text.c_str());
			if (s.msgs[k].level != x.level || norm(s.msgs[k].text) != x.text) m.fail("%s at level %s gives %s message\n%swhere the most verbose run gives %s message\n%s", what, LN[l], LN[s.msgs[k].level], s.msgs[k].text.c_str(), LN[x.level], x.text.c_str());
			k++;
		}
		if (k != s.msgs.size()) m.fail("%s at level %s gives a further message: %s", what, LN[l], s.msgs[k].text.c_str());
	}
	for (int l : {CYAML_LOG_DEBUG, CYAML_LOG_ERROR}) { Seen s = go(l, false); if (!s.msgs.empty()) m.fail("log function called without being configured"); differ(s, "without a log function"); }
	m.count("messages compared", d.msgs.size());
	m.outcome((uint64_t)d.err); m.outcome((uint64_t)d.msgs.size()); for (auto &x : d.msgs) m.outcome(x.text);
	return d;
}
/* Keys of the (expanded) document that are ignored, in order. */
struct Ign { std::string key, field; };
static void ignored(const T &t, const Node &n, unsigned cfg, std::vector<Ign> &out) {
	if (t.type == CYAML_MAPPING && n.k == Node::MAP) for (size_t i = 0; i + 1 < n.kids.size(); i += 2) {
		const Field *f = nullptr;
		for (auto &x : t.fields) if (name_eq(t, cfg, x.key, n.kids[i].s)) { f = &x; break; }
		if (!f || f->t->type == CYAML_IGNORE) out.push_back({n.kids[i].s, f ? f->key : n.kids[i].s});
		else ignored(*f->t, n.kids[i + 1], cfg, out);
	}
	if (t.is_seq() && n.k == Node::SEQ) for (auto &k : n.kids) ignored(*t.entry, k, cfg, out);
}
static void warnings(mc::Ctx &m, gen::Case &c, const Seen &d, bool whole) {
	Expanded e = expand(c.doc);
	std::vector<Ign> want; ignored(*c.top, e.doc, c.cfg, want);
	if (!(c.cfg & CYAML_CFG_IGNORED_KEY_WARNING)) want.clear();
	size_t k = 0;
	bool several = parse_yaml(c.text).docs != 1;
	for (auto &x : d.msgs) {
		if (x.level != CYAML_LOG_WARNING) continue;
		if (several && x.text.find("key") == std::string::npos) continue;
		if (k >= want.size()) m.fail("unexpected warning: %s", x.text.c_str());
		if (x.text.find(norm(want[k].key)) == std::string::npos && x.text.find(norm(want[k].field)) == std::string::npos) m.fail("warning does not name the ignored key '%s': %s", want[k].key.c_str(), x.text.c_str());
		k++;
	}
	if (whole && k < want.size()) m.fail("no warning for ignored key '%s'", want[k].key.c_str());
	m.count("ignored keys", want.size());
}
static const unsigned CF[] = {CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_IGNORED_KEY_WARNING, CYAML_CFG_IGNORE_UNKNOWN_KEYS, CYAML_CFG_IGNORED_KEY_WARNING, 0, CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_IGNORED_KEY_WARNING | CYAML_CFG_CASE_INSENSITIVE, CYAML_CFG_NO_ALIAS | CYAML_CFG_IGNORED_KEY_WARNING};
static void check_load(mc::Ctx &m, gen::Case &c) {
	if (m.tracing()) m.note("%s", c.show().c_str());
	Seen d = levels(m, c.cfg, *c.top, "load", [&](env::Cfg &cfg) { return loaded(m, cfg, *c.top, c.s, c.text); });
	if (!c.ref.unspecified) verdict(m, c.ref.errs, d.err, "load");
	warnings(m, c, d, d.err == 0);
}
static void loads(mc::Ctx &m, gen::Opt o) {
	gen::Case c;
	o.fixed_cfg = true; o.cfg = CF[m.choose(6)];
	gen::make(m, c, o);
	check_load(m, c);
}
static void ignores(mc::Ctx &m, gen::Opt o, bool free_choice) {
	gen::Case c;
	o.fixed_cfg = true; o.cfg = CF[m.choose(6)];
	gen::make(m, c, o);
	if (c.ref.unspecified) m.prune();
	for (int i = 0; i < 2; i++) { if (i && !m.choose(2)) break; if (!jk::put(m, c, free_choice && !i)) m.prune(); }
	c.text = gen::render_style(c.doc, c.style);
	c.ref = ref_load(*c.top, &c.doc, c.cfg);
	check_load(m, c);
}
/* Save, copy and free of what a document loads to, possibly with one pointer made NULL. */
static void others(mc::Ctx &m, gen::Opt o) {
	gen::Case c; o.fixed_cfg = false;
	gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || c.ref.v.k == Val::NUL || c.ref.v.k == Val::ZERO) m.prune();
	Val v = canon(*c.top, c.ref.v);
	std::vector<At> at; pointers(*c.top, v, at);
	int q = m.pick((int)at.size());
	if (q) { if (at[q].v->k == Val::NUL || at[q].v->k == Val::ZERO) m.prune(); *at[q].v = Val::nul(); }
	unsigned n = c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : c.top->type == CYAML_SEQUENCE ? (unsigned)v.v.size() : 0;
	if (m.tracing()) m.note("%s", describe(v).c_str());
	levels(m, c.cfg, *c.top, "save", [&](env::Cfg &cfg) { Seen r; Src s = source(cfg, *c.top, v); env::SaveRes x = env::save(m, cfg, c.s, s.p, s.count); r.err = x.err; r.text = x.text; r.msgs = cfg.log.msgs; return r; });
	levels(m, c.cfg, *c.top, "copy", [&](env::Cfg &cfg) {
		Seen r; env::Cfg own; Src s = source(own, *c.top, v); env::CopyRes x = env::copy(m, cfg, c.s, s.p, n); r.err = x.err;
		if (!x.err && x.data) { Reader rd(m, cfg.heap, "copy"); rd.exact_zero = false; r.v = rd.top(*c.top, x.data, n); r.has = true; env::release(m, cfg, c.s, x.data, n); }
		r.msgs = cfg.log.msgs; return r; });
	levels(m, c.cfg, *c.top, "free", [&](env::Cfg &cfg) { Seen r; Src s = source(cfg, *c.top, v); env::release(m, cfg, c.s, s.p, n); if (cfg.heap.live()) m.fail("free left blocks"); r.msgs = cfg.log.msgs; return r; });
}
/* Texts cut short, several documents, failing memory, files. */
static void world_case(mc::Ctx &m) {
	world::World &w = world::W();
	int k = m.pick(world::World::N), d = m.pick((int)w.text[k].size()), cf = m.pick(3), how = m.pick(4);
	const std::string &text = w.text[k][(size_t)d]; const T &t = *w.s[k];
	size_t arg = how == 0 ? (size_t)m.pick((int)text.size() + 1) : how == 1 ? (size_t)m.pick(48) : (size_t)m.pick(3);
	if (how == 3 && arg == 2) m.prune();
	m.commit();
	if (m.tracing()) m.note("schema %d document %d flags 0x%x variant %d %zu\n", k, d, w.flags[cf], how, arg);
	switch (how) {
	case 0: levels(m, w.flags[cf], t, "load of a text cut short", [&](env::Cfg &c) { return loaded(m, c, t, t.c, text.substr(0, arg)); }); break;
	case 1: levels(m, w.flags[cf], t, "load without memory", [&](env::Cfg &c) { return loaded(m, c, t, t.c, text); }, (long)arg); break;
	case 2: { std::string more = arg == 0 ? "---\nx\n" : arg == 1 ? "---\n[]\n---\n{}\n" : "...\n";
		Seen s = levels(m, w.flags[cf], t, "load of several documents", [&](env::Cfg &c) { return loaded(m, c, t, t.c, text + more); }); (void)s; break; }
	default: { bool open = arg == 0;
		levels(m, w.flags[cf], t, "load of a failing file", [&](env::Cfg &c) { io::File f; f.data = text; f.open_fails = open; f.fail_offset = (long)text.size() / 2; io::Use u(f); Seen r; env::LoadRes l = env::load_file(m, c, t.c, "in"); r.err = l.err; if (!l.err && l.data) env::release(m, c, t.c, l.data, l.count); r.msgs = c.log.msgs; return r; }); }
	}
}
static void world_save(mc::Ctx &m) {
	world::World &w = world::W();
	int k = m.pick(world::World::N), d = m.pick((int)w.docs[k].size()), cf = m.pick(3), how = m.pick(4), at = m.pick(24);
	const T &t = *w.s[k]; const World::Ld &x = w.get(m, k, d, cf);
	if (x.code || (how == 2 && at > 20) || (how == 3 && at > 2)) m.prune();
	m.commit();
	Val v = canon(t, x.ref.v);
	unsigned n = t.type == CYAML_SEQUENCE_FIXED ? t.smax : t.type == CYAML_SEQUENCE ? (unsigned)v.v.size() : 0;
	if (m.tracing()) m.note("schema %d document %d flags 0x%x variant %d %d\n", k, d, w.flags[cf], how, at);
	/* The source lives in an allocator of its own, so that the failing request is the call's. */
	switch (how) {
	case 0: levels(m, w.flags[cf], t, "save without memory", [&](env::Cfg &c) { env::Cfg own; Src s = source(own, t, v); Seen r; env::SaveRes q = env::save(m, c, t.c, s.p, s.count); r.err = q.err; r.text = q.text; r.msgs = c.log.msgs; return r; }, at); break;
	case 1: levels(m, w.flags[cf], t, "copy without memory", [&](env::Cfg &c) { env::Cfg own; Src s = source(own, t, v); Seen r; env::CopyRes q = env::copy(m, c, t.c, s.p, n); r.err = q.err; if (!q.err) env::release(m, c, t.c, q.data, n); r.msgs = c.log.msgs; return r; }, at); break;
	default: levels(m, w.flags[cf], t, "save to a failing file", [&](env::Cfg &c) {
		env::Cfg own; Src s = source(own, t, v); Seen r; io::File f; if (how == 2) f.fail_offset = at; else if (at == 0) f.open_fails = true; else if (at == 1) f.close_fails = true; io::Use u(f);
		r.err = env::save_file(m, c, "out", t.c, s.p, s.count); r.text = f.data; r.msgs = c.log.msgs; return r; });
	}
}
/* The standard log function writes each message, and the name of its level, to stderr. */
static void standard(mc::Ctx &m) {
	world::World &w = world::W();
	int k = m.pick(world::World::N), d = m.pick((int)w.text[k].size()), cf = m.pick(3), level = m.pick(5);
	m.commit();
	const T &t = *w.s[k]; const std::string &text = w.text[k][(size_t)d];
	if (m.tracing()) m.note("schema %d document %d flags 0x%x level %s\n", k, d, w.flags[cf], LN[level]);
	Seen want; { env::Cfg c(w.flags[cf], level, true); want = loaded(m, c, t, t.c, text); }
	static int ctx;
	char *buf[2] = {nullptr, nullptr}; size_t len[2]; FILE *keep[2] = {stderr, stdout};
	FILE *mem[2]; for (int i = 0; i < 2; i++) mem[i] = open_memstream(&buf[i], &len[i]);
	Seen got; std::string fail;
	{ env::Cfg c(w.flags[cf], level, false); c.c.log_fn = log_std; c.c.log_ctx = cf == 0 ? nullptr : &ctx;
	  stderr = mem[0]; stdout = mem[1];
	  try { got = loaded(m, c, t, t.c, text); } catch (mc::Violation &v) { fail = v.msg; }
	  stderr = keep[0]; stdout = keep[1]; }
	for (int i = 0; i < 2; i++) fclose(mem[i]);
	std::string e = norm(std::string(buf[0], len[0])); size_t out = len[1]; free(buf[0]); free(buf[1]);
	if (!fail.empty()) m.fail("%s", fail.c_str());
	if (out) m.fail("the standard log function wrote to stdout");
	if (got.err != want.err || !(got.v == want.v)) m.fail("other outcome with the standard log function");
	size_t p = 0;
	for (auto &x : want.msgs) {
		std::string s = norm(x.text); size_t q = e.find(s, p);
		if (q == std::string::npos) m.fail("stderr lacks the message: %s\nstderr:\n%s", s.c_str(), e.c_str());
		if (e.substr(p, q - p).find(LN[x.level]) == std::string::npos) m.fail("stderr does not name level %s before: %s", LN[x.level], s.c_str());
		if (q - p > 64) m.fail("stderr has more than the messages: %s", e.substr(p, q - p).c_str());
		p = q + s.size();
	}
	if (p != e.size()) m.fail("stderr has more than the messages: %s", e.substr(p).c_str());
	m.count("messages on stderr", want.msgs.size()); m.outcome(e);
}
static void scaled(mc::Ctx &m) {
	int op = m.pick(2); gen::Case c; c.cfg = CF[0]; scale(m, c);
	if (!c.ref.ok() || c.text.size() > 60000) m.prune();      /* the most verbose level costs too much beyond */
	if (op) { Val v = canon(*c.top, c.ref.v); levels(m, c.cfg, *c.top, "save", [&](env::Cfg &cfg) { Seen r; Src s = source(cfg, *c.top, v); env::SaveRes x = env::save(m, cfg, c.s, s.p, s.count); r.err = x.err; r.text = x.text; r.msgs = cfg.log.msgs; return r; }); }
	else check_load(m, c);
}
/* Ignored keys inside anchored content, which is loaded again by each alias. */
static void replayed(mc::Ctx &m) {
	int anch = m.pick(8), where = m.pick(16), uses = m.pick(3), ign = m.pick(4), aka = m.pick(2), cf = m.pick(6);
	m.commit();
	gen::Case c; c.cfg = CF[cf];
	auto add = [](T *p, const char *k, T *t) { Field f; f.key = k; f.t = t; p->fields.push_back(f); };
	auto i4 = [&]() { return c.a.t(CYAML_INT, CYAML_FLAG_OPTIONAL, 4); };
	T *in = c.a.t(CYAML_MAPPING, CYAML_FLAG_OPTIONAL | (where & 1 ? CYAML_FLAG_POINTER : 0u)); add(in, "p", i4()); add(in, "skip", c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL));
	T *e = c.a.t(CYAML_MAPPING); add(e, "x", i4()); add(e, "in", in); T *l = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL); l->smax = CYAML_UNLIMITED; l->entry = in; add(e, "l", l);
	T *q = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); q->smax = CYAML_UNLIMITED; q->entry = e;
	if (l->entry->flags & CYAML_FLAG_OPTIONAL) { T *in2 = c.a.t(CYAML_MAPPING, in->flags & ~(unsigned)CYAML_FLAG_OPTIONAL); in2->fields = in->fields; l->entry = in2; }
	auto junk = [&](Node &n, int k) {          /* an ignored key and value */
		Node v = ign == 0 ? Node::sc("1") : ign == 1 ? Node::seq() : ign == 2 ? Node::map() : Node::sc("");
		if (ign == 1) { Node y = Node::sc("z"); if (aka) y.anchor = mc::fmt("j%d", k); v.add(y); if (aka) v.add(Node::alias(mc::fmt("j%d", k))); }
		if (ign == 2) v.add("unknown", Node::sc("v"));
		n.add(k & 1 ? "skip" : mc::fmt("other%d", k), v);
	};
	Node i1 = Node::map(), i2 = Node::map(), x = Node::map();
	i1.add("p", Node::sc("1")); i2.add("p", Node::sc("2"));
	if (where & 1) junk(i1, 1); if (where & 2) junk(i2, 2); if (where & 4) junk(x, 4); if (where & 8) { junk(i1, 6); i2.kids[0].s = "skip"; }
	x.add("x", Node::sc("5")); if (anch & 1) i1.anchor = "i"; if (anch & 2) i2.anchor = "k"; if (anch & 4) x.anchor = "x";
	x.add("in", i1); Node li = Node::seq(); li.add(i2); if (anch & 1) li.add(Node::alias("i")); li.add(i2); if (anch & 2) li.kids.back() = Node::alias("k"); x.add("l", li);
	if (where & 4) junk(x, 8);
	c.doc = Node::seq(); c.doc.add(x); for (int i = 0; i < uses; i++) { if (anch & 4) c.doc.add(Node::alias("x")); else { Node y = Node::map(); if (anch & 1) y.add("in", Node::alias("i")); if (anch & 2) y.add("other", Node::alias("k")); c.doc.add(y); } }
	gen::finish(m, c);
	if (c.ref.unspecified) m.prune();
	check_load(m, c);
}
/* Names and values that look like format directives are logged like any others: with each % of the text replaced by
 * another character the messages are the same up to that character. */
static const int SITES = 22;
static void directive(mc::Ctx &m, int site, const std::string &tok, unsigned cfg, std::vector<env::Msg> &msgs, int &err, bool levelled) {
	gen::Case c; c.cfg = cfg;
	T *t = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
	auto add = [&](const std::string &k, T *x) { Field f; f.key = k; f.t = x; t->fields.push_back(f); };
	auto i4 = [&]() { return c.a.t(CYAML_INT, 0, 4); };
	auto q = [&](const std::string &x) { return Node::sc(x, DOUBLE); };
	c.doc = Node::map();
	auto put = [&](const std::string &k, const Node &v) { c.doc.kids.push_back(q(k)); c.doc.kids.push_back(v); };
	bool save = false, copy = false; std::string anchor;
	Val v = Val::map();
	add("plain", i4()); put("plain", Node::sc("1"));
	switch (site) {
	case 0: put(tok, Node::sc("1")); break;                                               /* unknown or ignored key */
	case 1: add(tok, c.a.t(CYAML_IGNORE)); put(tok, q(tok)); break;
	case 2: add(tok, i4()); break;                                                        /* missing */
	case 3: add(tok, i4()); put(tok, q(tok)); break;                                      /* key and value */
	case 4: add("u", c.a.t(CYAML_UINT, 0, 2)); put("u", q(tok)); break;
	case 5: add("b", c.a.t(CYAML_BOOL, 0, 1)); put("b", q(tok)); break;
	case 6: add("f", c.a.t(CYAML_FLOAT, 0, 8)); put("f", q(tok)); break;
	case 7: { T *e = c.a.t(CYAML_ENUM, CYAML_FLAG_STRICT, 4); e->strs = {{"n" + tok, 1}}; add("e", e); put("e", q(tok)); break; }
	case 8: { T *e = c.a.t(CYAML_FLAGS, CYAML_FLAG_STRICT, 4); e->strs = {{"n" + tok, 1}}; add("e", e); Node s = Node::seq(); s.add(q("n" + tok)); s.add(q(tok)); put("e", s); break; }
	case 9: { T *e = c.a.t(CYAML_BITFIELD, 0, 4); e->bits = {{"n" + tok, 0, 3}}; add("e", e); Node s = Node::map(); s.kids.push_back(q("n" + tok)); s.kids.push_back(q("1")); s.kids.push_back(q(tok)); s.kids.push_back(q("1")); put("e", s); break; }
	case 10: { T *e = c.a.t(CYAML_BITFIELD, 0, 4); e->bits = {{tok, 0, 3}}; add("e", e); Node s = Node::map(); s.kids.push_back(q(tok)); s.kids.push_back(q(tok)); put("e", s); break; }
	case 11: { T *e = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); e->smax = 2; add("e", e); put("e", q(tok)); break; }
	case 12: { T *e = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); e->smin = 90; e->smax = 99; add("e", e); put("e", q(tok)); break; }
	case 13: add(tok, i4()); put(tok, q("1")); put(tok, q("1")); break;                    /* twice */
	case 14: add(tok, i4()); put(tok, Node::seq()); break;                                  /* wrong kind */
	case 15: { T *e = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); e->smax = CYAML_UNLIMITED; add(tok, e); put(tok, q(tok)); break; }   /* loads */
	case 16: { T *e = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); e->smax = CYAML_UNLIMITED; add(tok, e); save = true; v.v = {Val::num(1), Val::nul()}; break; }
	case 17: { T *e = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); e->smax = 1; add(tok, e); save = true; v.v = {Val::num(1), Val::str(tok)}; break; }
	case 18: { T *e = c.a.t(CYAML_ENUM, CYAML_FLAG_STRICT, 4); e->strs = {{tok, 1}}; add(tok, e); save = true; v.v = {Val::num(1), Val::num(2)}; break; }
	case 19: { T *e = c.a.t(CYAML_ENUM, CYAML_FLAG_STRICT, 4); e->strs = {{tok, 1}}; add(tok, e); save = true; v.v = {Val::num(1), Val::num(1)}; break; }
	case 20: { T *e = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); e->smax = CYAML_UNLIMITED; add(tok, e); copy = true; v.v = {Val::num(1), Val::nul()}; break; }
	default: add(tok, i4()); break;                                                        /* a file that cannot be opened */
	}
	gen::finish(m, c);
	Run run;
	if (site == 21) run = [&](env::Cfg &g) { io::File f; f.open_fails = true; io::Use u(f); Seen r; env::LoadRes l = env::load_file(m, g, c.s, tok.c_str()); r.err = l.err; r.msgs = g.log.msgs; return r; };
	else if (save) run = [&](env::Cfg &g) { Seen r; Src s = source(g, *c.top, v); env::SaveRes x = env::save(m, g, c.s, s.p, s.count); r.err = x.err; r.text = x.text; r.msgs = g.log.msgs; return r; };
	else if (copy) run = [&](env::Cfg &g) { Seen r; env::Cfg own; Src s = source(own, *c.top, v); env::CopyRes x = env::copy(m, g, c.s, s.p, 0); r.err = x.err; if (!x.err && x.data) env::release(m, g, c.s, x.data, 0); r.msgs = g.log.msgs; return r; };
	else run = [&](env::Cfg &g) { return loaded(m, g, *c.top, c.s, c.text); };
	if (levelled) { Seen d = levels(m, cfg, *c.top, "call with such texts", run); err = d.err; msgs = d.msgs; }
	else { env::Cfg g(cfg, CYAML_LOG_DEBUG, true); Seen d = run(g); err = d.err; msgs = d.msgs; }
}
static void directives(mc::Ctx &m) {
	static const char *const TOK[] = {"%d", "%s", "100%", "%%", "%%%s", "a%sb%sc%sd%s", "%5.3f%-20d", "%*d", "%.*s", "%c%x%p%i%u", "%ld%lld%zu", "% d", "%", "\\%s\"", "%08lx%", "%1$s"};
	int site = m.pick(SITES), k = m.pick(16), cf = m.pick(6);
	m.commit();
	std::string a = TOK[k], b = a; for (auto &x : b) if (x == '%') x = '!';
	if (m.tracing()) m.note("site %d text %s flags 0x%x\n", site, a.c_str(), CF[cf]);
	std::vector<env::Msg> ma, mb; int ea, eb;
	directive(m, site, b, CF[cf], mb, eb, false);
	directive(m, site, a, CF[cf], ma, ea, true);
	if (ea != eb) m.fail("%s with the text %s, %s with %s", env::ename(ea), a.c_str(), env::ename(eb), b.c_str());
	if (ma.size() != mb.size()) m.fail("%zu messages with the text %s, %zu with %s", ma.size(), a.c_str(), mb.size(), b.c_str());
	for (size_t i = 0; i < ma.size(); i++) {
		std::string x = ma[i].text, y = norm(mb[i].text); for (auto &z : x) if (z == '%') z = '!'; for (auto &z : y) if (z == '%') z = '!';
		if (ma[i].level != mb[i].level || x != y) m.fail("with the text %s the message is\n%swith %s it is\n%s", a.c_str(), ma[i].text.c_str(), b.c_str(), mb[i].text.c_str());
	}
}
/* Messages about texts of any length. */
static void longmsgs(mc::Ctx &m) {
	static const int L[] = {31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 999, 1023, 1024};
	int site = m.pick(SITES), n = L[m.pick(20)], cf = m.pick(6);
	m.commit();
	std::string s; for (int i = 0; i < n; i++) s += (char)('a' + (i * 7 + i / 64) % 26);
	if (m.tracing()) m.note("site %d length %d flags 0x%x\n", site, n, CF[cf]);
	std::vector<env::Msg> msgs; int e; directive(m, site, s, CF[cf], msgs, e, true);
}
static void build(std::vector<mc::Family> &f, bool th) {
	{ gen::Opt o; o.nodes = 2; o.invalid = true; o.leaf_free = true; o.vary_limits = false; o.vary_layout = false; o.vary_style = false;
	  f.push_back({"loads", "schema trees of up to 2 nodes with every leaf profile and every valid or invalid text, further choices within the bound, at every level and with no log function", [o](mc::Ctx &m) { loads(m, o); }, 0, 1}); }
	{ gen::Opt o; o.nodes = th ? 4 : 3; o.min_nodes = 2; o.invalid = true; o.vary_limits = false; o.vary_layout = false;
	  f.push_back({"deeper loads", "schema trees of 2..3 (4) nodes", [o](mc::Ctx &m) { loads(m, o); }, 2, 2}); }
	{ gen::Opt o; o.nodes = 3; o.min_nodes = 2; o.invalid = true; o.vary_limits = false; o.vary_layout = false;
	  f.push_back({"ignored keys", "schema trees of 2..3 nodes with an ignored or unknown key at every position of every mapping with 16 values, further choices and a second key within the bound: warnings name exactly the ignored keys when configured", [o](mc::Ctx &m) { ignores(m, o, true); }, 1, 2}); }
	{ gen::Opt o; o.nodes = th ? 4 : 3; o.vary_limits = false; o.vary_layout = false; o.vary_order = false; o.no_empty_top = true;
	  f.push_back({"save, copy, free", "data of schema trees of up to 3 (4) nodes, as loaded and with one pointer made NULL", [o](mc::Ctx &m) { others(m, o); }, 2, 2}); }
	f.push_back({"replayed keys", "ignored keys at 16 combinations of places inside content with anchors at 8 combinations of levels, used again 0..2 times, 4 values, 6 configurations", replayed, 0, 0});
	f.push_back({"scale", std::string(SCALE) + ", texts of up to 60000 bytes", scaled, 0, 0});
	f.push_back({"texts like formats", "16 texts with % directives as key, value, name, path at 22 places of loads, saves and copies that succeed or fail, 6 configurations: the messages are those for the same texts without %", directives, 0, 0});
	f.push_back({"long texts", "texts of 31..1024 characters at the same places", longmsgs, 0, 0});
	f.push_back({"faulty loads", "every prefix of every document of the world, every allocation failing, several documents, failing files", world_case, 0, 0});
	f.push_back({"faulty saves and copies", "every allocation failing, and files failing at every of the first 20 offsets, at open and at close", world_save, 0, 0});
	f.push_back({"standard log function", "every document of the world at every level with cyaml_log, stderr captured", standard, 0, 0});
}
const mc::Prop mc::PROP = {"C22", "A case is one operation, run at the most verbose level, at each other level and without a log function: outcomes and data are equal, and the messages at a level are those of the most verbose run filtered to that level; warnings name exactly the ignored keys when configured.", build};
