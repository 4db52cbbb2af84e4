#include "../common.hpp"
#include "../encode.hpp"
#include <unistd.h>
using namespace md;
using namespace com;

/* ---- what goes around documents ---- */
static const char *const BEFORE[] = {"", "---\n", "--- ", "%YAML 1.1\n---\n", "# comment\n", "%TAG !e! tag:example.com,2000:\n---\n", "\n\n# a\n  # b\n---\n", "---\n# comment\n", "...\n---\n", "%TAG !e! tag:e,1:\n%YAML 1.1\n# c\n--- # c\n"};
static const char *const BETWEEN[] = {"---\n", "...\n---\n", "...\n%YAML 1.1\n---\n", "# c\n--- # c\n", "...\n# x\n---\n", "...\n%TAG !e! tag:example.com,2000:\n---\n", "--- "};
static const char *const AFTER[] = {"", "...\n", "\n# comment\n", "...\n# comment\n\n", "...\n...\n"};
#define N_OF(a) ((int)(sizeof(a) / sizeof *(a)))

static Node S(const std::string &s, int style = PLAIN) { return Node::sc(s, style); }
static Node L(std::initializer_list<Node> l) { Node x = Node::seq(); for (auto &y : l) x.add(y); return x; }
static Node M(std::initializer_list<std::pair<const char *, Node>> l) { Node x = Node::map(); for (auto &y : l) x.add(y.first, y.second); return x; }
struct World {
	Arena a;
	struct Sch { T *t; std::vector<Node> docs; };
	std::vector<Sch> s;
	std::vector<std::string> follow;   /* texts of following documents */
	struct First { std::string text; Node doc; Ref ref; int code; bool known = false; };
	std::vector<std::vector<First>> first;
	World();
};
World::World() {
	auto str = [&](unsigned f) { T *t = a.t(CYAML_STRING, CYAML_FLAG_POINTER | f, 1); t->smax = CYAML_UNLIMITED; return t; };
	auto add = [&](T *p, const char *k, T *t) { Field f; f.key = k; f.t = t; p->fields.push_back(f); };
	std::string wide = "\xc3\xa9 \xe6\xbc\xa2\xe5\xad\x97 \xf0\x9f\x98\x80", big;
	for (int i = 0; i < 1500; i++) big += wide + "x";
	Node anch = S("7"); anch.anchor = "a"; Node tagged = S("tagged"); tagged.tag = "!e!t"; Node str2 = S("12"); str2.tag = "!!str";
	Node flow = L({S("1"), S("2")}); flow.flow = true;
	/* 0: a mapping with defaults */
	T *p = a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
	T *n = a.t(CYAML_INT, CYAML_FLAG_OPTIONAL, 4); n->imiss = -3; add(p, "n", n);
	add(p, "s", str(CYAML_FLAG_OPTIONAL));
	T *q = a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL); q->smax = 3; q->entry = a.t(CYAML_UINT, 0, 1); add(p, "q", q);
	add(p, "\xc3\xa9", str(CYAML_FLAG_OPTIONAL));
	s.push_back({p, {M({}), M({{"n", S("5")}, {"s", S("text")}}), M({{"q", flow}, {"s", S("multi\nline\n\n  more", LITERAL)}}), M({{"n", anch}, {"q", L({Node::alias("a"), S("2")})}}),
		M({{"s", S(wide, DOUBLE)}, {"\xc3\xa9", S(wide)}}), M({{"s", S(big)}, {"n", S("1")}}), M({{"s", tagged}, {"n", str2}}), M({{"s", S("folded text\nhere\n", FOLDED)}}),
		/* not conforming */
		M({{"x", S("1")}}), M({{"q", L({S("1"), S("2"), S("3"), S("4")})}}), M({{"n", S("1")}, {"n", S("2")}}), L({S("1")}), M({{"s", Node::alias("b")}})}});
	/* 1: a sequence */
	T *sq = a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); sq->smin = 1; sq->smax = CYAML_UNLIMITED; sq->entry = str(CYAML_FLAG_POINTER_NULL);
	Node many = Node::seq(); for (int i = 0; i < 60; i++) many.add(S(mc::fmt("entry %d %s", i, wide.c_str())));
	s.push_back({sq, {L({S("one"), S("two")}), L({S("", SINGLE), S(wide)}), many, flow, /* not conforming */ L({}), S("x"), L({S("a"), L({})})}});
	/* 2: a string, 3: a nullable number, 4: fixed sequence of mappings */
	s.push_back({str(0), {S("plain"), S("---", SINGLE), S("a\nb", LITERAL), S("several words: \"quoted\"", DOUBLE), S(""), S(wide), tagged, /* not conforming */ L({}), M({})}});
	T *u = a.t(CYAML_UINT, CYAML_FLAG_POINTER_NULL, 8);
	s.push_back({u, {S("123"), S(""), str2, /* not conforming */ S("x"), S("-1")}});
	T *fx = a.t(CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER); fx->smin = fx->smax = 2; fx->entry = a.t(CYAML_MAPPING); add(fx->entry, "b", a.t(CYAML_BOOL, 0, 1));
	s.push_back({fx, {L({M({{"b", S("yes")}}), M({{"b", S("no")}})}), /* not conforming */ L({M({{"b", S("yes")}})}), L({M({}), M({})})}});
	for (auto &x : s) { lower(a, *x.t); first.push_back({}); for (auto &d : x.docs) { First f; f.doc = d; f.text = render(f.doc); first.back().push_back(f); } }
	std::string deep; for (int i = 0; i < 200; i++) deep += "[";
	for (int i = 0; i < 200; i++) deep += "]";
	std::string huge = "big:\n"; for (int i = 0; i < 3000; i++) huge += "  - entry " + wide + "\n";
	follow = {"n: 6\ns: other\n", "- 1\n- 2\n", "scalar\n", "", "unknown: key\n", "n: 1\nn: 2\n", "*undefined\n", "- &a 1\n- *a\n- *zz\n", deep + "\n", huge, "b: |\n  literal\n  ---x\n", "\"quoted\"\n", "? [complex, key]\n: {a: b}\n", "!e!t tagged\n", "n: 99999999999999999999999\n"};
}
static World &W() { static World *w = new World; return *w; }
static const World::First &alone(mc::Ctx &m, size_t k, size_t d, unsigned cfg) {
	World::First &f = W().first[k][d];
	if (f.known) return f;
	f.ref = ref_load(*W().s[k].t, &f.doc, cfg);
	if (f.ref.unspecified) m.fail("harness: undefined document");
	f.code = -1;
	if (f.text.find("!e!") != std::string::npos) { f.known = true; return f; }   /* needs a directive */
	env::Cfg c(cfg);
	env::LoadRes r = env::load(m, c, W().s[k].t->c, f.text);
	f.code = r.err;
	verdict(m, f.ref.errs, r.err, "load of the document alone");
	if (r.data) env::release(m, c, W().s[k].t->c, r.data, r.count);
	f.known = true;
	return f;
}
static void check(mc::Ctx &m, const T &t, const Ref &ref, int code, const std::string &bytes, unsigned cfg, bool file) {
	for (int i = 0; i < (file ? 2 : 1); i++) {
		env::Cfg c(cfg);
		env::LoadRes r;
		if (i) {
			std::string p = mc::scratch("s.yaml"); FILE *f = fopen(p.c_str(), "wb"); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f);
			r = env::load_file(m, c, t.c, p.c_str()); unlink(p.c_str());
		} else r = env::load(m, c, t.c, bytes);
		const char *what = i ? "load of the stream from a file" : "load of the stream";
		if (r.err != code && code >= 0) m.fail("%s gives %s, its first document alone gives %s", what, env::ename(r.err), env::ename(code));
		if (verdict(m, ref.errs, r.err, what)) {
			check_loaded(m, c.heap, t, ref.v, r.data, r.count, what, 0);
			if (r.data) env::release(m, c, t.c, r.data, r.count);
			if (c.heap.live()) m.fail("%s and free left %zu block(s)", what, c.heap.live());
		}
		m.outcome((uint64_t)r.err);
	}
}
/* form 0: encodings with one part around the documents at a time; 1: everything around the documents together */
static void streams(mc::Ctx &m, int form) {
	World &w = W();
	int co = form == 0;
	size_t k = form == 0 ? (size_t)m.pick((int)w.s.size()) : (size_t)m.pick(2) * 2, d = (size_t)m.pick((int)w.s[k].docs.size());
	int b = m.choose(N_OF(BEFORE), co), e = m.choose(ENCODINGS, !co);
	int second = m.pick((int)w.follow.size() + 1), bt = second ? m.choose(N_OF(BETWEEN), co) : 0;
	int after = m.choose(N_OF(AFTER), co);
	int third = second ? m.choose((int)w.follow.size() + 1) : 0, bt3 = third ? m.choose(N_OF(BETWEEN)) : 0;
	int file = m.choose(2);
	m.commit();
	const World::First &f = alone(m, k, d, 0);
	std::string text = BEFORE[b] + f.text;
	if (second) text += BETWEEN[bt] + w.follow[(size_t)second - 1];
	if (third) text += BETWEEN[bt3] + w.follow[(size_t)third - 1];
	text += AFTER[after];
	/* Only what YAML itself takes as a stream with that first document. */
	Parsed p = parse_yaml(text);
	if (!p.ok) { m.count("not well-formed for libyaml"); m.prune(); }
	if (p.docs != 1 + (second > 0) + (third > 0) || !p.doc.same_content(f.doc)) { m.count("other documents for libyaml"); m.prune(); }
	if (m.tracing()) m.note("encoding %d\n%s\nexpected %s\n", e, env::quote(text).c_str(), errset(f.ref.errs).c_str());
	check(m, *w.s[k].t, f.ref, f.code, encode(text, e), 0, file);
	m.outcome(text); m.outcome((uint64_t)e);
}
/* Every small case inside streams. */
static void cases(mc::Ctx &m, gen::Opt o) {
	gen::Case c;
	gen::make(m, c, o);
	if (c.ref.unspecified) m.prune();
	int e = m.pick(ENCODINGS), ctx = m.pick(5);
	m.commit();
	std::string text = c.text;
	static const char *const PRE[] = {"", "%YAML 1.1\n---\n", "# comment\n---\n", "\n", "---\n"};
	static const char *const POST[] = {"", "...\n", "---\nother: [1, 2]\n", "...\n%YAML 1.1\n---\n- x\n---\ny\n", "--- *nothing\n"};
	text = PRE[ctx] + text + POST[ctx];
	Parsed p = parse_yaml(text); Parsed q = parse_yaml(c.text);
	if (!p.ok || !q.ok || p.empty || q.empty || !p.doc.same_content(q.doc)) { m.count("not such a stream for libyaml"); m.prune(); }
	if (m.tracing()) m.note("%s\nin stream context %d, encoding %d\n%s\n", c.show().substr(0, 5000).c_str(), ctx, e, env::quote(text).c_str());
	check(m, *c.top, c.ref, -1, encode(text, e), c.cfg, false);
	m.outcome(text); m.outcome((uint64_t)e);
}
/* Streams without documents. */
static void empty(mc::Ctx &m) {
	static const char *const E[] = {"", "\n", "\n\n\n", " ", "   \n  ", "# comment", "# comment\n", "#\n#\n\n", "...\n", "...\n...\n", "# c\n...\n# d\n"};
	World &w = W();
	int k = m.pick((int)w.s.size() + 3), e = m.pick(ENCODINGS), t = m.pick(N_OF(E)), file = m.pick(2), opt = m.pick(3);
	m.commit();
	Arena a; T *s;
	if (k < (int)w.s.size()) s = w.s[(size_t)k].t;
	else {
		s = a.t(k == (int)w.s.size() ? CYAML_MAPPING : k == (int)w.s.size() + 1 ? CYAML_FLAGS : CYAML_BITFIELD, CYAML_FLAG_POINTER, 4);
		if (s->type == CYAML_MAPPING) { s->fields.resize(1); s->fields[0].key = "required"; s->fields[0].t = a.t(CYAML_INT, 0, 4); }
		lower(a, *s);
	}
	Parsed y = parse_yaml(E[t]);
	if (!y.ok || y.docs) { m.count("not an empty stream for libyaml"); m.prune(); }
	std::string text = encode(E[t], e);
	if (m.tracing()) m.note("%s", env::quote(text).c_str());
	unsigned cfg = opt == 1 ? CYAML_CFG_NO_ALIAS : opt == 2 ? CYAML_CFG_IGNORE_UNKNOWN_KEYS : 0;
	env::Cfg c(cfg);
	env::LoadRes r;
	if (file) {
		std::string p = mc::scratch("e.yaml"); FILE *f = fopen(p.c_str(), "wb"); fwrite(text.data(), 1, text.size(), f); fclose(f);
		r = env::load_file(m, c, s->c, p.c_str()); unlink(p.c_str());
	} else r = env::load(m, c, s->c, text);
	if (r.err != CYAML_OK) m.fail("an empty stream gives %s", env::ename(r.err));
	if (r.data) m.fail("an empty stream gives data");
	if (r.count) m.fail("an empty stream gives a count of %u", r.count);
	if (c.heap.live()) m.fail("an empty stream leaves %zu block(s)", c.heap.live());
	/* nothing is freed like anything else */
	env::release(m, c, s->c, nullptr, 0);
	m.outcome(text); m.outcome((uint64_t)k);
}
/* Long streams. */
static void many(mc::Ctx &m) {
	World &w = W();
	int n = m.pick(m.thorough ? 300 : 40) + 1, f = m.pick((int)w.follow.size()), k = m.pick(2);
	m.commit();
	const World::First &x = alone(m, (size_t)k, 1, 0);
	std::string text = x.text;
	if (w.follow[(size_t)f].size() > 10000 && n > 5) m.prune();
	for (int i = 0; i < n; i++) text += BETWEEN[(i + f) % 2] + w.follow[((size_t)f + (size_t)i * (f % 3 == 0)) % 8];
	Parsed p = parse_yaml(text);
	if (!p.ok) { m.count("not such a stream for libyaml"); m.prune(); }
	if (m.tracing()) m.note("%s\n", env::quote(text).c_str());
	check(m, *w.s[(size_t)k].t, x.ref, x.code, text, 0, false);
	m.outcome(text);
}
static void very_many(mc::Ctx &m) {
	World &w = W();
	static const int N[] = {254, 255, 256, 257, 511, 512, 65534, 65535, 65536, 65537};
	int n = N[m.pick(10)], k = m.pick(2), d = m.pick(2);
	m.commit();
	const World::First &x = alone(m, (size_t)k, (size_t)d, 0);
	std::string text = x.text;
	for (int i = 0; i < n; i++) text += i % 3 ? "--- {a: 5}\n" : "---\n- 5\n";
	check(m, *w.s[(size_t)k].t, x.ref, x.code, text, 0, false);
	m.outcome((uint64_t)n);
}
static void scaled(mc::Ctx &m) {
	int e = m.pick(ENCODINGS), ctx = m.pick(2); gen::Case c; scale(m, c);
	if (e && (c.text.size() > 100000 || (!m.thorough && ctx))) m.prune();
	std::string text = ctx ? "%YAML 1.1\n---\n" + c.text + "---\nother: [1, 2]\n" : c.text;
	Parsed p = parse_yaml(text), q = parse_yaml(c.text);
	if (!p.ok || !q.ok || !p.doc.same_content(q.doc)) { m.count("not such a stream for libyaml"); m.prune(); }
	check(m, *c.top, c.ref, -1, encode(text, e), c.cfg, false);
	m.outcome(c.a.hash()); m.outcome((uint64_t)e);
}
static void build(std::vector<mc::Family> &f, bool) {
	f.push_back({"encodings", "5 schemas x 4..13 first documents (conforming or not) x 7 encodings and line breaks x 15 second documents; deviations: 10 beginnings, 7 separators, a third document, 5 endings, from a file", [](mc::Ctx &m) { streams(m, 0); }, 1, 2});
	f.push_back({"streams", "2 schemas x 9..13 first documents x 10 beginnings x 15 second documents x 7 separators x 5 endings; deviations: 7 encodings, a third document with its separator, from a file", [](mc::Ctx &m) { streams(m, 1); }, 0, 1});
	{ gen::Opt o; o.nodes = 3; o.invalid = true;
	  f.push_back({"cases", "every schema tree of up to 3 nodes with conforming and violating documents in 5 stream contexts and 7 encodings", [o](mc::Ctx &m) { cases(m, o); }, 1, 2}); }
	f.push_back({"empty", "11 streams without documents x 7 encodings x 8 schemas x configurations, from memory and file", empty, 0, 0});
	f.push_back({"very many", "streams of 255..258, 512, 513 and 65535..65538 documents", very_many, 0, 0});
	f.push_back({"scale", std::string(SCALE) + ", alone and as first of two documents, in 7 encodings", scaled, 0, 0});
	f.push_back({"many", "streams of up to 40 (thorough 300) documents", many, 0, 0});
}
const mc::Prop mc::PROP = {"C26", "A case is a schema and a stream built from a first document and what surrounds and follows it, in one of the encodings; the load is compared with the reference for the first document and with the load of that document alone.", build};
