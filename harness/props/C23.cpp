#include "../world.hpp"
#include <algorithm>
using namespace md;
using namespace com;

/* One step from the top level to a value. */
struct Step { bool field; std::string key, alt; uint32_t idx; std::vector<std::pair<int, int>> pos; bool placed = true; };
typedef std::vector<Step> Path;
/* What the log says, innermost first. */
struct Frame { int kind; std::string key; unsigned long idx = 0, line = 0, col = 0; bool placed = false; std::string text; };   /* kind 0 field, 1 mapping, 2 entry */
static bool num_after(const std::string &s, size_t &p, unsigned long &n) {
	while (p < s.size() && !isdigit((unsigned char)s[p])) p++;
	if (p >= s.size()) return false;
	n = strtoul(s.c_str() + p, nullptr, 10); while (p < s.size() && isdigit((unsigned char)s[p])) p++;
	return true;
}
static std::string show(const std::vector<Frame> &f) { std::string r; for (auto &x : f) r += x.text; return r.empty() ? "(none)\n" : r; }
static std::string show(const Path &p) {
	std::string r;
	for (size_t i = p.size(); i-- > 0;) { const Step &s = p[i]; r += s.field ? "  field '" + s.key + "'" : mc::fmt("  entry %u", s.idx); if (s.placed) for (auto &q : s.pos) r += mc::fmt(" %d:%d", q.first + 1, q.second + 1); r += "\n"; }
	return r.empty() ? "(none)\n" : r;
}
static std::vector<Frame> backtrace(mc::Ctx &m, const std::vector<env::Msg> &msgs, const char *op, bool load) {
	std::vector<Frame> r; int found = 0; bool in = false;
	std::string head = std::string(op) + ": Backtrace";
	for (auto &x : msgs) {
		if (x.level != CYAML_LOG_ERROR) { in = false; continue; }
		if (x.text.compare(0, head.size(), head) == 0) { found++; in = true; continue; }
		if (!in) continue;
		Frame f; f.text = x.text;
		size_t p = x.text.find("in mapping field"), q = x.text.find("in sequence entry"), o = x.text.find("in mapping");
		size_t place = load ? x.text.rfind(" (line: ") : std::string::npos;
		if (load && place == std::string::npos) m.fail("backtrace line without a place: %s", x.text.c_str());
		if (p == 2) {
			f.kind = 0; std::string k = x.text.substr(18, (load ? place : x.text.size() - 1) - 18);
			if (load) { if (k.size() < 3 || k[0] != ' ' || k[1] != '\'' || k.back() != '\'') m.fail("backtrace line: %s", x.text.c_str()); f.key = k.substr(2, k.size() - 3); }
			else { if (k.compare(0, 2, ": ")) m.fail("backtrace line: %s", x.text.c_str()); f.key = k.substr(2); }
		} else if (q == 2) { f.kind = 2; size_t at = 19; if (!num_after(x.text, at, f.idx) || (load && at > place)) m.fail("backtrace line without an index: %s", x.text.c_str()); }
		else if (o == 2) f.kind = 1;
		else { in = false; continue; }
		if (load) { size_t at = place; if (!num_after(x.text, at, f.line) || !num_after(x.text, at, f.col)) m.fail("backtrace line without a place: %s", x.text.c_str()); f.placed = true; }
		r.push_back(f);
	}
	if (found > 1) m.fail("%d backtraces", found);
	return r;
}
static void match(mc::Ctx &m, const Frame &f, const Step &s, const std::vector<Frame> &all, const Path &p) {
	auto bad = [&](const char *w) { m.fail("backtrace has another %s:\n%sinnermost first, expected:\n%s", w, show(all).c_str(), show(p).c_str()); };
	if (s.field) { if (f.kind != 0) bad("kind of place"); if (f.key != s.key && f.key != s.alt) bad("key"); }
	else { if (f.kind != 2) bad("kind of place"); if (f.idx != s.idx) bad("index"); }
	if (f.placed && s.placed) { bool ok = false; for (auto &q : s.pos) if (f.line == (unsigned long)q.first + 1 && f.col == (unsigned long)q.second + 1) ok = true; if (!ok) bad("line or column"); }
}
/* own: the failing value is a collection, which may have a frame of its own: 1 mapping, 2 sequence. */
static void expect(mc::Ctx &m, const std::vector<Frame> &f, const Path &p, int own, const std::vector<std::string> &keys = {}) {
	if (m.tracing()) m.note("backtrace:\n%sexpected:\n%s", show(f).c_str(), show(p).c_str());
	size_t extra = f.size() > p.size() ? f.size() - p.size() : 0;
	if (f.size() < p.size() || extra > (own ? 1u : 0u)) m.fail("backtrace has %zu places:\n%sinnermost first, expected:\n%s", f.size(), show(f).c_str(), show(p).c_str());
	if (extra) {
		if (own == 1 && (f[0].kind == 2 || (f[0].kind == 0 && std::find(keys.begin(), keys.end(), f[0].key) == keys.end()))) m.fail("backtrace names the wrong place first:\n%s", show(f).c_str());
		if (own == 2 && f[0].kind != 2) m.fail("backtrace names the wrong place first:\n%s", show(f).c_str());
	}
	for (size_t i = 0; i < p.size(); i++) match(m, f[extra + i], p[p.size() - 1 - i], f, p);
	m.count("places compared", p.size());
}

/* ---- loads ---- */
struct Site { const T *t; Node *n; std::vector<size_t> at; };      /* at: indices of kids */
static void sites(const T &t, Node &n, unsigned cfg, std::vector<size_t> at, std::vector<Site> &out) {
	out.push_back({&t, &n, at});
	if (t.type == CYAML_MAPPING && n.k == Node::MAP) for (size_t i = 0; i + 1 < n.kids.size(); i += 2) for (auto &f : t.fields)
		if (name_eq(t, cfg, f.key, n.kids[i].s)) { auto a = at; a.push_back(i + 1); sites(*f.t, n.kids[i + 1], cfg, a, out); break; }
	if (t.is_seq() && n.k == Node::SEQ) for (size_t i = 0; i < n.kids.size(); i++) { auto a = at; a.push_back(i); sites(*t.entry, n.kids[i], cfg, a, out); }
}
/* Steps to a place of the document, with positions from an independent parse of the text. */
static Path path(mc::Ctx &m, const T &top, const Node &doc, const Node &parsed, const std::vector<size_t> &at, unsigned cfg) {
	Path r; const T *t = &top; const Node *n = &doc, *q = &parsed; bool placed = true;
	for (const size_t &i : at) {
		Step s; s.idx = 0; s.field = n->k == Node::MAP;
		if (placed && q->k == Node::ALIAS) placed = false;
		if (placed && (q->k != n->k || i >= q->kids.size())) m.fail("harness: parsed document differs from the generated one");
		if (s.field) { s.alt = n->kids[i - 1].s; const Field *g = nullptr; for (auto &f : t->fields) if (name_eq(*t, cfg, f.key, s.alt)) { g = &f; break; } s.key = g->key; t = g->t; }
		else { s.idx = (uint32_t)i + 1; t = t->entry; }
		if (placed) { if (s.field) s.pos.push_back({q->kids[i - 1].line, q->kids[i - 1].col}); s.pos.push_back({q->kids[i].line, q->kids[i].col}); }
		s.placed = placed;
		n = &n->kids[i]; if (placed) q = &q->kids[i];
		if (placed && q->k == Node::ALIAS) { placed = false; s.placed = q->s == "nowhere" && &i == &at.back(); }    /* what another alias stands for is elsewhere */
		r.push_back(s);
	}
	return r;
}
static std::vector<Frame> failing_load(mc::Ctx &m, gen::Case &c, int level = CYAML_LOG_ERROR) {
	env::Cfg cfg(c.cfg, level, true);
	env::LoadRes r = env::load(m, cfg, c.s, c.text);
	if (m.tracing()) { m.note("%s", c.show().c_str()); for (auto &x : cfg.log.msgs) if (x.level == CYAML_LOG_ERROR) m.note("%s", x.text.c_str()); }
	if (c.ref.unspecified) { if (r.data) env::release(m, cfg, c.s, r.data, r.count); m.prune(); }
	verdict(m, c.ref.errs, r.err, "load");
	m.outcome(c.text); m.outcome((uint64_t)r.err);
	return backtrace(m, cfg.log.msgs, "Load", true);
}
/* Plant one fault at a place. Returns false when it does not apply. */
struct Fault { std::vector<size_t> at; int own = 0; std::vector<std::string> keys; std::vector<size_t> near; };   /* near: the kids the fault is about, or none for the whole */
static bool plant(mc::Ctx &m, gen::Case &c, gen::Gen *g, Site &s, Fault &f, int cost) {
	const T &t = *s.t; Node &n = *s.n; f.at = s.at;
	bool map = t.type == CYAML_MAPPING && n.k == Node::MAP, seq = t.is_seq() && n.k == Node::SEQ;
	bool leaf = !(t.type == CYAML_MAPPING || t.is_seq());
	std::string anchor = n.anchor;
	switch (m.choose(9, cost)) {
	case 0: {                                          /* a text the type refuses, or the wrong kind */
		if (!leaf) { Node w = t.type == CYAML_MAPPING ? Node::seq() : Node::map(); if (t.type == CYAML_MAPPING) w.add(Node::sc("a")); else w.add("a", Node::sc("b")); n = w; break; }
		if (t.type == CYAML_IGNORE) return false;
		int p = 0; if (g) { auto it = g->prof.find(s.t); if (it != g->prof.end()) p = it->second; }
		const gen::Texts &x = gen::texts(t, p);
		if (x.bad.empty()) return false;
		n = x.bad[(size_t)m.choose((int)x.bad.size(), cost)];
		break; }
	case 1: n = leaf && t.type != CYAML_FLAGS ? (t.type == CYAML_BITFIELD ? Node::seq() : Node::map()) : Node::sc("w"); if (leaf && t.type == CYAML_IGNORE) return false; break;
	case 2: n = Node::alias("nowhere"); break;
	case 3: { if (!map) return false; size_t k = (size_t)m.choose((int)n.kids.size() / 2 + 1, cost) * 2; n.kids.insert(n.kids.begin() + (long)k, {Node::sc("stranger"), Node::sc("1")}); f.own = 1; f.near = {k, k + 1}; break; }
	case 8: { if (!map) return false; size_t k = (size_t)m.choose((int)n.kids.size() / 2 + 1, cost) * 2; n.kids.insert(n.kids.begin() + (long)k, {Node::alias("nowhere"), Node::sc("1")}); f.own = 1; f.near = {k}; break; }
	case 4: { if (!map || n.kids.empty()) return false; size_t k = (size_t)m.choose((int)n.kids.size() / 2, cost) * 2; Node a = n.kids[k], b = n.kids[k + 1]; n.kids.push_back(a); n.kids.push_back(b); f.own = 1; f.near = {k, k + 1, n.kids.size() - 2, n.kids.size() - 1}; f.keys.push_back(a.s); for (auto &q : t.fields) if (name_eq(t, c.cfg, q.key, a.s)) f.keys.push_back(q.key); break; }
	case 5: { if (!map || n.kids.empty()) return false; size_t k = (size_t)m.choose((int)n.kids.size() / 2, cost) * 2; for (auto &q : t.fields) if (name_eq(t, c.cfg, q.key, n.kids[k].s)) f.keys.push_back(q.key); n.kids.erase(n.kids.begin() + (long)k, n.kids.begin() + (long)k + 2); f.own = 1; break; }
	case 6: { if (!seq || n.kids.empty() || t.smax > 100) return false; while (n.kids.size() <= t.smax) n.kids.push_back(n.kids.back()); f.own = 2; break; }
	case 7: { if (!seq || t.smin == 0 || n.kids.size() < t.smin) return false; n.kids.resize(t.smin - 1); f.own = 2; break; }
	}
	if (n.anchor.empty()) n.anchor = anchor;
	return true;
}
static void check(mc::Ctx &m, gen::Case &c, const Fault &f) {
	c.text = gen::render_style(c.doc, c.style);
	c.ref = ref_load(*c.top, &c.doc, c.cfg);
	if (c.ref.ok() || c.ref.unspecified) m.prune();
	Parsed p = parse_yaml(c.text);
	if (!p.ok) m.fail("harness: rendered text does not parse:\n%s", c.text.c_str());
	std::vector<Frame> fr = failing_load(m, c);
	expect(m, fr, path(m, *c.top, c.doc, p.doc, f.at, c.cfg), f.own, f.keys);
	if (fr.size() != f.at.size() + 1 || !fr[0].placed) return;
	/* The collection's own place: where it starts, the key or value concerned, or, for a missing one, anywhere from the last to the end. */
	const Node *q = &p.doc;
	for (size_t i : f.at) { if (q->k == Node::ALIAS || i >= q->kids.size()) return; q = &q->kids[i]; }
	if (q->k == Node::ALIAS) return;
	auto is = [&](const Node &x) { return fr[0].line == (unsigned long)x.line + 1 && fr[0].col == (unsigned long)x.col + 1; };
	bool ok = is(*q);
	if (f.near.empty()) { for (auto &x : q->kids) ok |= is(x); const Node &l = q->kids.empty() ? *q : q->kids.back(); ok |= fr[0].line > (unsigned long)l.line + 1 || (fr[0].line == (unsigned long)l.line + 1 && fr[0].col > (unsigned long)l.col + 1); }
	else for (size_t i : f.near) if (i < q->kids.size()) ok |= is(q->kids[i]);
	if (!ok) m.fail("backtrace has another line or column for the collection itself:\n%s", show(fr).c_str());
	m.count("collections' own places compared");
}
static void loads(mc::Ctx &m, gen::Opt o, bool free_choice) {
	gen::Case c; gen::Gen g(m, c, o);
	c.top = g.schema(gen::Gen::TOP, 0);
	if (o.nodes - g.left < o.min_nodes) m.prune();
	g.inst = 0; c.doc = g.doc(*c.top);
	static const unsigned CF[] = {0, CYAML_CFG_CASE_INSENSITIVE, CYAML_CFG_NO_ALIAS};
	c.cfg = CF[m.choose(3)]; c.style = m.choose(gen::STYLES);
	c.s = lower(c.a, *c.top);
	if (c.ref = ref_load(*c.top, &c.doc, c.cfg), !c.ref.ok() || c.ref.unspecified) m.prune();
	std::vector<Site> s; sites(*c.top, c.doc, c.cfg, {}, s);
	int cost = free_choice ? 0 : 1;
	Site x = s[(size_t)m.choose((int)s.size(), cost)];
	Fault f; if (!plant(m, c, &g, x, f, cost)) m.prune();
	m.commit();
	check(m, c, f);
}
static void ladders(mc::Ctx &m) {
	int which = m.pick(3);
	gen::Case c; int at;
	if (which == 0) { int n = 1 + m.pick(m.thorough ? 70 : 34); gen::ladder_fields(c, n, m.pick(gen::FIELD_KINDS), 0); at = m.pick(n); }
	else if (which == 1) { int n = 1 + m.pick(m.thorough ? 60 : 34); gen::ladder_depth(c, n, m.pick(gen::DEPTH_KINDS)); at = m.pick(2); }
	else { static const int L[] = {1, 2, 3, 9, 10, 11, 15, 16, 17, 18, 33, 100, 257}; int n = L[m.pick(m.thorough ? 13 : 12)]; gen::ladder_seq(c, n, m.pick(gen::SEQ_KINDS), 0); int q = m.pick(3); at = q == 0 ? 0 : q == 1 ? n / 2 : n - 1; }
	c.style = m.pick(3); c.style = c.style == 2 ? 9 : c.style;
	m.commit();
	c.s = lower(c.a, *c.top);
	if (c.ref = ref_load(*c.top, &c.doc, 0), !c.ref.ok()) m.prune();
	std::vector<Site> s; sites(*c.top, c.doc, 0, {}, s);
	/* The at-th child of the top level, or the deepest place or its parent. */
	Site *x = nullptr;
	if (which == 1) { for (auto &q : s) if (!x || q.at.size() > x->at.size()) x = &q; if (at) { auto up = x->at; up.pop_back(); for (auto &q : s) if (q.at == up) x = &q; } }
	else {
		std::vector<size_t> top; for (auto &q : s) if (q.t == c.top || (q.t->is_seq() && q.at.size() == 1 && which == 2)) { top = q.at; if (which == 2 && q.t->is_seq()) break; }
		int k = 0; for (auto &q : s) if (q.at.size() == top.size() + 1 && std::equal(top.begin(), top.end(), q.at.begin())) { if (k++ == at) { x = &q; break; } }
	}
	if (!x) m.prune();
	Fault f; f.at = x->at;
	*x->n = Node::alias("nowhere");
	check(m, c, f);
}
static const size_t WHERE[] = {255, 256, 65535, 65536, 254, 257, 0, 1};      /* the last four in thorough runs */
static void load_scaled(mc::Ctx &m) {
	gen::Case c; int w = m.pick(m.thorough ? 9 : 5), kind = m.pick(2); if (!m.thorough && w == 4) w = 8; scale(m, c);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	std::vector<Site> s; sites(*c.top, c.doc, 0, {}, s);
	/* Counted among the places at the greatest depth, or among all of them from the end. */
	std::vector<Site *> deep; size_t d = 0;
	for (auto &q : s) d = std::max(d, q.at.size());
	for (auto &q : s) if (kind ? q.at.size() == d : q.at.size() == 1) deep.push_back(&q);
	size_t k = w == 8 ? deep.size() - 1 : WHERE[w];
	if (deep.empty() || k >= deep.size() || (kind && d == 1)) m.prune();
	Fault f; f.at = deep[k]->at;
	*deep[k]->n = Node::alias("nowhere");
	check(m, c, f);
}
/* With memory failing anywhere the places must still be a way into the document. */
static void load_oom(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	std::set<std::string> seen;
	for (long k = 0; k < 400; k++) {
		env::Cfg cfg(c.cfg, CYAML_LOG_ERROR, true); cfg.heap.fail_at = k;
		env::LoadRes r = env::load(m, cfg, c.s, c.text);
		if (!cfg.heap.failed) { if (r.data) env::release(m, cfg, c.s, r.data, r.count); break; }
		if (r.err != CYAML_ERR_OOM) m.fail("load gave %s when allocation %ld failed", env::ename(r.err), k);
		std::vector<Frame> f = backtrace(m, cfg.log.msgs, "Load", true);
		if (m.tracing()) m.note("allocation %ld fails:\n%s", k, show(f).c_str());
		Expanded e = expand(c.doc);
		const T *t = c.top; const Node *n = &e.doc;
		for (size_t i = f.size(); i-- > 0;) {
			const Frame &x = f[i];
			auto bad = [&]() { m.fail("backtrace is not a way into the document (allocation %ld failed):\n%s", k, show(f).c_str()); };
			if (x.kind == 1) { if (i || t->type != CYAML_MAPPING) bad(); break; }
			if (x.kind == 0) {
				if (t->type != CYAML_MAPPING) bad();
				const Field *g = nullptr; for (auto &q : t->fields) if (q.key == x.key) g = &q;
				if (!g) bad();
				const Node *v = nullptr; if (n && n->k == Node::MAP) for (size_t j = 0; j + 1 < n->kids.size(); j += 2) if (name_eq(*t, c.cfg, g->key, n->kids[j].s)) { v = &n->kids[j + 1]; break; }
				if (!v && i) bad();
				t = g->t; n = v;
			} else {
				if (!t->is_seq()) bad();
				if (n && n->k == Node::SEQ && x.idx > n->kids.size()) bad();
				if (x.idx == 0 && i) bad();
				t = t->entry; n = n && n->k == Node::SEQ && x.idx >= 1 ? &n->kids[x.idx - 1] : nullptr;
			}
		}
		std::string w; for (auto &x : f) w += x.kind == 0 ? "/" + x.key : x.kind == 1 ? "" : mc::fmt("[%lu]", x.idx);
		seen.insert(w);
	}
	m.count("places of failing allocations", seen.size());
}

/* ---- saves and copies ---- */
struct Vis { T *t; Val *v; Path p; bool entry; Field *f; };
static void visit(T &t, Val &v, const Path &p, std::vector<Vis> &out, Field *f = nullptr, bool entry = false) {
	if (t.type == CYAML_IGNORE) return;
	if (v.k == Val::ZERO && !t.ptr()) v = canon(t, v);
	out.push_back({&t, &v, p, entry, f});
	auto sub = [&](Step s) { Path q = p; q.push_back(s); return q; };
	if (v.k == Val::MAP) for (size_t i = 0; i < v.v.size(); i++) { Step s; s.field = true; s.key = s.alt = t.fields[i].key; s.idx = 0; s.placed = false; visit(*t.fields[i].t, v.v[i], sub(s), out, &t.fields[i]); }
	if (v.k == Val::SEQ) for (size_t i = 0; i < v.v.size(); i++) { Step s; s.field = false; s.idx = (uint32_t)i + 1; s.placed = false; visit(*t.entry, v.v[i], sub(s), out, nullptr, true); }
}
static bool start(mc::Ctx &m, gen::Case &c, gen::Opt &o, Val &v) {
	gen::Gen g(m, c, o);
	c.top = g.schema(gen::Gen::TOP, 0);
	if (o.nodes - g.left < o.min_nodes) m.prune();
	g.inst = 0; c.doc = g.doc(*c.top);
	gen::finish(m, c);
	if (!c.ref.ok() || c.ref.unspecified || c.ref.v.k == Val::NUL || c.ref.v.k == Val::ZERO) m.prune();
	if (c.top->type == CYAML_SEQUENCE && c.ref.v.v.empty()) m.prune();
	v = canon(*c.top, c.ref.v);
	return true;
}
static void saves(mc::Ctx &m, gen::Opt o) {
	gen::Case c; Val v; start(m, c, o, v);
	SaveRef ok = ref_save(*c.top, v, 0); if (ok.unspecified || !ok.ok()) m.prune();
	std::vector<Vis> at; visit(*c.top, v, {}, at);
	Vis x = at[(size_t)m.pick((int)at.size())];
	if (x.v->k == Val::NUL || x.v->k == Val::ZERO) m.prune();
	int own = 0; bool always = true;
	cyaml_schema_value_t *s = x.t->c;
	switch (m.pick(5)) {
	case 0: if (!x.t->ptr() || x.t->null_ok() || x.t->optional() || x.t->type == CYAML_SEQUENCE || x.p.empty()) m.prune(); *x.v = Val::nul(); always = false; break;
	case 1: if (x.t->type != CYAML_ENUM) m.prune(); x.t->flags |= CYAML_FLAG_STRICT; s->flags = (cyaml_flag_e)x.t->flags; *x.v = Val::num(77); always = false; break;
	case 2: { if (x.t->type != CYAML_FLAGS) m.prune(); x.t->flags |= CYAML_FLAG_STRICT; s->flags = (cyaml_flag_e)x.t->flags; uint64_t all = 0; for (auto &e : x.t->strs) all |= (uint64_t)e.second; uint64_t mask = x.t->size >= 8 ? ~0ull : (1ull << x.t->size * 8) - 1; *x.v = Val::num(mask & ~all); if (!(mask & ~all)) m.prune(); always = false; break; }
	case 3: if (x.t->is_seq()) m.prune(); s->type = (cyaml_type_e)100; break;
	case 4: if (x.t->type != CYAML_SEQUENCE_FIXED) m.prune(); s->sequence.min = x.t->smin + 1; break;
	}
	m.commit();
	if (m.tracing()) m.note("%s%s\n", describe(*c.top).c_str(), describe(v).c_str());
	/* A schema fault shows at the first value of that schema. */
	Path p = x.p;
	if (always) for (auto &y : at) if (y.t == x.t && y.v->k != Val::NUL && y.v->k != Val::ZERO) { p = y.p; break; }
	if (!always && ((x.t->type == CYAML_ENUM) || x.t->type == CYAML_FLAGS) && x.v->k == Val::NUM) { /* strictness may bite an earlier value of the same schema */
		for (auto &y : at) if (y.t == x.t && y.v->k == Val::NUM) { bool hit = false; if (x.t->type == CYAML_ENUM) { hit = true; for (auto &e : x.t->strs) if ((uint64_t)e.second == y.v->n) hit = false; uint64_t mask = x.t->size >= 8 ? ~0ull : (1ull << x.t->size * 8) - 1; for (auto &e : x.t->strs) if (((uint64_t)e.second & mask) == (y.v->n & mask)) hit = false; } else { uint64_t all = 0; for (auto &e : x.t->strs) all |= (uint64_t)e.second; uint64_t mask = x.t->size >= 8 ? ~0ull : (1ull << x.t->size * 8) - 1; hit = (y.v->n & mask & ~all) != 0; } if (hit) { p = y.p; break; } }
	}
	env::Cfg cfg(c.cfg, CYAML_LOG_ERROR, true);
	Src src = source(cfg, *c.top, v);
	env::SaveRes r = env::save(m, cfg, c.s, src.p, src.count);
	if (!r.err) m.prune();                                  /* what is refused is C14's concern */
	expect(m, backtrace(m, cfg.log.msgs, "Save", false), p, own);
	m.outcome((uint64_t)r.err); m.outcome(describe(v)); m.outcome(c.a.hash());
}
static void copies(mc::Ctx &m, gen::Opt o) {
	gen::Case c; Val v; start(m, c, o, v);
	m.commit();
	if (m.tracing()) m.note("%s%s\n", describe(*c.top).c_str(), describe(v).c_str());
	std::vector<Vis> at; visit(*c.top, v, {}, at);
	unsigned n = c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : c.top->type == CYAML_SEQUENCE ? (unsigned)v.v.size() : 0;
	auto key = [](const Path &p) { std::string r; for (auto &s : p) r += s.field ? "/" + s.key : mc::fmt("[%u]", s.idx); return r; };
	std::set<std::string> places, pointers, seen;
	for (auto &x : at) {
		places.insert(key(x.p));
		if (x.t->ptr() && x.v->k != Val::NUL && !(x.v->k == Val::SEQ && x.v->v.empty()) && x.t->size) pointers.insert(key(x.p));
	}
	for (long k = 0; k < 200; k++) {
		env::Cfg src(c.cfg); Src s = source(src, *c.top, v);
		env::Cfg cfg(c.cfg, CYAML_LOG_ERROR, true); cfg.heap.fail_at = k;
		env::CopyRes r = env::copy(m, cfg, c.s, s.p, n);
		if (!cfg.heap.failed) { if (!r.err) env::release(m, cfg, c.s, r.data, n); break; }
		if (r.err != CYAML_ERR_OOM) m.fail("copy gave %s when allocation %ld failed", env::ename(r.err), k);
		std::vector<Frame> f = backtrace(m, cfg.log.msgs, "Copy", false);
		std::string w; for (size_t i = f.size(); i-- > 0;) w += f[i].kind == 0 ? "/" + f[i].key : mc::fmt("[%lu]", f[i].idx);
		if (m.tracing()) m.note("allocation %ld fails:\n%s", k, show(f).c_str());
		if (w.size() >= 3 && !w.compare(w.size() - 3, 3, "[0]")) w.resize(w.size() - 3);      /* the array of a sequence itself */
		if (!places.count(w)) m.fail("backtrace is not the place of a value (allocation %ld failed):\n%s", k, show(f).c_str());
		seen.insert(w);
	}
	for (auto &p : pointers) if (!seen.count(p)) m.fail("no failing allocation is reported at %s, where one is made", p.empty() ? "the top level" : p.c_str());
	m.count("places of failing allocations", seen.size()); m.outcome((uint64_t)seen.size()); m.outcome(c.a.hash());
}
/* Schema faults, which save and copy both meet. */
static void copy_schema(mc::Ctx &m, gen::Opt o) {
	gen::Case c; Val v; start(m, c, o, v);
	std::vector<Vis> at; visit(*c.top, v, {}, at);
	Vis x = at[(size_t)m.pick((int)at.size())];
	if (x.v->k == Val::NUL || x.v->k == Val::ZERO || x.p.empty()) m.prune();
	bool null = m.pick(2);
	if (null) { if (!x.t->ptr() || x.t->type == CYAML_SEQUENCE) m.prune(); *x.v = Val::nul(); }
	else { if (x.t->is_seq()) m.prune(); x.t->c->type = (cyaml_type_e)100; }
	m.commit();
	if (m.tracing()) m.note("%s%s\n", describe(*c.top).c_str(), describe(v).c_str());
	Path p = x.p;
	if (!null) for (auto &y : at) if (y.t == x.t && y.v->k != Val::NUL && y.v->k != Val::ZERO) { p = y.p; break; }
	unsigned n = c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : c.top->type == CYAML_SEQUENCE ? (unsigned)v.v.size() : 0;
	env::Cfg src(c.cfg); Src s = source(src, *c.top, v);
	env::Cfg cfg(c.cfg, CYAML_LOG_ERROR, true);
	env::CopyRes r = env::copy(m, cfg, c.s, s.p, n);
	if (!r.err) m.prune();
	expect(m, backtrace(m, cfg.log.msgs, "Copy", false), p, 0);
	m.outcome((uint64_t)r.err); m.outcome(show(p));
}
/* Saves and copies of large data with one value that neither can take. */
static void unsaveable_scaled(mc::Ctx &m) {
	gen::Case c; int w = m.pick(m.thorough ? 9 : 5); if (!m.thorough && w == 4) w = 8; bool copying = m.pick(2); scale(m, c);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	Val v = canon(*c.top, c.ref.v);
	std::vector<Vis> at; visit(*c.top, v, {}, at);
	std::vector<Vis *> ok;
	for (auto &x : at) if (x.v->k != Val::NUL && x.v->k != Val::ZERO && !x.p.empty() && ((x.t->ptr() && !x.t->optional() && x.t->type != CYAML_SEQUENCE) || !(x.t->is_seq() || (x.entry && at.size() > 600)))) ok.push_back(&x);
	size_t k = w == 8 ? ok.size() - 1 : WHERE[w];
	if (ok.empty() || k >= ok.size()) m.prune();
	Vis &x = *ok[k]; Path p = x.p;
	if (x.t->ptr() && !x.t->optional() && x.t->type != CYAML_SEQUENCE) *x.v = Val::nul();
	else { x.t->c->type = (cyaml_type_e)100; for (auto &y : at) if (y.t == x.t && y.v->k != Val::NUL && y.v->k != Val::ZERO) { p = y.p; break; } }
	unsigned n = c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : c.top->type == CYAML_SEQUENCE ? (unsigned)v.v.size() : 0;
	env::Cfg src(c.cfg); Src s = source(src, *c.top, v);
	env::Cfg cfg(c.cfg, CYAML_LOG_ERROR, true); cyaml_err_t e;
	if (copying) e = env::copy(m, cfg, c.s, s.p, n).err; else e = env::save(m, cfg, c.s, s.p, s.count).err;
	if (!e) m.prune();
	expect(m, backtrace(m, cfg.log.msgs, copying ? "Copy" : "Save", false), p, 0);
	m.outcome((uint64_t)e); m.outcome(show(p)); m.outcome(c.a.hash());
}
static void build(std::vector<mc::Family> &f, bool th) {
	{ gen::Opt o; o.nodes = 3; o.min_nodes = 2; o.vary_cfg = false; o.vary_text = false; o.vary_layout = false; o.vary_default = false;
	  f.push_back({"one fault", "every schema tree of 2..3 nodes with a document x every place x every fault that applies (every bad text of the type, wrong kind, unknown alias, unknown, unknown alias, repeated or missing key at every position, too many or few entries); 11 presentation styles, configurations and other choices within the bound", [o](mc::Ctx &m) { loads(m, o, true); }, 1, 2}); }
	{ gen::Opt o; o.nodes = th ? 5 : 4; o.min_nodes = 4; o.vary_cfg = false; o.vary_text = false; o.vary_layout = false; o.vary_default = false; o.vary_ind = false; o.vary_names = false; o.vary_limits = false;
	  f.push_back({"deeper", "schema trees of 4 (5) nodes, places, faults and other choices within the bound", [o](mc::Ctx &m) { loads(m, o, false); }, 3, 3}); }
	f.push_back({"ladders", "a fault at every field of mappings of 1..34 (70) fields, at the bottom of nests of depth 1..34 (60) of 6 kinds, at first, middle and last of sequences of up to 100 (257) entries of 9 kinds, 3 presentations", ladders, 0, 0});
	f.push_back({"scale: loads", std::string(SCALE) + ", an unknown alias at the 256th, 257th, 65536th, 65537th or last (and 1st, 2nd, 255th, 258th) child of the top level or deepest place", load_scaled, 0, 0});
	f.push_back({"scale: saves and copies", std::string(SCALE) + ", an unsaveable value at such places", unsaveable_scaled, 0, 0});
	{ gen::Opt o; o.nodes = 4; o.min_nodes = 2; o.vary_layout = false; o.vary_names = false; o.vary_order = false;
	  f.push_back({"load without memory", "each allocation of loads over trees of 2..4 nodes failing", [o](mc::Ctx &m) { load_oom(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = th ? 4 : 3; o.vary_cfg = false; o.vary_style = false; o.vary_layout = false; o.vary_names = false; o.vary_order = false; o.vary_default = false; o.no_empty_top = true;
	  f.push_back({"saves", "every unsaveable value or schema fault at every place of the data of trees of up to 3 (4) nodes", [o](mc::Ctx &m) { saves(m, o); }, 2, 2});
	  f.push_back({"copies without memory", "each allocation of copies of the data of trees of up to 3 (4) nodes failing: every pointer value is named once", [o](mc::Ctx &m) { copies(m, o); }, 2, 2});
	  f.push_back({"copies that fail", "a schema fault or a NULL at every place", [o](mc::Ctx &m) { copy_schema(m, o); }, 2, 2}); }
}
const mc::Prop mc::PROP = {"C23", "A case is a failing load, save or copy with one fault at a known place; the backtrace at error level is compared with the way to that place, and its lines and columns with an independent parse of the text.", build};
