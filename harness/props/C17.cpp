// LEVEL: fault_enumeration
#include "../common.hpp"
#include <algorithm>
using namespace md;
using namespace com;

/* mode 0: only request k fails; 1: request k and all later ones; 2: k and k+1; 3: every request but the first k... is 1.  The
 * harness makes one clean run first to learn how many requests there are. */
static void arm(env::Heap &h, int mode, long k) { h.reset_faults(); if (mode == 0) h.fail_at = k; else h.fail_from = k; }

enum { LOAD, SAVE, COPY, SAVEFILE, OPS };
/* One operation on data d with a heap of its own; result code. */
static int run(mc::Ctx &m, gen::Case &c, env::Cfg &cfg, int op, const void *data, unsigned count, const std::string &text) {
	switch (op) {
	case LOAD: {
		env::LoadRes r = env::load(m, cfg, c.s, text);
		if (r.err == CYAML_OK) {
			if (cfg.heap.failed) m.fail("load succeeded although a memory request failed");
			check_loaded(m, cfg.heap, *c.top, c.ref.v, r.data, r.count, "load", 0);
			cfg.heap.fail_from = cfg.heap.requests;          /* cyaml_free needs no memory */
			if (r.data) env::release(m, cfg, c.s, r.data, r.count);
			cfg.heap.fail_from = -1;
			if (cfg.heap.live()) m.fail("%zu block(s) left", cfg.heap.live());
		}
		return r.err; }
	case SAVE: { env::SaveRes r = env::save(m, cfg, c.s, data, c.top->type == CYAML_SEQUENCE ? count : 0);
		if (r.err == CYAML_OK && cfg.heap.failed) m.fail("save succeeded although a memory request failed");
		return r.err; }
	case SAVEFILE: { std::string p = mc::scratch("out.yaml"); int e = env::save_file(m, cfg, p.c_str(), c.s, data, c.top->type == CYAML_SEQUENCE ? count : 0); if (!e && cfg.heap.failed) m.fail("save to file succeeded although a memory request failed"); return e; }
	default: {
		env::CopyRes r = env::copy(m, cfg, c.s, data, c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : count);
		if (r.err == CYAML_OK) {
			if (cfg.heap.failed) m.fail("copy succeeded although a memory request failed");
			Reader rd(m, cfg.heap, "copy"); rd.exact_zero = false;
			Val got = rd.top(*c.top, r.data, count); rd.finish(0); same(m, *c.top, c.ref.v, got, "copy");
			cfg.heap.fail_from = cfg.heap.requests;
			if (r.data) env::release(m, cfg, c.s, r.data, count);
			cfg.heap.fail_from = -1;
			if (cfg.heap.live()) m.fail("%zu block(s) left", cfg.heap.live());
		}
		return r.err; }
	}
}
static void faults(mc::Ctx &m, gen::Case &c, int op, int mode, const std::string &text, bool log, bool few = false) {
	Val v = c.ref.v;
	bool conforms = c.ref.ok();
	if (op != LOAD && (!conforms || v.k == Val::NUL || v.k == Val::ZERO || (c.top->is_seq() && v.v.empty()))) m.prune();
	env::Cfg src(c.cfg);
	Src s; s.p = nullptr; s.count = 0;
	if (op != LOAD) s = dirty_source(src, *c.top, v, 0xA5);
	uint64_t h0 = src.heap.content_hash();
	int clean; long n;
	{ env::Cfg cfg(c.cfg); clean = run(m, c, cfg, op, s.p, s.count, text); n = cfg.heap.requests; }
	if (op == LOAD && conforms && clean) m.fail("load failed: %s", env::ename(clean));
	/* With all faulty positions of this operation in one execution; each is counted. */
	long k = 0;
	if (few && n < 40) few = false;
	for (;; k++) {
		/* few: only the first and last requests, those around powers of two, and one that is not made. */
		if (few) { static const long AT[] = {0, 1, 127, 128, 255, 256, 257, 511, 512, 513, 65535, 65536, 65537}; long q = n; for (long a : AT) if (a >= k && a < q && (n < 5000 || a == 256 || a == 65536)) q = a; for (long a = n - (n < 5000 ? 4 : 1); a < n; a++) if (a >= k && a < q) q = a; if (n < 5000) for (long a = n / 2; a < n / 2 + 3; a++) if (a >= k && a < q) q = a; k = q; }
		env::Cfg cfg(c.cfg, log ? CYAML_LOG_DEBUG : CYAML_LOG_WARNING, log); cfg.log.keep = false;
		arm(cfg.heap, mode, k);
		if (m.tracing()) m.note("request %ld %s\n", k, mode ? "and all later ones fail" : "fails");
		int e = run(m, c, cfg, op, s.p, s.count, text);
		if (!cfg.heap.failed) { if (e != clean) m.fail("no request failed, yet %s instead of %s", env::ename(e), env::ename(clean)); if (k < n) m.fail("request %ld of %ld was not made", k, n); break; }
		if (e != CYAML_ERR_OOM) m.fail("request %ld failed: %s instead of OOM", k, env::ename(e));
		if (src.heap.content_hash() != h0) m.fail("source changed");
		/* The same configuration works once there is memory. */
		m.count("failing requests");
		if (few && k % 256) continue;
		cfg.heap.reset_faults();
		e = run(m, c, cfg, op, s.p, s.count, text);
		if (e != clean) m.fail("after request %ld had failed, the same call gave %s instead of %s", k, env::ename(e), env::ename(clean));
		if (k > 10000000) m.fail("harness: endless");
	}
	m.outcome(c.a.hash()); m.outcome(text); m.outcome((uint64_t)k); m.outcome((uint64_t)clean); m.outcome((uint64_t)op);
}
static void walk(Node &n, std::vector<Node *> &out) { out.push_back(&n); for (auto &k : n.kids) walk(k, out); }
static void shapes(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	int op = m.pick(3), mode = m.pick(2), log = m.pick(2);
	if (log && mode) m.prune();
	faults(m, c, op, mode, c.text, log);
}
static void anchors(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	int mode = m.pick(2), how = m.pick(4);
	std::vector<Node *> ns; walk(c.doc, ns);
	size_t i = (size_t)m.pick((int)ns.size()), k = (size_t)m.pick((int)ns.size());
	ns[i]->anchor = "a";
	if (how == 1) for (size_t q = 0; q < ns.size(); q++) ns[q]->anchor = mc::fmt("n%zu", q);
	if (how == 2) { if (k <= i) m.prune(); *ns[k] = Node::alias("a"); }
	if (how == 3) { *ns[k] = Node::alias("nowhere"); }
	std::string text = render(c.doc);
	Parsed p = parse_yaml(text); if (!p.ok) m.fail("harness: text does not parse");
	c.ref = ref_load(*c.top, &p.doc, c.cfg);
	if (c.ref.unspecified) m.prune();
	faults(m, c, LOAD, mode, text, false);
}
static void invalid(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (c.ref.ok() || c.ref.unspecified) m.prune();
	faults(m, c, LOAD, m.pick(2), c.text, false);
}
static void leaves(mc::Ctx &m) {
	static const unsigned IND[] = {0, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR};
	int p = m.pick(gen::profiles()), ind = m.pick(4), pos = m.pick(PLACES), op = m.pick(OPS), mode = m.pick(2), dflt = m.pick(2);
	if (dflt && pos != 1 && pos != 2 && pos != 6) m.prune();
	m.commit();
	gen::Case c; T *t = gen::leaf(c.a, p); t->flags |= IND[ind];
	const gen::Texts &x = gen::texts(*t, p);
	place(c, t, x.good[(size_t)m.pick((int)std::min<size_t>(x.good.size(), 3))], x.good[0], pos);
	c.cfg = CYAML_CFG_DOCUMENT_DELIM;
	if (dflt) {
		t->flags |= CYAML_FLAG_OPTIONAL;
		if (t->type == CYAML_STRING) { t->has_smiss = true; t->smiss = "dflt"; } else if (t->type == CYAML_MAPPING) { t->has_miss = true; t->miss = Val::map(); } else m.prune();
		Node *q = c.top->type == CYAML_MAPPING ? &c.doc : &c.doc.kids[1];
		for (size_t i = 0; i < q->kids.size(); i += 2) if (q->kids[i].s == "value" || q->kids[i].s == "v") { q->kids.erase(q->kids.begin() + (long)i, q->kids.begin() + (long)i + 2); break; }
	}
	gen::finish(m, c);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	faults(m, c, op, mode, c.text, false);
}
static void ladders(mc::Ctx &m) {
	static const int N[] = {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 129};
	int kind = m.pick(4), i = m.pick(m.thorough ? 13 : 12), k = m.pick(gen::SEQ_KINDS), form = m.pick(gen::SEQ_FORMS), op = m.pick(OPS), mode = m.pick(2);
	if (kind && form) m.prune();
	if (kind == 1 && (k >= gen::DEPTH_KINDS || N[i] > 33)) m.prune();
	if (kind == 2 && k >= gen::FIELD_KINDS) m.prune();
	if (kind == 3 && k >= gen::STRING_FORMS) m.prune();
	if (!m.thorough && N[i] > 17 && mode && form) m.prune();
	m.commit();
	gen::Case c;
	if (kind == 0) gen::ladder_seq(c, N[i], k, form); else if (kind == 1) gen::ladder_depth(c, N[i], k); else if (kind == 2) gen::ladder_fields(c, N[i], k, 2); else gen::ladder_string(c, (size_t)N[i] * 600, k);
	gen::finish(m, c);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	faults(m, c, op, mode, c.text, false);
}
/* libyaml runs out of memory: an error, no leak, and the next call works. */
static void library(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	int op = m.pick(OPS);
	Val v = c.ref.v;
	if (op != LOAD && (v.k == Val::NUL || v.k == Val::ZERO || (c.top->is_seq() && v.v.empty()))) m.prune();
	env::Cfg src(c.cfg); Src s; s.p = nullptr; s.count = 0;
	if (op != LOAD) s = dirty_source(src, *c.top, v, 0xA5);
	int clean; { env::Cfg cfg(c.cfg); clean = run(m, c, cfg, op, s.p, s.count, c.text); }
	long k;
	for (k = 0;; k++) {
		env::Cfg cfg(c.cfg);
		env::libc_requests = 0; env::libc_fail_at = k;
		if (m.tracing()) m.note("C library request %ld fails\n", k);
		struct Off { ~Off() { env::libc_fail_at = -1; } } off;
		int e = run(m, c, cfg, op, s.p, s.count, c.text);
		bool hit = env::libc_requests > k;
		if (!hit) break;
		if (e == CYAML_OK) m.fail("succeeded although C library request %ld failed", k);
		if (k > 100000) m.fail("harness: endless");
		m.count("failing C library requests");
		env::libc_fail_at = -1;
		e = run(m, c, cfg, op, s.p, s.count, c.text);
		if (e != clean) m.fail("after C library request %ld had failed, the same call gave %s instead of %s", k, env::ename(e), env::ename(clean));
	}
	m.outcome(c.a.hash()); m.outcome(c.text); m.outcome((uint64_t)k); m.outcome((uint64_t)op);
}
static void scaled(mc::Ctx &m) {
	int op = m.pick(m.thorough ? OPS : 3), mode = m.pick(2); gen::Case c; scale(m, c);
	if (!m.thorough && mode && c.ref.done.size() > 20000) m.prune();
	if (!c.ref.ok() || c.ref.unspecified) m.prune();
	faults(m, c, op, mode, c.text, false, true);
}
static void build(std::vector<mc::Family> &f, bool th) {
	{ gen::Opt o; o.nodes = 4; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = o.vary_text = false;
	  f.push_back({"shapes", "load, save and copy of every generated case of up to 4 schema nodes within the bound, with every single memory request failing and with every suffix of requests failing, each followed by the same call with memory", [o](mc::Ctx &m) { shapes(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = th ? 6 : 5; o.min_nodes = 5; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = o.vary_text = o.vary_leaf = o.vary_layout = o.vary_ind = o.vary_limits = false; o.all_optional = o.default_defaults = true;
	  f.push_back({"defaults", "every schema tree of 5 (5..6) nodes with every field optional with a default, within the bound of present fields", [o](mc::Ctx &m) { shapes(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = 4; o.min_nodes = 2; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = o.vary_text = o.vary_leaf = o.vary_layout = o.vary_limits = o.vary_ind = false;
	  f.push_back({"anchors", "documents of every schema tree of 2..4 nodes with every node anchored, or any node, and any other an alias", [o](mc::Ctx &m) { anchors(m, o); }, 0, 1}); }
	{ gen::Opt o; o.nodes = 3; o.invalid = true; o.vary_style = o.vary_names = o.vary_leaf = o.vary_layout = false;
	  f.push_back({"invalid documents", "documents with a violation, with failing requests before it", [o](mc::Ctx &m) { invalid(m, o); }, 2, 2}); }
	{ gen::Opt o; o.nodes = 3; o.vary_style = o.vary_order = o.vary_names = o.vary_cfg = o.vary_text = o.vary_ind = false;
	  f.push_back({"C library", "load, save, save to file and copy with every single request of libyaml for memory failing", [o](mc::Ctx &m) { library(m, o); }, 1, 2}); }
	f.push_back({"leaves", "every kind of leaf value, indirection and place, loaded, saved to memory and file, and copied", leaves, 0, 0});
	f.push_back({"scale", std::string(SCALE) + ": the first and last requests and those around 128, 256, 512, 65536 and the middle fail", scaled, 0, 0});
	f.push_back({"ladders", "sequences, mappings, depths and strings past the growth thresholds", ladders, 0, 0});
}
const mc::Prop mc::PROP = {"C17", "A case is an operation on data and the number of the memory request that fails (alone or with all later ones); every such number of every operation is run, and a violation is any result but OOM with everything as before, or a later call that differs from the usual.", build};
