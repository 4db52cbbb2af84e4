// LIB: tsan
// WITH: tsan_rt.cpp
#include "../common.hpp"
#include "../tsan.hpp"
#include "../world.hpp"
#include <unistd.h>
#include <algorithm>
using namespace md;
using namespace com;
using namespace world;

/* ---- tasks ---- */
enum { LOAD, SAVE, COPY, FREE, LOADF, SAVEF, TEXTS };
struct Def { int kind, k, d; };
static const Def DEFS[] = {
	{LOAD,0,0}, {LOAD,0,2}, {SAVE,0,0}, {COPY,0,0}, {FREE,0,0}, {LOAD,0,4}, {SAVE,2,0}, {LOAD,1,0}, {SAVEF,0,0}, {LOADF,0,0}, {LOAD,0,10}, {LOAD,0,5}, {LOAD,2,0}, {LOAD,0,7}, {LOAD,0,1}, {LOAD,0,6}, {SAVE,1,0}, {SAVE,0,1}, {COPY,1,0}, {TEXTS,0,0}, {LOAD,0,3},
};
static const int NDEF = (int)(sizeof DEFS / sizeof *DEFS);
static const char *const KN[] = {"load", "save", "copy", "free", "load file", "save file", "strerror"};

extern std::function<void()> *g_validate;
static bool cb(void *, const cyaml_schema_value_t *, uint64_t) { env::OutLib o; ts::point(ts::P_CALLBACK); if (g_validate) (*g_validate)(); return true; }
/* The shared schemas, with a validation callback everywhere. */
static World &V() {
	static World *w = nullptr;
	if (!w) {
		w = new World();
		std::function<void(T &)> hook = [&](T &t) { if (t.type != CYAML_BOOL && t.type != CYAML_IGNORE) t.cb = (void *)(bool (*)(void *, const cyaml_schema_value_t *, uint64_t))cb; for (auto &f : t.fields) hook(*f.t); if (t.entry) hook(*t.entry); };
		for (int k = 0; k < World::N; k++) { hook(*w->s[k]); lower(w->a, *w->s[k]); }
		w->schema_hash = w->a.hash();
	}
	return *w;
}
static const int NCFG = 3;
struct Shared {                     /* one configuration, used by all tasks */
	env::Cfg cfg; env::Track tr;
	Shared(int c) : cfg(V().flags[c], c == 1 ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR, c != 0), tr(cfg) {
		cfg.log.keep = false;
		cfg.heap.on_call = [](env::Heap &) { ts::point(ts::P_CALLBACK); };
		cfg.log.on_call = [](env::Logger &) { ts::point(ts::P_CALLBACK); };
	}
};
struct Task {
	Def def; int c, id; uint8_t *in = nullptr; unsigned n = 0; std::string path;
	/* results */
	int err = -1; cyaml_data_t *data = nullptr; unsigned count = 0; char *text = nullptr; size_t len = 0; std::string all, log;
	const T &t() const { return *V().s[def.k]; }
	void prepare(mc::Ctx &m, env::Cfg &cfg) {
		World &w = V();
		const Ref r = def.kind == TEXTS ? Ref() : w.get(m, def.k, def.d, c).ref;
		if (def.kind == SAVE || def.kind == SAVEF || def.kind == COPY || def.kind == FREE) { Src s = source(cfg, t(), r.v); in = (uint8_t *)s.p; n = s.count; }
		path = mc::scratch(mc::fmt("task%d.yaml", id).c_str());
		if (def.kind == LOADF) { FILE *f = fopen(path.c_str(), "wb"); fwrite(w.text[def.k][(size_t)def.d].data(), 1, w.text[def.k][(size_t)def.d].size(), f); fclose(f); }
		if (def.kind == SAVEF) unlink(path.c_str());
	}
	void run(const cyaml_config_t *k) {
		World &w = V(); const cyaml_schema_value_t *s = t().c; const std::string &tx = w.text[def.k][(size_t)def.d];
		bool seq = t().type == CYAML_SEQUENCE;
		env::InLib il;
		switch (def.kind) {
		case LOAD: err = cyaml_load_data((const uint8_t *)tx.data(), tx.size(), k, s, &data, seq ? &count : nullptr); break;
		case LOADF: err = cyaml_load_file(path.c_str(), k, s, &data, seq ? &count : nullptr); break;
		case SAVE: err = cyaml_save_data(&text, &len, k, s, in, seq ? n : 0); break;
		case SAVEF: err = cyaml_save_file(path.c_str(), k, s, in, seq ? n : 0); break;
		case COPY: err = cyaml_copy(k, s, in, t().type == CYAML_SEQUENCE_FIXED ? t().smax : n, &data); break;
		case FREE: err = cyaml_free(k, s, in, n); break;
		case TEXTS: err = 0; for (int i = -1; i <= CYAML_ERR__COUNT; i++) { const char *x = cyaml_strerror((cyaml_err_t)i); env::OutLib o; ts::point(ts::P_CALLBACK); if (g_validate) (*g_validate)(); all += x; all += '\n'; } break;
		}
	}
	/* Compare with the result alone; leave nothing. */
	void verify(mc::Ctx &m, env::Cfg &cfg, const std::string *texts) {
		World &w = V();
		auto what = [&] { return mc::fmt("task %d (%s)", id, KN[def.kind]); };
		if (def.kind == TEXTS) { if (texts && all != *texts) m.fail("%s: other messages", what().c_str()); return; }
		const World::Ld &x = w.get(m, def.k, def.d, c);
		int want = def.kind == LOAD || def.kind == LOADF ? x.code : def.kind == SAVE || def.kind == SAVEF ? x.save_code : CYAML_OK;
		if (err != want) m.fail("%s gives %s, alone %s", what().c_str(), env::ename(err), env::ename(want));
		if (def.kind == LOAD || def.kind == LOADF || def.kind == COPY) {
			if (err) { if (data) m.fail("%s failed but set its output", what().c_str()); }
			else { Reader rd(m, cfg.heap, what().c_str()); rd.exact_zero = def.kind != COPY; Val got = rd.top(t(), data, def.kind == COPY ? n : count); same(m, t(), x.ref.v, got, what().c_str()); }
		}
		if (def.kind == SAVE && !err) { std::string got(text, len); if (got != x.saved) m.fail("%s gives\n%s\nalone\n%s", what().c_str(), env::quote(got).c_str(), env::quote(x.saved).c_str()); env::Heap::fn(&cfg.heap, text, 0); }
		if (def.kind == SAVEF && !err) { std::string got; FILE *f = fopen(path.c_str(), "rb"); int ch; while (f && (ch = fgetc(f)) != EOF) got += (char)ch; if (f) fclose(f); if (got != x.saved) m.fail("%s: file differs from the text saved alone", what().c_str()); }
		if (def.kind == LOAD || def.kind == LOADF || def.kind == COPY) if (!err && data) env::release(m, cfg, t().c, data, def.kind == COPY ? n : count);
		if (in && def.kind != FREE) { Reader rd(m, cfg.heap, "source"); rd.exact_zero = false; Val got = rd.top(t(), in, n); same(m, t(), x.ref.v, got, "source"); env::release(m, cfg, t().c, in, n); }
	}
};
/* What a call logs alone. */
static std::map<int, std::string> &logs() { static std::map<int, std::string> l; return l; }
static void same_log(mc::Ctx &m, const Task &t, int d) {
	auto it = logs().find(d * 10 + t.c); if (it == logs().end()) return;
	if (t.log == it->second) return;
	m.fail("task %d (%s) logs\n%s\nalone it logs\n%s", t.id, KN[t.def.kind], t.log.c_str(), it->second.c_str());
}
static bool usable(mc::Ctx &m, int i, int c) { const Def &d = DEFS[i]; return d.kind == TEXTS || d.kind == LOAD || d.kind == LOADF || V().get(m, d.k, d.d, c).code == 0; }
static const std::string &messages() { static std::string s; if (s.empty()) for (int i = -1; i <= CYAML_ERR__COUNT; i++) { s += cyaml_strerror((cyaml_err_t)i); s += '\n'; } return s; }

/* Run tasks under a schedule and verify everything. */
static ts::Result together(mc::Ctx &m, const std::vector<int> &defs, int c, const ts::Schedule &sc) {
	World &w = V();
	Shared sh(c);
	for (int d : defs) if (DEFS[d].kind != TEXTS) w.get(m, DEFS[d].k, DEFS[d].d, c);
	auto on = sh.cfg.heap.on_call; sh.cfg.heap.on_call = nullptr;
	std::vector<Task> ts_(defs.size());
	for (size_t i = 0; i < defs.size(); i++) { ts_[i].def = DEFS[defs[i]]; ts_[i].c = c; ts_[i].id = (int)i; ts_[i].prepare(m, sh.cfg); }
	sh.cfg.heap.on_call = on;
	env::reset_statics();
	cyaml_config_t before = sh.cfg.c; long l0 = env::libc_live, f0 = env::files_open;
	std::vector<std::function<void()>> fs; for (auto &t : ts_) fs.push_back([&t, &sh] { t.run(&sh.cfg.c); });
	sh.cfg.log.sink = [&ts_]() -> std::string * { int i = ts::self(); return i < 0 ? nullptr : &ts_[(size_t)i].log; };
	ts::Result r = ts::run(m.worker, sc, fs);
	sh.cfg.log.sink = nullptr;
	sh.cfg.heap.on_call = nullptr; sh.cfg.log.on_call = nullptr;
	if (!r.race.empty()) m.fail("%s", r.race.c_str());
	env::check_env(m, sh.cfg, "concurrent calls");
	if (memcmp(&before, &sh.cfg.c, sizeof before)) m.fail("the shared configuration changed");
	if (w.a.hash() != w.schema_hash) m.fail("a shared schema changed");
	if (env::libc_live != l0) m.fail("%ld C library block(s) leaked", env::libc_live - l0);
	if (env::files_open != f0) m.fail("files left open");
	if (defs.size() == 1) logs().emplace(defs[0] * 10 + c, ts_[0].log);
	for (size_t i = 0; i < defs.size(); i++) { same_log(m, ts_[i], defs[i]); m.count("bytes of log compared", ts_[i].log.size()); }
	for (auto &t : ts_) t.verify(m, sh.cfg, &messages());
	if (sh.cfg.heap.live()) m.fail("%zu block(s) left", sh.cfg.heap.live());
	m.count("scheduling points passed", (uint64_t)r.steps); m.count("memory accesses checked", (uint64_t)r.accesses); m.count("accesses to memory used by another task", (uint64_t)r.shared);
	return r;
}
/* Points of a task alone. */
static long alone(mc::Ctx &m, int d, int c, int points) {
	static std::map<int, long> memo; int key = d * 100 + c * 10 + points;
	auto it = memo.find(key); if (it != memo.end()) return it->second;
	ts::Schedule s; s.points = points; ts::Result r = together(m, {d}, c, s);
	return memo[key] = r.steps;
}
static void schedules(mc::Ctx &m, int ntask, int ndef, int cfgs, int points, int bound) {
	int c = m.pick(cfgs);
	std::vector<int> ds; long total = 0;
	for (int i = 0; i < ntask; i++) {
		int lo = i ? ds.back() : 0; int d = lo + m.pick(ndef - lo);
		if (!usable(m, d, c)) m.prune();
		ds.push_back(d); total += alone(m, d, c, points);
	}
	ts::Schedule s; s.points = points; s.first = m.pick(ntask);
	int nb = m.pick(bound + 1); long from = 0;
	for (int i = 0; i < nb; i++) {
		if (total - from <= 0) m.prune();
		long room = i ? total : alone(m, ds[(size_t)s.first], c, points);
		if (room - from <= 0) m.prune();
		long at = from + m.pick((int)(room - from)); int to = ntask > 2 ? m.pick(ntask - 1) : 0;
		s.pre.push_back({at, to}); from = at + 1;
	}
	m.commit();
	if (m.tracing()) { m.note("configuration %d, first task %d", c, s.first); for (int d : ds) m.note(", %s of schema %d document %d", KN[DEFS[d].kind], DEFS[d].k, DEFS[d].d); for (auto &p : s.pre) m.note(", switch at point %ld (to %d)", p.at, p.to); m.note("\n"); }
	ts::Result r = together(m, ds, c, s);
	if (r.taken < nb) { m.count("schedules equal to one with fewer switches"); }
	for (int d : ds) m.outcome((uint64_t)d);
	m.outcome((uint64_t)c); m.outcome((uint64_t)s.first); for (auto &p : s.pre) m.outcome((uint64_t)p.at * 4 + (uint64_t)p.to);
}
/* A whole call inside the n-th callback of another, possibly with a third inside that. */
static void nested(mc::Ctx &m, int ndef, int depth) {
	int c = m.pick(depth > 2 && !m.thorough ? 1 : NCFG), a = m.pick(ndef);
	std::vector<int> ds{a};
	if (!usable(m, a, c)) m.prune();
	std::vector<long> at;
	for (int i = 1; i < depth; i++) { int b = m.pick(ndef); if (!usable(m, b, c)) m.prune(); ds.push_back(b); }
	for (int i = 0; i + 1 < depth; i++) { long n = alone(m, ds[(size_t)i], c, ts::P_CALLBACK); if (n <= 0) m.prune(); at.push_back(m.pick((int)n)); }
	for (int d : ds) alone(m, d, c, ts::P_CALLBACK);
	m.commit();
	if (m.tracing()) for (size_t i = 0; i < ds.size(); i++) { m.note("%s%s of schema %d document %d", i ? ", inside its callback: " : "", KN[DEFS[ds[i]].kind], DEFS[ds[i]].k, DEFS[ds[i]].d); if (i < at.size()) m.note(" (callback %ld)", at[i]); }
	World &w = V();
	for (int d : ds) if (DEFS[d].kind != TEXTS) w.get(m, DEFS[d].k, DEFS[d].d, c);
	Shared sh(c); sh.cfg.heap.on_call = nullptr; sh.cfg.log.on_call = nullptr;
	std::vector<Task> t(ds.size());
	for (size_t i = 0; i < ds.size(); i++) { t[i].def = DEFS[ds[i]]; t[i].c = c; t[i].id = (int)i; t[i].prepare(m, sh.cfg); }
	env::reset_statics();
	size_t level = 0; long seen[4] = {0, 0, 0, 0};
	std::function<void()> hit = [&] {
		size_t l = level;
		if (l >= at.size()) return;
		if (seen[l]++ != at[l]) return;
		level = l + 1; t[level].run(&sh.cfg.c); env::in_lib = 0; level = l;
	};
	static std::function<void()> *cur; cur = &hit;
	sh.cfg.heap.on_call = [](env::Heap &) { (*cur)(); };
	sh.cfg.log.on_call = [](env::Logger &) { (*cur)(); };
	g_validate = &hit;
	sh.cfg.log.sink = [&]() -> std::string * { return &t[level].log; };
	long l0 = env::libc_live, f0 = env::files_open;
	t[0].run(&sh.cfg.c);
	g_validate = nullptr; sh.cfg.log.sink = nullptr; sh.cfg.heap.on_call = nullptr; sh.cfg.log.on_call = nullptr;
	env::check_env(m, sh.cfg, "nested calls");
	if (w.a.hash() != w.schema_hash) m.fail("a shared schema changed");
	if (env::libc_live != l0) m.fail("%ld C library block(s) leaked", env::libc_live - l0);
	if (env::files_open != f0) m.fail("files left open");
	for (size_t i = 0; i < t.size(); i++) { if (t[i].err == -1) m.fail("harness: callback %ld was not reached", at[i - 1]); same_log(m, t[i], ds[i]); m.count("bytes of log compared", t[i].log.size()); t[i].verify(m, sh.cfg, &messages()); }
	if (sh.cfg.heap.live()) m.fail("%zu block(s) left", sh.cfg.heap.live());
	for (int d : ds) m.outcome((uint64_t)d);
	for (long x : at) m.outcome((uint64_t)x);
	m.outcome((uint64_t)c); m.count("nested calls", t.size() - 1);
}
std::function<void()> *g_validate;
static void build(std::vector<mc::Family> &f, bool th) {
	int CB = ts::P_CALLBACK | ts::P_STATIC, EN = CB | ts::P_ENTRY;
	f.push_back({"callbacks", mc::fmt("every pair of %d calls (3 configurations) as two threads, every schedule of up to 1 preemption at any callback or access to static library data", NDEF), [CB](mc::Ctx &m) { schedules(m, 2, NDEF, NCFG, CB, 1); }, 0, 0});
	f.push_back({"two preemptions", mc::fmt("every pair of %d calls as two threads, every schedule of up to 2 preemptions at any callback or access to static library data", th ? NDEF : 10), [CB, th](mc::Ctx &m) { schedules(m, 2, th ? NDEF : 10, 1, CB, 2); }, 0, 0});
	f.push_back({"function entries", mc::fmt("every pair of %d calls as two threads, one preemption at any entry to any library function", NDEF), [EN](mc::Ctx &m) { schedules(m, 2, NDEF, 1, EN, 1); }, 0, 0});
	f.push_back({"three threads", mc::fmt("every triple of %d calls as three threads, every schedule of up to %d preemption(s)", th ? 12 : 7, th ? 2 : 1), [CB, th](mc::Ctx &m) { schedules(m, 3, th ? 12 : 7, 1, CB, th ? 2 : 1); }, 0, 0});
	f.push_back({"nested", mc::fmt("every one of %d calls made inside every callback of every other (3 configurations)", NDEF), [](mc::Ctx &m) { nested(m, NDEF, 2); }, 0, 0});
	f.push_back({"nested twice", mc::fmt("every triple of %d calls, each inside every callback of the one before", th ? 8 : 7), [th](mc::Ctx &m) { nested(m, th ? 8 : 7, 3); }, 0, 0});
	if (th) f.push_back({"three preemptions", "every pair of 4 calls as two threads, every schedule of up to 3 preemptions", [CB](mc::Ctx &m) { schedules(m, 2, 4, 1, CB, 3); }, 0, 0});
}
const mc::Prop mc::PROP = {"C21", "A case is two or three calls and a schedule (or the callback in which a call is made inside another); the library is compiled with thread instrumentation, threads run one at a time and switch only where the schedule says. A violation is a pair of conflicting unsynchronised accesses or any result that differs from the call's result alone.", build};
