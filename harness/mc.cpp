#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <stdlib.h>
#include <algorithm>
#include <map>
#include <exception>

namespace mc {

static const size_t MAXC = 8192;
static const size_t MSG = 96 * 1024;
static const int MAXW = 16;
static const int MAXF = 128;
static const int NCOUNT = 24;

struct Rec { uint32_t n; uint8_t cost[MAXC]; uint32_t c[MAXC]; uint32_t a[MAXC]; };
struct FamStat { uint64_t execs, edges, abandoned, maxdepth; uint64_t done; uint64_t capped; };
struct Slot {
	volatile double start;         /* start of running execution, 0 if none */
	volatile int fam;
	volatile int finished;
	volatile int has_viol;
	Rec cur;
	char msg[MSG];
	char sample[MAXF][2048];
	FamStat st[MAXF];
	char cname[NCOUNT][48];
	uint64_t cval[NCOUNT];
	uint64_t states;
};
static Slot *slots;
static Slot *me;
static std::vector<Family> fams;
static bool g_thorough;
static double t0, g_deadline;
static std::string g_dir;           /* scratch directory */
std::string scratch(const char *name) { return g_dir + fmt("/p%d-%s", (int)getpid(), name); }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string vfmt(const char *f, va_list ap) {
	char b[512]; va_list a2; va_copy(a2, ap);
	int n = vsnprintf(b, sizeof b, f, ap);
	if (n < (int)sizeof b) { va_end(a2); return std::string(b, n < 0 ? 0 : n); }
	std::string s(n + 1, 0); vsnprintf(&s[0], n + 1, f, a2); va_end(a2); s.resize(n); return s;
}
std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

void Ctx::fail(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Violation{s}; }
void Ctx::note(const char *f, ...) { if (!trace) return; va_list ap; va_start(ap, f); text += vfmt(f, ap); va_end(ap); }
void Ctx::outcome(const void *p, size_t n) { outcome(hash(p, n)); }
void Ctx::count(const char *what, uint64_t n) {
	if (!me) return;
	for (int i = 0; i < NCOUNT; i++) {
		if (!me->cname[i][0]) snprintf(me->cname[i], 48, "%s", what);
		if (!strncmp(me->cname[i], what, 47)) { me->cval[i] += n; return; }
	}
}

void Ctx::decide() {
	decided = true;
	if (solo || workers <= 1) return;
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < pos; i++) { h ^= (*stack)[i].c + 1; h *= 1099511628211ull; h ^= h >> 31; }
	h *= 0x9E3779B97F4A7C15ull; h ^= h >> 33;
	if ((int)(h % (uint64_t)workers) != worker) throw Abandon();
}
void Ctx::commit() { if (!decided) decide(); }

int Ctx::choose(int n, int cost) {
	if (n <= 0) fail("harness: choose(%d)", n);
	if (pos >= MAXC) fail("harness: too many choice points");
	/* Points that cannot deviate any more are not branched at all. */
	if (pos < stack->size()) {
		Choice &ch = (*stack)[pos];
		if (solo && ch.n == 0) {
			if (ch.c >= (uint32_t)n) throw Abandon();
			ch.n = (uint32_t)n; ch.cost = (uint8_t)cost;
		}
		if (ch.n != (uint32_t)n || ch.cost != (uint8_t)cost) {
			diverged = true;
			fail("replay diverged at choice %zu: arity %u/%d (the environment is not deterministic)", pos, ch.n, n);
		}
	} else {
		stack->push_back(Choice{0, (uint32_t)n, (uint8_t)cost});
	}
	uint32_t c = (*stack)[pos].c;
	if (me) { me->cur.c[pos] = c; me->cur.a[pos] = (uint32_t)n; me->cur.cost[pos] = (uint8_t)cost; me->cur.n = (uint32_t)pos + 1; }
	pos++;
	if (c && cost) {
		cost_used += cost;
		if (!decided && split == 0) decide();
	}
	if (!decided && split > 0 && (int)pos >= split) decide();
	return (int)c;
}

/* Next choice vector in depth-first order, within the bound. */
static bool advance(std::vector<Choice> &s, int bound) {
	std::vector<int> pre(s.size() + 1, 0);
	for (size_t i = 0; i < s.size(); i++) pre[i + 1] = pre[i] + (s[i].c ? s[i].cost : 0);
	while (!s.empty()) {
		Choice &c = s.back();
		int before = pre[s.size() - 1];
		if (c.c + 1 < c.n && before + c.cost <= bound) { c.c++; return true; }
		s.pop_back();
	}
	return false;
}

static int bound_of(const Family &f, int pass) { return (pass == 0) ? f.dq : f.dt; }

/* Distinct outcome hashes: open addressing. */
struct HashSet {
	std::vector<uint64_t> t; size_t n = 0;
	HashSet() : t(1 << 12, 0) {}
	void add(uint64_t h) {
		if (!h) h = 1;
		if (n > (size_t)24 << 20) return;
		if (n * 10 > t.size() * 6) { std::vector<uint64_t> o(t.size() * 2, 0); o.swap(t); n = 0; for (uint64_t v : o) if (v) ins(v); }
		ins(h);
	}
	void ins(uint64_t h) { size_t i = h & (t.size() - 1); while (t[i]) { if (t[i] == h) return; i = (i + 1) & (t.size() - 1); } t[i] = h; n++; }
};
static HashSet *g_states;

enum { RUN_OK, RUN_ABANDON, RUN_VIOL };

/* Before each execution (set by the environment). */
void (*reset_hook)();
static void reset() { if (reset_hook) reset_hook(); }

static int run_one(const Family &f, int bound, std::vector<Choice> &s, Ctx &c, std::string &msg) {
	c.stack = &s; c.bound = bound; c.thorough = g_thorough; c.split = f.split;
	if (me) { me->cur.n = 0; me->start = now(); }
	int r = RUN_OK;
	reset();
	try {
		f.body(c);
		if (!c.decided) c.decide();
		if (!c.solo && c.pos < s.size()) { c.fail("replay diverged: fewer choices than recorded (the environment is not deterministic)"); }
	} catch (Abandon &) { r = RUN_ABANDON; s.resize(c.pos); }
	catch (Violation &v) { r = RUN_VIOL; msg = v.msg; s.resize(std::min(s.size(), std::max(c.pos, (size_t)0))); }
	catch (std::exception &e) { r = RUN_VIOL; msg = std::string("harness exception: ") + e.what(); }
	if (me) me->start = 0;
	return r;
}

static void store_viol(const std::string &msg, const std::string &text) {
	std::string m = msg + "\n" + text;
	snprintf(me->msg, MSG, "%s", m.c_str());
	me->has_viol = 1;
}

/* Body of a worker process. */
static void worker_main(int w, int nw, int pass, int from_fam, const std::vector<Choice> *from, double deadline) {
	me = &slots[w];
	g_states = new HashSet();
	for (int fi = from_fam; fi < (int)fams.size(); fi++) {
		Family &f = fams[fi];
		me->fam = fi;
		int bound = bound_of(f, pass);
		FamStat &st = me->st[fi];
		std::vector<Choice> s;
		if (fi == from_fam && from) {
			s = *from;
			if (!advance(s, bound)) continue;
		}
		bool capped = false;
		std::vector<Choice> last;
		uint64_t k = 0;
		do {
			Ctx c;
			c.worker = w; c.workers = nw;
			bool want = (st.execs == 0 || st.execs == 499) && me->sample[fi][0] == 0;
			if (st.execs == 499 && w == 1) { me->sample[fi][0] = 0; want = true; }
			c.trace = want;
			std::string msg;
			int r = run_one(f, bound, s, c, msg);
			if (r == RUN_ABANDON) st.abandoned++;
			else {
				size_t common = 0;
				while (common < last.size() && common < s.size() && last[common].c == s[common].c) common++;
				st.edges += s.size() - common;
				last = s;
				st.execs++;
				if (s.size() > st.maxdepth) st.maxdepth = s.size();
				g_states->add(c.out ^ ((uint64_t)fi << 56));
				if (want && r == RUN_OK) snprintf(me->sample[fi], sizeof me->sample[fi], "%s", c.text.c_str());
			}
			if (r == RUN_VIOL) {
				store_viol(msg, c.text);
				fflush(stdout);
				_exit(3);
			}
			if ((++k & 15) == 0 && now() > deadline) { capped = true; st.capped = 1; break; }
		} while (advance(s, bound));
		if (!capped) st.done = 1;
		if (capped) {
			for (int j = fi + 1; j < (int)fams.size(); j++) me->st[j].capped = 1;
			break;
		}
	}
	/* Distinct outcomes go to the master through a scratch file. */
	std::string p = g_dir + fmt("/states.%d.%d", w, (int)getpid());
	if (FILE *o = fopen(p.c_str(), "wb")) {
		for (uint64_t v : g_states->t) if (v) fwrite(&v, 8, 1, o);
		fclose(o);
	}
	me->finished = 1;
	_exit(0);
}

/* Run a single leaf in a fresh process.  Returns 0 ok, 1 violation/crash, 2 timeout; fills the account. */
static int run_leaf(int fi, const std::vector<uint32_t> &ch, double limit, std::string &account, bool &crash) {
	Slot *sl = &slots[MAXW - 1];
	memset((void *)sl, 0, offsetof(Slot, sample));
	std::string errf = g_dir + "/leaf.err";
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) {
		int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
		me = sl;
		Ctx c; c.solo = true; c.trace = true;
		std::vector<Choice> s;
		/* Arity is unknown here: filled while running. */
		for (uint32_t v : ch) s.push_back(Choice{v, 0, 0});
		std::string msg;
		const Family &f = fams[fi];
		c.stack = &s; c.bound = 1 << 20; c.thorough = g_thorough; c.split = 0;
		int r = RUN_OK;
		reset();
		try { f.body(c); } catch (Abandon &) { r = RUN_ABANDON; } catch (Violation &v) { r = RUN_VIOL; msg = v.msg; }
		catch (std::exception &e) { r = RUN_VIOL; msg = std::string("harness exception: ") + e.what(); }
		std::string m = (r == RUN_VIOL ? msg + "\n" : std::string()) + c.text;
		snprintf(sl->msg, MSG, "%s", m.c_str());
		sl->has_viol = (r == RUN_VIOL);
		sl->finished = 1;
		fflush(stdout);
		_exit(r == RUN_VIOL ? 3 : 0);
	}
	double end = now() + limit;
	int status = 0;
	bool timeout = false;
	for (;;) {
		pid_t q = waitpid(p, &status, WNOHANG);
		if (q == p) break;
		if (now() > end) { kill(p, SIGKILL); waitpid(p, &status, 0); timeout = true; break; }
		usleep(1000);
	}
	crash = false;
	account.clear();
	if (timeout) { account = fmt("no result within %.0f s (hang)\n%s", limit, sl->msg); return 2; }
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { account = sl->msg; return 0; }
	if (sl->has_viol && sl->finished) { account = sl->msg; return 1; }
	crash = true;
	account = WIFSIGNALED(status) ? fmt("process ended by signal %d", WTERMSIG(status)) : fmt("process ended with status %d", WEXITSTATUS(status));
	account += "\n";
	if (FILE *e = fopen(errf.c_str(), "r")) {
		char b[12000]; size_t n = fread(b, 1, sizeof b, e); fclose(e);
		account.append(b, n);
	}
	return 1;
}

static std::string json(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
		else o += (char)c;
	}
	return o + "\"";
}

static std::vector<uint32_t> trim(std::vector<uint32_t> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; }

static void shrink(int fi, std::vector<uint32_t> &ch, std::string &account) {
	double end = now() + 20;
	bool again = true;
	int tries = 0;
	ch = trim(ch);
	while (again && tries < 300 && now() < end) {
		again = false;
		for (size_t i = ch.size(); i-- > 0 && tries < 300 && now() < end;) {
			if (!ch[i]) continue;
			std::vector<uint32_t> t = ch; t[i] = 0; t = trim(t);
			std::string a; bool cr; tries++;
			if (run_leaf(fi, t, 20, a, cr) == 1 && a.find("harness") == std::string::npos && a.find("diverged") == std::string::npos) {
				ch = t; account = a; again = true; if (i > ch.size()) i = ch.size();
			}
		}
	}
}

static std::string write_replay(const char *dir, const char *kind, int fi, const std::vector<uint32_t> &ch, const std::string &account, int w, int pass) {
	std::string path = fmt("%s/%s.replay", dir, PROP.id);
	if (FILE *o = fopen(path.c_str(), "w")) {
		fprintf(o, "property %s\nkind %s\nfamily %s\ntier %s\nworker %d\npass %d\nchoices %zu", PROP.id, kind,
			fams[fi].name.c_str(), g_thorough ? "thorough" : "quick", w, pass, ch.size());
		for (uint32_t c : ch) fprintf(o, " %u", c);
		fprintf(o, "\n--- account\n%s\n", account.c_str());
		fclose(o);
	}
	return path;
}

struct Worker { pid_t pid; int pass; };

static int nworkers() { long n = sysconf(_SC_NPROCESSORS_ONLN); if (n < 1) n = 1; return (int)std::min<long>(n, 8); }

static pid_t spawn(int w, int nw, int pass, int fam, const std::vector<Choice> *from, double deadline) {
	slots[w].finished = 0; slots[w].has_viol = 0; slots[w].start = 0;
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) {
		int fd = open((g_dir + fmt("/w%d.err", w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
		worker_main(w, nw, pass, fam, from, deadline);
	}
	return p;
}

/* Re-run a worker's whole partition of one family from its start to see whether it fails again. */
static bool confirm_history(int w, int nw, int pass, double limit, std::string &account) {
	slots[w].fam = 0;
	pid_t p = spawn(w, nw, pass, 0, nullptr, now() + limit);
	double end = now() + limit + 30;
	int status;
	for (;;) {
		pid_t q = waitpid(p, &status, WNOHANG);
		if (q == p) break;
		if (now() > end) { kill(p, SIGKILL); waitpid(p, &status, 0); return false; }
		usleep(5000);
	}
	if (slots[w].finished) return false;
	account = slots[w].has_viol ? std::string(slots[w].msg) : std::string("crash\n");
	if (!slots[w].has_viol) {
		if (FILE *e = fopen((g_dir + fmt("/w%d.err", w)).c_str(), "r")) { char b[8000]; size_t n = fread(b, 1, sizeof b, e); fclose(e); account.append(b, n); }
	}
	return true;
}

static int replay_file(const char *path) {
	FILE *f = fopen(path, "r");
	if (!f) { perror(path); return 2; }
	char line[1 << 16], fam[256] = ""; std::vector<uint32_t> ch;
	while (fgets(line, sizeof line, f)) {
		if (!strncmp(line, "family ", 7)) { snprintf(fam, sizeof fam, "%s", line + 7); fam[strcspn(fam, "\n")] = 0; }
		else if (!strncmp(line, "choices ", 8)) {
			char *p = line + 8; strtoul(p, &p, 10);
			for (;;) { char *e; unsigned long v = strtoul(p, &e, 10); if (e == p) break; ch.push_back((uint32_t)v); p = e; }
		} else if (!strncmp(line, "---", 3)) break;
	}
	fclose(f);
	for (size_t i = 0; i < fams.size(); i++) if (fams[i].name == fam) {
		std::string a; bool cr;
		int r = run_leaf((int)i, ch, 120, a, cr);
		printf("replay: %s\n%s\n", r ? "FAILS" : "passes", a.c_str());
		return r ? 1 : 0;
	}
	fprintf(stderr, "no family %s\n", fam);
	return 2;
}

int main_(int argc, char **argv) {
	t0 = now();
	const char *tier = argc > 1 ? argv[1] : "quick";
	const char *evidence = argc > 2 ? argv[2] : "/dev/null";
	const char *replays = argc > 3 ? argv[3] : ".";
	g_dir = argc > 4 ? argv[4] : "/tmp";
	g_thorough = !strcmp(tier, "thorough");
	const char *rp = getenv("MC_REPLAY");
	const char *only = getenv("MC_FAMILY");
	double spent = getenv("MC_SPENT") ? atof(getenv("MC_SPENT")) : 0;
	slots = (Slot *)mmap(nullptr, sizeof(Slot) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (slots == MAP_FAILED) { perror("mmap"); return 2; }
	PROP.build(fams, g_thorough);
	if (only) { std::vector<Family> k; for (auto &f : fams) if (f.name.find(only) != std::string::npos) k.push_back(f); fams = k; }
	if (fams.empty() || fams.size() > (size_t)MAXF) { fprintf(stderr, "bad families\n"); return 2; }
	if (rp) return replay_file(rp);
	if (getenv("MC_DT")) for (auto &f : fams) f.dt = f.dq = atoi(getenv("MC_DT"));
	g_deadline = t0 + (g_thorough ? 700 : 420) - spent;
	if (getenv("MC_CAP")) g_deadline = t0 + atof(getenv("MC_CAP"));
	int nw = nworkers();
	if (getenv("MC_W")) nw = atoi(getenv("MC_W"));

	bool deeper = false;
	for (auto &f : fams) if (f.dt > f.dq) deeper = true;
	int passes = (g_thorough && deeper) ? 2 : 1;
	int completed_pass = -1;
	std::string account, kind;
	std::vector<uint32_t> vch;
	int vfam = -1, vworker = 0, vpass = 0, unconfirmed = 0;
	std::vector<std::vector<FamStat>> passst;
	std::vector<std::string> fsamples(fams.size());

	for (int pass = 0; pass < passes && vfam < 0; pass++) {
		std::vector<pid_t> pid(nw, 0);
		for (int w = 0; w < nw; w++) {
			memset((void *)slots[w].st, 0, sizeof slots[w].st);
			pid[w] = spawn(w, nw, pass, 0, nullptr, g_deadline);
		}
		int live = nw;
		while (live > 0 && vfam < 0) {
			int status; pid_t q = waitpid(-1, &status, WNOHANG);
			int w = -1; bool hang = false;
			if (q > 0) {
				for (int i = 0; i < nw; i++) if (pid[i] == q) w = i;
				if (w < 0) continue;
				if (slots[w].finished) { live--; pid[w] = 0; continue; }
			} else {
				double t = now();
				for (int i = 0; i < nw; i++) {
					double st = slots[i].start;
					if (!pid[i] || st == 0 || t - st <= 50) continue;
					kill(pid[i], SIGKILL); waitpid(pid[i], &status, 0); w = i; hang = true; break;
				}
				if (w < 0) { usleep(2000); continue; }
			}
			/* Worker w stopped on a violation, crash or hang: confirm it. */
			pid[w] = 0;
			int fi = slots[w].fam;
			std::vector<Choice> pos;
			std::vector<uint32_t> ch;
			for (uint32_t i = 0; i < slots[w].cur.n && i < MAXC; i++) {
				ch.push_back(slots[w].cur.c[i]);
				pos.push_back(Choice{slots[w].cur.c[i], slots[w].cur.a[i], slots[w].cur.cost[i]});
			}
			std::string first = slots[w].has_viol ? slots[w].msg : "";
			std::string a1, a2; bool c1, c2;
			int r1 = run_leaf(fi, ch, hang ? 120 : 60, a1, c1);
			int r2 = r1 ? run_leaf(fi, ch, hang ? 120 : 60, a2, c2) : 0;
			if (r1 && r2) {
				vfam = fi; vworker = w; vpass = pass; vch = ch; account = a2;
				kind = r2 == 2 ? "hang" : c2 ? "crash" : "violation";
				break;
			}
			/* Not reproducible alone: does it depend on what ran before? */
			double elapsed = now() - t0;
			std::string ah;
			for (int i = 0; i < nw; i++) if (pid[i]) kill(pid[i], SIGSTOP);
			bool again = !hang && confirm_history(w, nw, pass, std::min(150.0, elapsed * 2 + 20), ah);
			if (again && slots[w].fam == fi) {
				vfam = fi; vworker = w; vpass = pass; vch = ch; kind = "history";
				account = "fails only after the executions that precede it in this worker's order\n" + ah + "\nfirst seen: " + first;
				break;
			}
			for (int i = 0; i < nw; i++) if (pid[i]) kill(pid[i], SIGCONT);
			unconfirmed++;
			fprintf(stderr, "note: unconfirmed failure in %s: %s\n", fams[fi].name.c_str(), first.c_str());
			if (getenv("MC_VERBOSE")) {
				fprintf(stderr, "status 0x%x hang %d choices:", status, (int)hang); for (uint32_t v : ch) fprintf(stderr, " %u", v);
				fprintf(stderr, "\n"); if (system(("head -c 3000 " + g_dir + fmt("/w%d.err", w) + " >&2").c_str())) {}
			}
			if (unconfirmed > 20) { live = 0; break; }
			pid[w] = spawn(w, nw, pass, fi, &pos, g_deadline);
		}
		for (int i = 0; i < nw; i++) if (pid[i]) { kill(pid[i], SIGKILL); kill(pid[i], SIGCONT); waitpid(pid[i], nullptr, 0); }
		/* Collect. */
		std::vector<FamStat> sum(fams.size());
		bool complete = vfam < 0;
		for (size_t f = 0; f < fams.size(); f++) {
			FamStat s = {0, 0, 0, 0, 1, 0};
			for (int w = 0; w < nw; w++) {
				FamStat &x = slots[w].st[f];
				s.execs += x.execs; s.edges += x.edges; s.abandoned += x.abandoned;
				s.maxdepth = std::max(s.maxdepth, x.maxdepth); s.done &= x.done; s.capped |= x.capped;
				if (fsamples[f].empty() && slots[w].sample[f][0]) fsamples[f] = slots[w].sample[f];
			}
			if (!s.done) complete = false;
			sum[f] = s;
		}
		passst.push_back(sum);
		if (complete) completed_pass = pass;
	}

	std::string rpath;
	if (vfam >= 0) {
		if (kind == "violation") shrink(vfam, vch, account);
		rpath = write_replay(replays, kind.c_str(), vfam, vch, account, vworker, vpass);
	}

	/* Merge distinct outcome hashes. */
	uint64_t states = 0;
	{
		std::vector<uint64_t> all;
		FILE *ls = popen(("ls " + g_dir + "/states.* 2>/dev/null").c_str(), "r");
		char p[1024];
		while (ls && fgets(p, sizeof p, ls)) {
			p[strcspn(p, "\n")] = 0;
			if (FILE *f = fopen(p, "rb")) {
				uint64_t b[4096]; size_t n;
				while ((n = fread(b, 8, 4096, f)) > 0) all.insert(all.end(), b, b + n);
				fclose(f);
			}
			unlink(p);
		}
		if (ls) pclose(ls);
		std::sort(all.begin(), all.end());
		states = (uint64_t)(std::unique(all.begin(), all.end()) - all.begin());
	}
	uint64_t execs = 0, edges = 0;
	std::string fj, sj;
	int last = (int)passst.size() - 1;
	for (size_t f = 0; f < fams.size(); f++) {
		FamStat &s = passst[last][f];
		execs += s.execs; edges += s.edges;
		fj += fmt("%s{\"family\":%s,\"bounds\":%s,\"deviation_bound\":%d,\"executions\":%llu,\"transitions\":%llu,\"longest\":%llu,\"complete\":%s}",
			f ? "," : "", json(fams[f].name).c_str(), json(fams[f].bounds).c_str(), bound_of(fams[f], last),
			(unsigned long long)s.execs, (unsigned long long)s.edges, (unsigned long long)s.maxdepth, s.done ? "true" : "false");
		if (!fsamples[f].empty()) { if (!sj.empty()) sj += ","; sj += json(fams[f].name + ": " + fsamples[f].substr(0, 1500)); }
	}
	std::map<std::string, uint64_t> cnt;
	for (int w = 0; w < nw; w++) for (int i = 0; i < NCOUNT; i++) if (slots[w].cname[i][0]) cnt[slots[w].cname[i]] += slots[w].cval[i];
	std::string cj;
	for (auto &k : cnt) cj += fmt(",%s:%llu", json(k.first).c_str(), (unsigned long long)k.second);
	bool exhaustive = completed_pass == passes - 1 && unconfirmed == 0;
	const char *level = getenv("MC_LEVEL"); if (!level) level = "model_checking";
	const char *seed = getenv("VERIF_SEED");
	if (FILE *o = fopen(evidence, "w")) {
		bool mcl = !strcmp(level, "model_checking");
		fprintf(o, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"%s\",\"wall_s\":%.2f,\"violations\":%d,\n \"coverage\":{",
			PROP.id, g_thorough ? "thorough" : "quick", seed ? atoi(seed) : 0, level, now() - t0 + spent, vfam >= 0 ? 1 : 0);
		if (mcl) fprintf(o, "\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\n", (unsigned long long)states, (unsigned long long)edges, (unsigned long long)execs);
		else fprintf(o, "\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"rule\":%s,\n", (unsigned long long)execs, (unsigned long long)states, json(PROP.rule).c_str());
		fprintf(o, "  \"exhaustive\":%s,\"completed_pass\":%d,\"unconfirmed\":%d%s,\n  \"families\":[%s],\n  \"samples\":[%s]},\n"
			" \"assumptions\":[%s]}\n", exhaustive ? "true" : "false", completed_pass, unconfirmed, cj.c_str(), fj.c_str(), sj.empty() ? "\"none\"" : sj.c_str(),
			json(std::string("States are distinct (case, observed outcome) pairs; transitions are edges of the tree of choices; every execution runs the real library built from /repo's working tree. ") + PROP.rule).c_str());
		fclose(o);
	}
	printf("%s %s: %llu executions, %llu transitions, %llu distinct outcomes, %zu families, %s, %.1f s\n", PROP.id, tier,
		(unsigned long long)execs, (unsigned long long)edges, (unsigned long long)states, fams.size(),
		exhaustive ? "complete within bounds" : "NOT complete", now() - t0);
	if (getenv("MC_VERBOSE")) for (size_t f = 0; f < fams.size(); f++)
		printf("  %-28s %9llu execs %10llu edges %s %s\n", fams[f].name.c_str(), (unsigned long long)passst[last][f].execs, (unsigned long long)passst[last][f].edges,
			passst[last][f].done ? "" : "INCOMPLETE", fams[f].bounds.c_str());
	if (getenv("MC_VERBOSE")) for (auto &k : cnt) printf("  count %s = %llu\n", k.first.c_str(), (unsigned long long)k.second);
	if (vfam >= 0) {
		printf("%s\n", account.substr(0, 3000).c_str());
		printf("VIOLATION property=%s replay=%s\n", PROP.id, rpath.c_str());
		return 1;
	}
	return 0;
}

} // namespace mc

int main(int argc, char **argv) { return mc::main_(argc, argv); }
