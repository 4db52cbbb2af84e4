/* Stateless, exhaustive, deviation-bounded explorer.
 *
 * A family's body is a deterministic program that calls choose(); the explorer runs it for every sequence
 * of choices whose total cost (1 per non-zero choice of a costed point, 0 at free points) is within the
 * family's deviation bound.  Nothing is sampled.
 */
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace mc {

struct Abandon {};
struct Violation { std::string msg; };

struct Choice { uint32_t c; uint32_t n; uint8_t cost; };

struct Ctx {
	/* Choice points. */
	int choose(int n, int cost = 1);          /* 0 is the default; others cost */
	int pick(int n) { return choose(n, 0); }  /* free (structural) choice */
	bool flip() { return choose(2) != 0; }
	template <class T> T among(std::initializer_list<T> l, int cost = 1) {
		return *(l.begin() + choose((int)l.size(), cost));
	}
	[[noreturn]] void prune() { throw Abandon(); }
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	/* Readable account of this execution (kept only when tracing). */
	bool tracing() const { return trace; }
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	/* Observed outcome, for counting distinct states. */
	void outcome(uint64_t h) { out = out * 0x9E3779B97F4A7C15ull + h + 0x632BE59BD9B4E019ull; }
	void outcome(const void *p, size_t n);
	void outcome(const std::string &s) { outcome(s.data(), s.size()); }
	/* Called by the harness once the case is built: not past here unless this worker owns it. */
	void commit();
	void count(const char *what, uint64_t n = 1);   /* extra evidence counters */

	int used() const { return cost_used; }
	bool thorough = false;

	/* internals */
	std::vector<Choice> *stack = nullptr;
	size_t pos = 0;
	int cost_used = 0, bound = 0, worker = 0, workers = 1, split = 0;
	bool decided = false, trace = false, solo = false, diverged = false;
	uint64_t out = 0;
	std::string text;
	void decide();
};

struct Family {
	std::string name;
	std::string bounds;           /* what is enumerated, for the evidence */
	std::function<void(Ctx &)> body;
	int dq = 2, dt = 3;           /* deviation bound: quick, thorough */
	int split = 0;                /* decide ownership at the split-th choice (0: at first deviation/commit) */
};

/* Each property file defines this. */
struct Prop {
	const char *id;
	const char *rule;
	void (*build)(std::vector<Family> &out, bool thorough);
};
extern const Prop PROP;

/* FNV-ish hash helper. */
inline uint64_t hash(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
	const uint8_t *b = (const uint8_t *)p;
	while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
	while (n--) h = (h ^ *b++) * 0x100000001b3ull;
	return h ^ (h >> 32);
}

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string vfmt(const char *f, va_list ap);
/* A path of this process's own in the scratch directory. */
std::string scratch(const char *name);

} // namespace mc
