#include "../tsan.hpp"
#include <pthread.h>
#include <unistd.h>
#include <algorithm>
#include <semaphore.h>
#include <sched.h>
#include <locale.h>
#include <stdlib.h>
#include <unordered_map>

extern "C" { extern char __start_cyd_data[] __attribute__((weak)), __stop_cyd_data[] __attribute__((weak)), __start_cyd_bss[] __attribute__((weak)), __stop_cyd_bss[] __attribute__((weak)); }

namespace ts {
/* ---- threads ---- */
struct Th { pthread_t t; sem_t go; const std::function<void()> *f = nullptr; bool live = false; uintptr_t lo = 0, hi = 0; int held = 0; long points = 0; };
static Th th[MAXT]; static sem_t back; static int n_th, cur = -1, n_tasks; static pid_t owner;
static const Schedule *sch; static Result *res; static size_t next_pre; static bool active;
static __thread int my = -1;

static int other(int from, int which) {          /* which-th live thread after from */
	int seen = 0;
	for (int i = 1; i < n_tasks; i++) { int k = (from + i) % n_tasks; if (th[k].live && seen++ == which) return k; }
	return -1;
}
static void hand(int to) {
	int me = cur, il = env::in_lib;
	cur = to; sem_post(&th[to].go); while (sem_wait(&th[me].go)) {}
	env::in_lib = il;
}
int self() { return cur; }
void point(int kind) {
	if (!active || cur < 0 || my != cur || !(sch->points & kind)) return;
	long at = res->steps++; th[cur].points++;
	while (next_pre < sch->pre.size() && sch->pre[next_pre].at < at) next_pre++;
	if (next_pre < sch->pre.size() && sch->pre[next_pre].at == at) {
		int to = other(cur, sch->pre[next_pre].to); next_pre++;
		if (to >= 0) { res->taken++; hand(to); }
	}
}
static void *body(void *a) {
	int k = (int)(intptr_t)a; my = k;
	pthread_attr_t at; void *p; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &p, &n); pthread_attr_destroy(&at);
	th[k].lo = (uintptr_t)p; th[k].hi = th[k].lo + n; sem_post(&back);
	for (;;) {
		while (sem_wait(&th[k].go)) {}
		(*th[k].f)();
		th[k].live = false;
		int to = other(k, 0);
		cur = to;
		if (to >= 0) sem_post(&th[to].go); else sem_post(&back);
	}
	return nullptr;
}
/* ---- conflicts ---- */
struct Cell { uint8_t rd[MAXT], wr[MAXT], ard[MAXT], awr[MAXT]; };
static std::unordered_map<uintptr_t, Cell> cells;
static void block(const void *p, size_t n) {
	if (!active || !n) return;
	for (uintptr_t a = (uintptr_t)p >> 3; a <= ((uintptr_t)p + n - 1) >> 3; a++) cells.erase(a);
}
static bool is_static(uintptr_t a) { return (a >= (uintptr_t)__start_cyd_data && a < (uintptr_t)__stop_cyd_data) || (a >= (uintptr_t)__start_cyd_bss && a < (uintptr_t)__stop_cyd_bss); }
static int in_once;
static void access(const void *p, size_t n, bool write, bool atomic) {
	if (!active || cur < 0 || my != cur || in_once || !n) return;
	uintptr_t a = (uintptr_t)p;
	if (a >= th[cur].lo && a < th[cur].hi) return;
	res->accesses++;
	if (is_static(a)) point(P_STATIC);
	if (th[cur].held) atomic = true;
	for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
		uint8_t mask = 0;
		for (int b = 0; b < 8; b++) if (g * 8 + (uintptr_t)b >= a && g * 8 + (uintptr_t)b < a + n) mask |= (uint8_t)(1 << b);
		auto it = cells.find(g);
		if (it == cells.end()) { Cell z; memset(&z, 0, sizeof z); it = cells.emplace(g, z).first; }
		Cell &c = it->second;
		for (int k = 0; k < MAXT; k++) if (k != cur) {
			uint8_t clash = (uint8_t)(mask & (c.wr[k] | (write ? c.rd[k] : 0) | (atomic ? 0 : c.awr[k] | (write ? c.ard[k] : 0))));
			if (clash && res->race.empty()) res->race = mc::fmt("data race: task %d %s %zu byte(s)%s that task %d %s", cur, write ? "writes" : "reads", n, is_static(a) ? " of static library data" : "", k, (c.wr[k] | c.awr[k]) & mask ? "wrote" : "read");
			if (mask & (c.rd[k] | c.wr[k] | c.ard[k] | c.awr[k])) res->shared++;
		}
		(write ? atomic ? c.awr : c.wr : atomic ? c.ard : c.rd)[cur] |= mask;
	}
}
Result run(int worker, const Schedule &s, const std::vector<std::function<void()>> &tasks) {
	Result r;
	if (owner != getpid()) {
		owner = getpid(); n_th = 0; sem_init(&back, 0, 0);
		cpu_set_t c; CPU_ZERO(&c); CPU_SET(worker % std::max(1, (int)sysconf(_SC_NPROCESSORS_ONLN)), &c); (void)sched_setaffinity(0, sizeof c, &c);
	}
	while (n_th < (int)tasks.size()) { new (&th[n_th]) Th(); sem_init(&th[n_th].go, 0, 0); pthread_create(&th[n_th].t, nullptr, body, (void *)(intptr_t)n_th); while (sem_wait(&back)) {} n_th++; }
	n_tasks = (int)tasks.size(); sch = &s; res = &r; next_pre = 0; cells.clear();
	for (int i = 0; i < n_tasks; i++) { th[i].f = &tasks[(size_t)i]; th[i].live = true; th[i].held = 0; th[i].points = 0; }
	env::block_hook = block;
	active = true; cur = s.first; sem_post(&th[s.first].go);
	while (sem_wait(&back)) {}
	active = false; env::block_hook = nullptr; cur = -1;
	for (int i = 0; i < n_tasks; i++) r.points[i] = th[i].points;
	return r;
}
static char locale_state, strtok_state;
static void once_done() {}
} // namespace ts

using ts::access;
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) { ts::point(ts::P_ENTRY); }
void __tsan_func_exit(void) {}
#define RW(n) \
	void __tsan_read##n(void *p) { access(p, n, false, false); } void __tsan_write##n(void *p) { access(p, n, true, false); } \
	void __tsan_unaligned_read##n(void *p) { access(p, n, false, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, false); } \
	void __tsan_volatile_read##n(void *p) { access(p, n, false, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true, false); } \
	void __tsan_read##n##_pc(void *p, void *) { access(p, n, false, false); } void __tsan_write##n##_pc(void *p, void *) { access(p, n, true, false); } \
	void __tsan_read_write##n(void *p) { access(p, n, true, false); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, false); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true, false); return memset(d, c, n); }
#define AT(bits, ty) \
	ty __tsan_atomic##bits##_load(const volatile ty *a, int) { access((const void *)a, sizeof(ty), false, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile ty *a, ty v, int) { access((const void *)a, sizeof(ty), true, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int) { access((const void *)a, sizeof(ty), true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int) { access((const void *)a, sizeof(ty), true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int) { access((const void *)a, sizeof(ty), true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int) { access((const void *)a, sizeof(ty), true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int) { access((const void *)a, sizeof(ty), true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int) { access((const void *)a, sizeof(ty), true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int, int) { access((const void *)a, sizeof(ty), true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int, int) { access((const void *)a, sizeof(ty), true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int, int) { access((const void *)a, sizeof(ty), true, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

/* Stand-ins for C library functions used by the library. */
int cyt_vsnprintf(char *b, size_t n, const char *f, va_list ap) { int r = vsnprintf(b, n, f, ap); if (b && n) access(b, std::min<size_t>(n, r < 0 ? 1 : (size_t)r + 1), true, false); return r; }
int cyt_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = cyt_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int cyt_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); access(b, r < 0 ? 1 : (size_t)r + 1, true, false); return r; }
char *cyt_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; access(s, n, false, false); access(d, n, true, false); return strcpy(d, s); }
char *cyt_strncpy(char *d, const char *s, size_t n) { access(s, strnlen(s, n), false, false); access(d, n, true, false); return strncpy(d, s, n); }
char *cyt_strcat(char *d, const char *s) { access(s, strlen(s) + 1, false, false); access(d + strlen(d), strlen(s) + 1, true, false); return strcat(d, s); }
char *cyt_strncat(char *d, const char *s, size_t n) { access(s, strnlen(s, n), false, false); access(d + strlen(d), strnlen(s, n) + 1, true, false); return strncat(d, s, n); }
void *cyt_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *cyt_memmove(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
void *cyt_memset(void *d, int c, size_t n) { return __tsan_memset(d, c, n); }
size_t cyt_strlen(const char *s) { size_t n = strlen(s); access(s, n + 1, false, false); return n; }
int cyt_strcmp(const char *a, const char *b) { access(a, strlen(a) + 1, false, false); access(b, strlen(b) + 1, false, false); return strcmp(a, b); }
int cyt_strncmp(const char *a, const char *b, size_t n) { access(a, strnlen(a, n), false, false); access(b, strnlen(b, n), false, false); return strncmp(a, b, n); }
char *cyt_strtok(char *s, const char *d) { ts::point(ts::P_STATIC); access(&ts::strtok_state, 1, true, false); return strtok(s, d); }
char *cyt_setlocale(int c, const char *l) { ts::point(ts::P_STATIC); access(&ts::locale_state, 1, l != nullptr, false); return setlocale(c, l); }
/* Locks and one-time initialisation, under the same scheduler. */
static std::unordered_map<void *, int> locks;
int cyt_pthread_mutex_lock(void *m) {
	if (!ts::active || ts::cur < 0) return 0;
	ts::point(ts::P_STATIC);
	for (int tries = 0; locks.count(m) && tries < 10000; tries++) { int to = ts::other(ts::cur, 0); if (to < 0) break; ts::hand(to); }
	locks[m] = ts::cur; ts::th[ts::cur].held++; return 0;
}
int cyt_pthread_mutex_trylock(void *m) { if (locks.count(m)) return 16; return cyt_pthread_mutex_lock(m); }
int cyt_pthread_mutex_unlock(void *m) { if (!ts::active || ts::cur < 0) return 0; locks.erase(m); ts::th[ts::cur].held--; ts::point(ts::P_STATIC); return 0; }
static std::unordered_map<void *, bool> onces;
int cyt_pthread_once(void *o, void (*f)(void)) { if (*(int *)o) return 0; ts::in_once++; f(); ts::in_once--; *(int *)o = 1; ts::once_done(); return 0; }
}
