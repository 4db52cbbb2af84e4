#include "env.hpp"
#include <stdlib.h>
#include <errno.h>
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>

extern "C" const char *__asan_default_options(void);
extern "C" const char *__asan_default_options(void) {
	return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
	       "quarantine_size_mb=4:thread_local_quarantine_size_kb=64:handle_abort=1:max_malloc_fill_size=0:allow_user_segv_handler=0";
}
extern "C" const char *__ubsan_default_options(void);
extern "C" const char *__ubsan_default_options(void) { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }

namespace mc { extern void (*reset_hook)(); }
namespace env {

/* ---- client allocator ---- */
static const size_t TOMB = 1;
Heap::Heap() : tab(64, Blk{nullptr, 0}), n_live(0), n_tomb(0) {}
Heap::~Heap() { for (auto &b : tab) if (b.p && b.p != (void *)TOMB) free(b.p); }
static inline size_t hp(const void *p) { uint64_t v = (uint64_t)p; v *= 0x9E3779B97F4A7C15ull; return (size_t)(v >> 20); }
const Heap::Blk *Heap::find(const void *p) const {
	if (!p || p == (void *)TOMB) return nullptr;
	for (size_t i = hp(p) & (tab.size() - 1);; i = (i + 1) & (tab.size() - 1)) {
		if (tab[i].p == p) return &tab[i];
		if (!tab[i].p) return nullptr;
	}
}
void Heap::insert(void *p, size_t n) {
	if ((n_live + n_tomb + 1) * 2 > tab.size()) {
		std::vector<Blk> o(std::max<size_t>(64, n_live * 4), Blk{nullptr, 0});
		size_t sz = 64; while (sz < o.size()) sz *= 2;
		o.assign(sz, Blk{nullptr, 0});
		o.swap(tab); n_tomb = 0; n_live = 0;
		for (auto &b : o) if (b.p && b.p != (void *)TOMB) insert(b.p, b.n);
	}
	size_t i = hp(p) & (tab.size() - 1);
	while (tab[i].p && tab[i].p != (void *)TOMB) i = (i + 1) & (tab.size() - 1);
	if (tab[i].p == (void *)TOMB) n_tomb--;
	tab[i] = Blk{p, n}; n_live++;
}
bool Heap::erase(void *p, size_t *n) {
	Blk *b = const_cast<Blk *>(find(p));
	if (!b) return false;
	*n = b->n; b->p = (void *)TOMB; n_live--; n_tomb++;
	return true;
}
void Heap::add(void *p, size_t n) { insert(p, n); }
void *Heap::alloc(size_t n) { void *p = malloc(n ? n : 1); memset(p, 0, n); insert(p, n); return p; }
const Heap::Blk *Heap::containing(const void *p) const {
	for (auto &b : tab) if (b.p && b.p != (void *)TOMB && (const uint8_t *)p >= (const uint8_t *)b.p && (const uint8_t *)p < (const uint8_t *)b.p + b.n) return &b;
	return nullptr;
}
void Heap::blocks(std::vector<Blk> &out) const { for (auto &b : tab) if (b.p && b.p != (void *)TOMB) out.push_back(b); }
uint64_t Heap::content_hash() const {
	uint64_t h = n_live;
	for (auto &b : tab) if (b.p && b.p != (void *)TOMB) h += mc::hash(b.p, b.n, (uint64_t)b.p ^ b.n);
	return h;
}
static Heap *g_heaps[8]; static int g_nheaps;   /* heaps a call may use */

void *Heap::fn(void *ctx, void *ptr, size_t size) {
	OutLib ol;
	Heap *h = nullptr;
	for (int i = 0; i < g_nheaps; i++) if (g_heaps[i] == ctx) h = g_heaps[i];
	if (!h) {
		if (g_nheaps == 0) return nullptr;
		h = g_heaps[g_nheaps - 1];
		if (h->error.empty()) h->error = "memory function called with a context that is not the configured one";
	}
	if (h->on_call) h->on_call(*h);
	/* Handling memory may set errno to anything too. */
	errno = h->requests & 1 ? ENOMEM : ERANGE;
	if (size == 0) {
		if (!ptr) return nullptr;
		size_t n;
		if (!h->erase(ptr, &n)) { if (h->error.empty()) h->error = mc::fmt("freed %p, which is not a live block of this allocator", ptr); return nullptr; }
		free(ptr);
		return nullptr;
	}
	long r = h->requests++;
	size_t old = 0;
	if (ptr) {
		const Blk *b = h->find(ptr);
		if (!b) { if (h->error.empty()) h->error = mc::fmt("resized %p, which is not a live block of this allocator", ptr); return nullptr; }
		old = b->n;
	}
	if (r == h->fail_at || (h->fail_from >= 0 && r >= h->fail_from) || size > ((size_t)1 << 31)) { h->failed++; return nullptr; }
	/* Large blocks grow in place within a capacity, so that long sequences stay affordable. */
	auto cap = [](size_t n) { if (n <= 16384) return n; size_t c = 32768; while (c < n) c *= 2; return c; };
	if (ptr && size > 16384 && old > 16384 && cap(size) == cap(old)) {
		if (size > old) memset((uint8_t *)ptr + old, 0xA5, size - old);
		const_cast<Blk *>(h->find(ptr))->n = size;
		return ptr;
	}
	uint8_t *p = (uint8_t *)malloc(cap(size));
	if (!p) { h->failed++; return nullptr; }
	size_t keep = std::min(old, size);
	if (keep) memcpy(p, ptr, keep);
	memset(p + keep, 0xA5, size - keep);
	if (ptr) { size_t n; h->erase(ptr, &n); memset(ptr, 0xDB, n); free(ptr); }
	h->insert(p, size);
	return p;
}

/* ---- logger ---- */
/* Reads the arguments the way printf would; a NULL string or an unknown conversion is a misuse. */
static const char *bad_args(const char *f, va_list ap0) {
	va_list ap; va_copy(ap, ap0); const char *r = nullptr;
	for (; *f && !r; f++) {
		if (*f != '%') continue;
		f++;
		if (*f == '%') continue;
		while (*f && strchr("-+ #0'", *f)) f++;
		if (*f == '*') { (void)va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') f++;
		int prec = -1;
		if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; } }
		int wide = 0; while (*f && strchr("hlLqjzt", *f)) { if (strchr("lqjzt", *f)) wide = 1; if (*f == 'L') wide = 2; f++; }
		switch (*f) {
		case 'd': case 'i': case 'o': case 'u': case 'x': case 'X': case 'c': if (wide) (void)va_arg(ap, long); else (void)va_arg(ap, int); break;
		case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': case 'A': if (wide == 2) (void)va_arg(ap, long double); else (void)va_arg(ap, double); break;
		case 'p': (void)va_arg(ap, void *); break;
		case 's': { const char *s = va_arg(ap, const char *); if (!s && prec != 0) r = "NULL string argument"; break; }
		default: r = "unknown conversion in the format";
		}
		if (!*f) break;
	}
	va_end(ap);
	return r;
}
static Logger *g_loggers[8]; static int g_nloggers;
std::string norm(const std::string &s) {
	std::string o;
	for (size_t i = 0; i < s.size();) {
		if (s.compare(i, 2, "0x") == 0 && i + 9 < s.size() && isxdigit((unsigned char)s[i + 2])) {
			size_t k = i + 2; while (k < s.size() && isxdigit((unsigned char)s[k])) k++;
			if (k - i >= 9) { o += "PTR"; i = k; continue; }
		}
		if (s.compare(i, 5, "(nil)") == 0) { o += "PTR"; i += 5; continue; }
		o += s[i++];
	}
	return o;
}
void Logger::fn(cyaml_log_t level, void *ctx, const char *f, va_list ap) {
	OutLib ol;
	Logger *l = nullptr;
	for (int i = 0; i < g_nloggers; i++) if (g_loggers[i] == ctx) l = g_loggers[i];
	if (!l) {
		if (!g_nloggers) return;
		l = g_loggers[g_nloggers - 1];
		if (l->error.empty()) l->error = "log function called with a context that is not the configured one";
	}
	l->calls++;
	if ((int)level < l->min_level && l->error.empty()) l->error = mc::fmt("message of level %d logged although the configured level is %d", (int)level, l->min_level);
	if ((int)level < 0 || (int)level > CYAML_LOG_ERROR) if (l->error.empty()) l->error = mc::fmt("message with invalid level %d", (int)level);
	if (!f) { if (l->error.empty()) l->error = "NULL format"; return; }
	if (const char *b = bad_args(f, ap)) { if (l->error.empty()) l->error = mc::fmt("%s: \"%s\"", b, f); return; }
	std::string s = mc::vfmt(f, ap);
	if (l->keep) l->msgs.push_back(Msg{(int)level, s});
	if (l->sink) if (std::string *o = l->sink()) { *o += (char)('0' + level); *o += norm(s); }
	if (l->on_call) l->on_call(*l);
	/* Writing messages somewhere may set errno to anything. */
	static const int E[] = {0, ERANGE, EINVAL}; errno = E[l->calls % 3];
}

Cfg::Cfg(unsigned flags, int level, bool with_log) {
	memset(&c, 0, sizeof c);
	c.mem_fn = Heap::fn; c.mem_ctx = &heap;
	c.log_fn = with_log ? Logger::fn : nullptr; c.log_ctx = &log;
	c.log_level = (cyaml_log_t)level; log.min_level = level;
	c.flags = (cyaml_cfg_flags_t)flags;
}

/* ---- C library accounting ---- */
int in_lib;
long libc_live, direct_allocs, files_open, files_opened, libc_fail_at = -1, libc_requests;
FILE *(*hook_fopen)(const char *, const char *);
int (*hook_fclose)(FILE *);
void (*block_hook)(const void *, size_t);
int entry_errno = ERANGE;
InLib::InLib() { in_lib = 1; if (entry_errno >= 0) errno = entry_errno; }
InLib::~InLib() { in_lib = 0; }
OutLib::OutLib() : saved(in_lib) { in_lib = 0; }
OutLib::~OutLib() { in_lib = saved; }

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *);
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
void *__wrap_malloc(size_t n) {
	if (in_lib) { if (libc_requests++ == libc_fail_at) return nullptr; }
	void *p = __real_malloc(n); if (in_lib && p) { libc_live++; memset(p, 0xA5, n); } if (block_hook && p) block_hook(p, n); return p;
}
void *__wrap_calloc(size_t a, size_t b) { if (in_lib) { if (libc_requests++ == libc_fail_at) return nullptr; } void *p = __real_calloc(a, b); if (in_lib && p) libc_live++; if (block_hook && p) block_hook(p, a * b); return p; }
void *__wrap_realloc(void *o, size_t n) {
	if (in_lib) { if (libc_requests++ == libc_fail_at) return nullptr; }
	void *p = __real_realloc(o, n); if (in_lib && !o && p) libc_live++; if (in_lib && o && n == 0) libc_live--; if (block_hook && p) block_hook(p, n); return p; }
void __wrap_free(void *p) { if (in_lib && p) libc_live--; __real_free(p); }
char *__wrap_strdup(const char *s) { if (in_lib) { if (libc_requests++ == libc_fail_at) return nullptr; } char *p = __real_strdup(s); if (in_lib && p) libc_live++; if (block_hook && p) block_hook(p, strlen(p) + 1); return p; }
FILE *__wrap_fopen(const char *p, const char *m) {
	if (!in_lib) return __real_fopen(p, m);
	OutLib o;
	FILE *f = hook_fopen ? hook_fopen(p, m) : __real_fopen(p, m);
	if (f) { files_open++; files_opened++; }
	return f;
}
int __wrap_fclose(FILE *f) {
	if (!in_lib) return __real_fclose(f);
	OutLib o;
	files_open--;
	return hook_fclose ? hook_fclose(f) : __real_fclose(f);
}
/* libcyaml's own references to the C allocator (its objects are linked with these names substituted). */
void *cyd_malloc(size_t n) { if (in_lib) direct_allocs++; return __wrap_malloc(n); }
void *cyd_calloc(size_t a, size_t b) { if (in_lib) direct_allocs++; return __wrap_calloc(a, b); }
void *cyd_realloc(void *o, size_t n) { if (in_lib) direct_allocs++; return __wrap_realloc(o, n); }
void cyd_free(void *p) { __wrap_free(p); }
char *cyd_strdup(const char *s) { if (in_lib) direct_allocs++; return __wrap_strdup(s); }
char *cyd_strndup(const char *s, size_t n) { if (in_lib) direct_allocs++; size_t l = strnlen(s, n); char *p = (char *)__wrap_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
}

/* ---- the library's own static data ---- */
extern "C" { extern char __start_cyd_data[] __attribute__((weak)), __stop_cyd_data[] __attribute__((weak)), __start_cyd_bss[] __attribute__((weak)), __stop_cyd_bss[] __attribute__((weak)); }
static std::vector<char> init_data; static bool have_init;
__attribute__((optimize("O3"))) static bool raw_same(const char *a, const char *b, size_t n) {
	uint64_t d = 0, x, y; size_t i = 0;
	for (; i + 8 <= n; i += 8) { __builtin_memcpy(&x, a + i, 8); __builtin_memcpy(&y, b + i, 8); d |= x ^ y; }
	for (; i < n; i++) d |= (uint64_t)(a[i] != b[i]);
	return !d;
}
static void raw_copy(char *to, const char *from, size_t n) { if (raw_same(to, from, n)) return; for (size_t i = 0; i < n; i++) if (to[i] != from[i]) ((volatile char *)to)[i] = from[i]; }
uint64_t statics_size() { return (uint64_t)(__stop_cyd_data - __start_cyd_data) + (uint64_t)(__stop_cyd_bss - __start_cyd_bss); }
void reset_statics() {
	size_t nd = (size_t)(__stop_cyd_data - __start_cyd_data), nb = (size_t)(__stop_cyd_bss - __start_cyd_bss);
	if (!have_init) { have_init = true; init_data.assign(nd + nb, 0); raw_copy(init_data.data(), __start_cyd_data, nd); raw_copy(init_data.data() + nd, __start_cyd_bss, nb); return; }
	raw_copy(__start_cyd_data, init_data.data(), nd); raw_copy(__start_cyd_bss, init_data.data() + nd, nb);
}

static struct Install { Install() { reset_statics(); extern_hook(); } static void extern_hook(); } install;
void Install::extern_hook() { mc::reset_hook = reset_statics; }

/* ---- call wrappers ---- */
struct Scope {
	Cfg &c; mc::Ctx &m; const char *what;
	cyaml_config_t before; long libc0, files0; 
	Scope(mc::Ctx &m_, Cfg &c_, const char *w) : c(c_), m(m_), what(w) {
		before = c.c; libc0 = libc_live; files0 = files_open;
		g_heaps[g_nheaps++] = &c.heap; g_loggers[g_nloggers++] = &c.log;
		direct_allocs = 0;
	}
	~Scope() { g_nheaps--; g_nloggers--; }
	void done() {
		if (memcmp(&before, &c.c, sizeof before)) m.fail("%s changed the caller's configuration", what);
		if (libc_live != libc0) m.fail("%s leaked %ld C library block(s)", what, libc_live - libc0);
		if (files_open != files0) m.fail("%s left %ld file(s) open", what, files_open - files0);
		if (direct_allocs && c.c.mem_fn == Heap::fn) m.fail("%s allocated memory without using the configured memory function", what);
		check_env(m, c, what);
	}
};
Track::Track(Cfg &c) { g_heaps[g_nheaps++] = &c.heap; g_loggers[g_nloggers++] = &c.log; }
Track::~Track() { g_nheaps--; g_nloggers--; }
void check_env(mc::Ctx &m, Cfg &c, const char *what) {
	if (!c.heap.error.empty()) m.fail("%s: %s", what, c.heap.error.c_str());
	if (!c.log.error.empty()) m.fail("%s: %s", what, c.log.error.c_str());
}

static uint8_t sentinel;

LoadRes load(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, const std::string &text) {
	LoadRes r; r.data = &sentinel; r.count = 0xA5A5A5A5u;
	size_t live0 = c.heap.live();
	uint8_t *in = (uint8_t *)malloc(text.size() + 0 ? text.size() : 1);
	memcpy(in, text.data(), text.size());
	bool seq = s && s->type == CYAML_SEQUENCE;
	{
		Scope sc(m, c, "cyaml_load_data");
		{ InLib il; r.err = cyaml_load_data(in, text.size(), &c.c, s, (cyaml_data_t **)&r.data, seq ? &r.count : nullptr); }
		bool same = !memcmp(in, text.data(), text.size());
		free(in);
		if (!same) m.fail("cyaml_load_data changed its input");
		sc.done();
	}
	if (r.err != CYAML_OK) {
		if (r.data != &sentinel) m.fail("load failed (%s) but changed the data output", ename(r.err));
		if (r.count != 0xA5A5A5A5u) m.fail("load failed (%s) but changed the count output", ename(r.err));
		if (c.heap.live() != live0) m.fail("load failed (%s) and leaked %zu block(s)", ename(r.err), c.heap.live() - live0);
		r.data = nullptr; r.count = 0;
	} else {
		if (r.data == &sentinel) m.fail("load succeeded without setting the data output");
		if (!seq) r.count = 0;
		else if (r.count == 0xA5A5A5A5u) m.fail("load succeeded without setting the count output");
	}
	return r;
}
LoadRes load_file(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, const char *path) {
	LoadRes r; r.data = &sentinel; r.count = 0xA5A5A5A5u;
	size_t live0 = c.heap.live();
	bool seq = s && s->type == CYAML_SEQUENCE;
	Scope sc(m, c, "cyaml_load_file");
	{ InLib il; r.err = cyaml_load_file(path, &c.c, s, (cyaml_data_t **)&r.data, seq ? &r.count : nullptr); }
	sc.done();
	if (r.err != CYAML_OK) {
		if (r.data != &sentinel) m.fail("load failed (%s) but changed the data output", ename(r.err));
		if (r.count != 0xA5A5A5A5u) m.fail("load failed (%s) but changed the count output", ename(r.err));
		if (c.heap.live() != live0) m.fail("load failed (%s) and leaked %zu block(s)", ename(r.err), c.heap.live() - live0);
		r.data = nullptr; r.count = 0;
	} else {
		if (r.data == &sentinel) m.fail("load succeeded without setting the data output");
		if (!seq) r.count = 0;
	}
	return r;
}

SaveRes save(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, const void *data, unsigned count) {
	SaveRes r; char *out = (char *)&sentinel; size_t len = 0x5A5A5A5A5A5A5A5Aull;
	size_t live0 = c.heap.live(); uint64_t h0 = c.heap.content_hash();
	Scope sc(m, c, "cyaml_save_data");
	{ InLib il; r.err = cyaml_save_data(&out, &len, &c.c, s, data, count); }
	sc.done();
	if (r.err != CYAML_OK) {
		if (out != (char *)&sentinel || len != 0x5A5A5A5A5A5A5A5Aull) m.fail("save failed (%s) but changed its outputs", ename(r.err));
		if (c.heap.live() != live0) m.fail("save failed (%s) and leaked %zu block(s)", ename(r.err), c.heap.live() - live0);
	} else {
		const Heap::Blk *b = c.heap.find(out);
		if (!b) m.fail("save output was not allocated with the configured memory function");
		if (len > b->n) m.fail("save output length %zu is larger than its block (%zu)", len, b->n);
		r.text.assign(out, len);
		Heap::fn(&c.heap, out, 0);
		if (c.heap.live() != live0) m.fail("save leaked %zu block(s)", c.heap.live() - live0);
	}
	if (c.heap.content_hash() != h0) m.fail("save changed its source data");
	return r;
}
cyaml_err_t save_file(mc::Ctx &m, Cfg &c, const char *path, const cyaml_schema_value_t *s, const void *data, unsigned count) {
	size_t live0 = c.heap.live(); uint64_t h0 = c.heap.content_hash();
	Scope sc(m, c, "cyaml_save_file");
	cyaml_err_t e;
	{ InLib il; e = cyaml_save_file(path, &c.c, s, data, count); }
	sc.done();
	if (c.heap.live() != live0) m.fail("cyaml_save_file (%s) leaked %zu block(s)", ename(e), c.heap.live() - live0);
	if (c.heap.content_hash() != h0) m.fail("cyaml_save_file changed its source data");
	return e;
}
CopyRes copy(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, const void *data, unsigned count) {
	CopyRes r; r.data = nullptr;
	size_t live0 = c.heap.live(); uint64_t h0 = c.heap.content_hash();
	std::vector<Heap::Blk> b0; c.heap.blocks(b0);
	Scope sc(m, c, "cyaml_copy");
	cyaml_data_t *out = nullptr;
	{ InLib il; r.err = cyaml_copy(&c.c, s, data, count, &out); }
	sc.done();
	r.data = (uint8_t *)out;
	if (r.err != CYAML_OK) {
		if (out) m.fail("copy failed (%s) but changed its output", ename(r.err));
		if (c.heap.live() != live0) m.fail("copy failed (%s) and leaked %zu block(s)", ename(r.err), c.heap.live() - live0);
		if (c.heap.content_hash() != h0) m.fail("copy changed its source data");
	} else {
		uint64_t h1 = live0; size_t still = 0;
		for (auto &b : b0) { if (c.heap.find(b.p)) still++; else continue; h1 += mc::hash(b.p, b.n, (uint64_t)b.p ^ b.n); }
		if (still != b0.size()) m.fail("copy freed blocks of its source");
		if (h1 != h0) m.fail("copy changed its source data");
	}
	return r;
}
cyaml_err_t release(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, void *data, unsigned count) {
	Scope sc(m, c, "cyaml_free");
	cyaml_err_t e;
	{ InLib il; e = cyaml_free(&c.c, s, data, count); }
	sc.done();
	if (e != CYAML_OK) m.fail("cyaml_free returned %s", ename(e));
	return e;
}

const char *ename(int e) {
	static const char *const n[] = {"OK", "OOM", "ALIAS", "FILE_OPEN", "INVALID_KEY", "INVALID_VALUE", "INVALID_ALIAS", "INTERNAL_ERROR",
		"UNEXPECTED_EVENT", "STRING_LENGTH_MIN", "STRING_LENGTH_MAX", "INVALID_DATA_SIZE", "TOP_LEVEL_NON_PTR", "BAD_TYPE_IN_SCHEMA",
		"BAD_MIN_MAX_SCHEMA", "BAD_PARAM_SEQ_COUNT", "BAD_PARAM_NULL_DATA", "BAD_BITVAL_IN_SCHEMA", "SEQUENCE_ENTRIES_MIN",
		"SEQUENCE_ENTRIES_MAX", "SEQUENCE_FIXED_COUNT", "SEQUENCE_IN_SEQUENCE", "MAPPING_FIELD_MISSING", "BAD_CONFIG_NULL_MEMFN",
		"BAD_PARAM_NULL_CONFIG", "BAD_PARAM_NULL_SCHEMA", "DATA_TARGET_NON_NULL", "LIBYAML_EMITTER_INIT", "LIBYAML_PARSER_INIT",
		"LIBYAML_EVENT_INIT", "LIBYAML_EMITTER", "LIBYAML_PARSER"};
	if (e < 0 || e >= (int)(sizeof n / sizeof *n)) return "?";
	return n[e];
}
std::string quote(const std::string &s, size_t max) {
	std::string o;
	for (unsigned char ch : s) {
		if (o.size() > max) { o += "..."; break; }
		if (ch == '\n' || (ch >= 32 && ch < 127)) o += (char)ch; else o += mc::fmt("\\x%02x", ch);
	}
	return o;
}

} // namespace env
