/* The library's environment: client allocator, logger, configuration, C library accounting, call wrappers. */
#pragma once
#include "mc.hpp"
#include <cyaml/cyaml.h>
#include <string>
#include <vector>

namespace env {

/* Client allocator that tracks every block, moves on every realloc and can fail on demand. */
struct Heap {
	struct Blk { void *p; size_t n; };
	Heap();
	~Heap();                      /* releases whatever is left */
	Heap(const Heap &) = delete;
	static void *fn(void *ctx, void *ptr, size_t size);

	long requests = 0;            /* allocation requests seen */
	long fail_at = -1;            /* fail the request with this number */
	long fail_from = -1;          /* ... and every one from this number on */
	long failed = 0;
	std::string error;            /* first misuse seen */
	std::function<void(Heap &)> on_call;   /* re-entrancy hook */

	size_t live() const { return n_live; }
	const Blk *find(const void *p) const;
	/* Block containing an address (linear; for diagnostics and pointer validation). */
	const Blk *containing(const void *p) const;
	void blocks(std::vector<Blk> &out) const;
	uint64_t content_hash() const;
	void add(void *p, size_t n);
	void reset_faults() { fail_at = fail_from = -1; failed = 0; requests = 0; }
	void *alloc(size_t n);        /* for building source data */
private:
	std::vector<Blk> tab;
	size_t n_live, n_tomb;
	void insert(void *p, size_t n);
	bool erase(void *p, size_t *n);
};

struct Msg { int level; std::string text; };
std::string norm(const std::string &s);   /* addresses replaced */

struct Logger {
	int min_level = CYAML_LOG_WARNING;
	std::string error;
	std::vector<Msg> msgs;
	bool keep = true;
	long calls = 0;
	std::function<void(Logger &)> on_call;
	std::function<std::string *()> sink;   /* where the message (without addresses) is added as well */
	static void fn(cyaml_log_t level, void *ctx, const char *fmt, va_list args);
};

struct Cfg {
	cyaml_config_t c;
	Heap heap;
	Logger log;
	explicit Cfg(unsigned flags = 0, int level = CYAML_LOG_WARNING, bool with_log = false);
	void *vctx = nullptr;
};

/* Scope of a library call: C library allocations inside are accounted. */
struct InLib { InLib(); ~InLib(); };
struct OutLib { int saved; OutLib(); ~OutLib(); };   /* in a callback */
extern int in_lib;
extern long libc_live;         /* allocations minus frees made inside calls */
extern long direct_allocs;     /* allocations libcyaml's own objects made directly */
extern long files_open, files_opened;
extern FILE *(*hook_fopen)(const char *path, const char *mode);
extern int (*hook_fclose)(FILE *f);
extern long libc_fail_at;       /* fail the n-th libyaml allocation (-1: never) */
extern long libc_requests;
extern void (*block_hook)(const void *p, size_t n);   /* memory handed out (by C library or client allocator) */

/* The library's writable static data: back to what it was when the process started. */
void reset_statics();
uint64_t statics_size();
extern int entry_errno;        /* value of errno at the start of each call; -1: whatever it is */

/* Make a configuration's callbacks known for calls made directly. */
struct Track { explicit Track(Cfg &c); ~Track(); };

/* Results of calls, with the generic contract already checked (see the .cpp). */
struct LoadRes { cyaml_err_t err; uint8_t *data; unsigned count; };
LoadRes load(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, const std::string &text);
LoadRes load_file(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, const char *path);
struct SaveRes { cyaml_err_t err; std::string text; };
SaveRes save(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, const void *data, unsigned count);
cyaml_err_t save_file(mc::Ctx &m, Cfg &c, const char *path, const cyaml_schema_value_t *s, const void *data, unsigned count);
struct CopyRes { cyaml_err_t err; uint8_t *data; };
CopyRes copy(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, const void *data, unsigned count);
cyaml_err_t release(mc::Ctx &m, Cfg &c, const cyaml_schema_value_t *s, void *data, unsigned count);
/* Check misuse recorded by the callbacks and libc accounting; called by all of the above. */
void check_env(mc::Ctx &m, Cfg &c, const char *what);

const char *ename(int e);
std::string quote(const std::string &s, size_t max = 4000);

} // namespace env
