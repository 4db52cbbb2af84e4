/* Streams whose reads, writes and close are decided by the harness. */
#pragma once
#include "env.hpp"
#include <errno.h>

namespace io {
/* One scripted file; every fopen of a call is answered by it. */
struct File {
	std::string data;              /* to be read, or what was accepted */
	std::vector<size_t> cuts;      /* reads end at these offsets */
	size_t chunk = 0;              /* ... and after so many bytes */
	long fail_offset = -1;         /* reading or writing at or past this offset fails */
	long fail_call = -1;           /* the n-th read or write call fails */
	int fail_errno = EIO;
	bool partial = true;           /* a failing write first accepts what fits */
	bool close_fails = false, open_fails = false;
	int buffering = 0;             /* 0 default, 1 none, 2 line, 3 full of bufsize */
	size_t bufsize = 0;
	/* observed */
	size_t pos = 0;
	long calls = 0, failed = 0, opened = 0, closed = 0;
	std::string path, mode, late;
	bool is_open = false;
	std::vector<char> buf;
};
inline File *&current() { static File *f; return f; }
inline ssize_t rd(void *c, char *b, size_t n) {
	env::OutLib o; File &f = *(File *)c; long call = f.calls++;
	if (call == f.fail_call || (f.fail_offset >= 0 && f.pos >= (size_t)f.fail_offset)) { f.failed++; errno = f.fail_errno; return -1; }
	size_t end = f.data.size();
	for (size_t k : f.cuts) if (k > f.pos && k < end) end = k;
	if (f.chunk && f.pos + f.chunk < end) end = f.pos + f.chunk;
	if (f.fail_offset >= 0 && (size_t)f.fail_offset < end) end = (size_t)f.fail_offset;
	if (end - f.pos < n) n = end - f.pos;
	memcpy(b, f.data.data() + f.pos, n); f.pos += n;
	return (ssize_t)n;
}
inline ssize_t wr(void *c, const char *b, size_t n) {
	env::OutLib o; File &f = *(File *)c; long call = f.calls++;
	if (!f.is_open) f.late = "written to after it was closed";
	bool over = f.fail_offset >= 0 && f.data.size() + n > (size_t)f.fail_offset;
	if (call == f.fail_call || over) {
		f.failed++; errno = f.fail_errno;
		size_t k = over && f.partial && f.data.size() < (size_t)f.fail_offset ? (size_t)f.fail_offset - f.data.size() : 0;
		f.data.append(b, k);
		return (ssize_t)k;
	}
	f.data.append(b, n);
	return (ssize_t)n;
}
inline int cl(void *c) { env::OutLib o; File &f = *(File *)c; f.closed++; f.is_open = false; if (f.close_fails) { f.failed++; errno = f.fail_errno; return -1; } return 0; }
inline FILE *open(const char *path, const char *mode) {
	File &f = *current();
	f.path = path ? path : "(null)"; f.mode = mode ? mode : "";
	if (f.open_fails) { f.failed++; errno = EACCES; return nullptr; }
	cookie_io_functions_t fn; memset(&fn, 0, sizeof fn);
	if (strchr(mode, 'r')) fn.read = rd; else fn.write = wr;
	fn.close = cl;
	FILE *s = fopencookie(&f, mode, fn);
	f.opened++; f.is_open = true;
	if (f.buffering == 1) setvbuf(s, nullptr, _IONBF, 0);
	if (f.buffering >= 2) { f.buf.resize(f.bufsize ? f.bufsize : 64); setvbuf(s, f.buf.data(), f.buffering == 2 ? _IOLBF : _IOFBF, f.buf.size()); }
	return s;
}
struct Use {
	Use(File &f) { current() = &f; env::hook_fopen = open; }
	~Use() { env::hook_fopen = nullptr; env::hook_fclose = nullptr; current() = nullptr; }
};
inline void closed_once(mc::Ctx &m, const File &f) {
	if (f.opened != f.closed) m.fail("the file was opened %ld time(s) and closed %ld time(s)", f.opened, f.closed);
	if (!f.late.empty()) m.fail("the file was %s", f.late.c_str());
}
} // namespace io
