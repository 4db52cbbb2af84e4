// LEVEL: fault_enumeration
#include "../common.hpp"
#include "../stream.hpp"
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
using namespace md;
using namespace com;

static bool topless(const gen::Case &c, const Val &v) { return v.k == Val::NUL || v.k == Val::ZERO || (c.top->is_seq() && v.v.empty()); }
/* What saving to memory gives. */
static env::SaveRes memory(mc::Ctx &m, gen::Case &c, const Val &v) {
	env::Cfg cfg(c.cfg); Src s = dirty_source(cfg, *c.top, v, 0xA5);
	return env::save(m, cfg, c.s, s.p, s.count);
}
/* Save to a scripted file. */
static int scripted(mc::Ctx &m, gen::Case &c, const Val &v, const env::SaveRes &mem, io::File &f, bool lie = false) {
	io::Use u(f);
	if (lie) env::hook_fclose = [](FILE *s) { fclose(s); io::current()->failed++; return EOF; };    /* fclose itself reports the error */
	env::Cfg cfg(c.cfg); Src s = dirty_source(cfg, *c.top, v, 0xA5);
	if (m.tracing()) m.note("buffering %d of %zu, failing at offset %ld, call %ld%s%s\n", f.buffering, f.bufsize, f.fail_offset, f.fail_call, f.close_fails || lie ? ", close fails" : "", f.open_fails ? ", open fails" : "");
	int e = env::save_file(m, cfg, "scripted.yaml", c.s, s.p, s.count);
	io::closed_once(m, f);
	if (mem.err) { if (!e) m.fail("saving to a file succeeded, to memory it gives %s", env::ename(mem.err)); if (!f.failed && e != mem.err) m.fail("saving to a file gives %s, to memory %s", env::ename(e), env::ename(mem.err)); }
	else if (f.failed) { if (!e) m.fail("saving succeeded although writing failed after %zu of %zu bytes", f.data.size(), mem.text.size()); m.count("failing writes, flushes, closes or opens"); }
	else if (e) m.fail("saving to a file that accepts everything gives %s", env::ename(e));
	if (!e && f.data != mem.text) m.fail("the file has %zu bytes that differ from the %zu saved to memory:\n%s\n%s", f.data.size(), mem.text.size(), env::quote(f.data, 300).c_str(), env::quote(mem.text, 300).c_str());
	if (f.data.size() > mem.text.size() && !mem.err) m.fail("more bytes were written than the text has");
	m.outcome((uint64_t)e); m.outcome((uint64_t)f.failed); m.outcome((uint64_t)f.calls);
	return e;
}
static void buffer(io::File &f, int buf) { f.buffering = buf == 0 ? 0 : buf == 1 ? 1 : 3; f.bufsize = buf == 3 ? 100 : 5; }
/* Room for exactly k bytes, for every k; the k-th write call failing; close failing. */
static void faults(mc::Ctx &m, gen::Case &c, const Val &v, int buf) {
	env::SaveRes mem = memory(m, c, v);
	SaveRef ref = ref_save(*c.top, v, c.cfg);
	if (ref.unspecified) m.prune();
	verdict(m, ref.errs, mem.err, "save to memory");
	long n = (long)mem.text.size();
	auto fresh = [&] { io::File f; buffer(f, buf); return f; };
	{ io::File f = fresh(); scripted(m, c, v, mem, f); }
	{ io::File f = fresh(); f.open_fails = true; int e = scripted(m, c, v, mem, f); if (e == CYAML_OK) m.fail("success"); }
	{ io::File f = fresh(); f.close_fails = true; scripted(m, c, v, mem, f); }
	{ io::File f = fresh(); scripted(m, c, v, mem, f, true); }
	for (long k = 0; k < n; k++) { io::File f = fresh(); f.fail_offset = k; f.fail_errno = ENOSPC; f.partial = k & 1; scripted(m, c, v, mem, f); }
	for (long k = 0; ; k++) { io::File f = fresh(); f.fail_call = k; scripted(m, c, v, mem, f); if (!f.failed) break; }
}
static void shapes(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v)) m.prune();
	int buf = m.pick(3);
	m.outcome(c.text); m.outcome(c.a.hash());
	faults(m, c, c.ref.v, buf);
}
/* Data that cannot be saved, at every pointer: nothing stays open. */
static void refused(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v)) m.prune();
	Val v = canon(*c.top, c.ref.v);
	std::vector<At> ps; pointers(*c.top, v, ps);
	if (ps.size() < 2) m.prune();
	*ps[1 + (size_t)m.pick((int)ps.size() - 1)].v = Val::nul();
	SaveRef ref = ref_save(*c.top, v, c.cfg);
	if (ref.unspecified) m.prune();
	int how = m.pick(4);
	m.outcome(c.text); m.outcome(c.a.hash());
	env::SaveRes mem = memory(m, c, v);
	verdict(m, ref.errs, mem.err, "save to memory");
	if (mem.err) m.count("data refused");
	io::File f; buffer(f, how == 1 ? 1 : 0); if (how == 2) f.close_fails = true; if (how == 3) { buffer(f, 1); f.fail_call = 0; }
	scripted(m, c, v, mem, f);
}
/* Texts larger than any buffer: room ends within 4 bytes of a multiple of the buffer sizes, or at call k. */
static void large(mc::Ctx &m) {
	static const int N[] = {1, 60, 1023, 2100, 4096, 9000};
	int n = N[m.pick(6)], form = m.pick(3), buf = m.pick(4), kind = m.pick(5);
	size_t edge = (size_t)m.pick(5); int d = m.pick(7) - 3; static const size_t EDGE[] = {0, 4096, 16384, 32768, 65536};
	if (kind >= 2 && (edge || d + 3)) m.prune();
	if (kind == 1 && d + 3) m.prune();
	m.commit();
	gen::Case c; c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); c.top->smax = CYAML_UNLIMITED;
	c.top->entry = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); c.top->entry->smax = CYAML_UNLIMITED; c.s = lower(c.a, *c.top);
	Val v = Val::seq();
	if (form == 0) for (int i = 0; i < n; i++) v.v.push_back(Val::str(mc::fmt("entry %d", i)));
	else { v.v.push_back(Val::str(std::string((size_t)n * 10, 'x'))); v.v.push_back(Val::str("y")); if (form == 2) { std::string s; for (int i = 0; i < n; i++) s += "\xe2\x82\xac"; v.v.push_back(Val::str(s)); } }
	env::SaveRes mem = memory(m, c, v);
	if (mem.err) m.fail("save to memory: %s", env::ename(mem.err));
	io::File f; buffer(f, buf); if (buf == 3) f.bufsize = 16384;
	switch (kind) {
	case 0: { long at = (long)EDGE[edge] + d; if (at < 0 || at >= (long)mem.text.size()) m.prune(); f.fail_offset = at; break; }
	case 1: f.fail_call = (long)edge; break;
	case 2: f.fail_offset = (long)mem.text.size() - 1; break;
	case 3: f.close_fails = true; break;
	}
	m.outcome((uint64_t)n << 8 | (unsigned)form);
	scripted(m, c, v, mem, f);
}
static void starved(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v)) m.prune();
	Val v = c.ref.v;
	bool from = m.pick(2);
	for (int lib = 0; lib < 2; lib++) for (long k = 0;; k++) {
		io::File f; io::Use u(f);
		env::Cfg src(c.cfg), cfg(c.cfg); Src s = dirty_source(src, *c.top, v, 0xA5);
		if (lib) { env::libc_requests = 0; env::libc_fail_at = k; } else if (from) cfg.heap.fail_from = k; else cfg.heap.fail_at = k;
		struct Off { ~Off() { env::libc_fail_at = -1; } } off;
		int e = env::save_file(m, cfg, "scripted.yaml", c.s, s.p, s.count);
		bool hit = lib ? env::libc_requests > k : cfg.heap.failed > 0;
		env::libc_fail_at = -1;
		io::closed_once(m, f);
		if (!hit) { if (e) m.fail("save to file: %s", env::ename(e)); break; }
		if (!lib && e != CYAML_ERR_OOM) m.fail("request %ld failed: %s", k, env::ename(e));
		if (!e) m.fail("save succeeded although C library request %ld failed", k);
		m.count("failing memory requests");
	}
	m.outcome(c.text); m.outcome(c.a.hash());
}
/* The real file system. */
static void real(mc::Ctx &m) {
	int kind = m.pick(8), size = m.pick(3), delim = m.pick(2);
	m.commit();
	gen::Case c; c.cfg = delim ? CYAML_CFG_DOCUMENT_DELIM : 0; c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); c.top->smax = CYAML_UNLIMITED; c.top->entry = c.a.t(CYAML_UINT, 0, 4); c.s = lower(c.a, *c.top);
	Val v = Val::seq(); int n = size == 0 ? 1 : size == 1 ? 700 : 30000; for (int i = 0; i < n; i++) v.v.push_back(Val::num((uint64_t)i));
	env::SaveRes mem = memory(m, c, v);
	env::Cfg cfg(c.cfg); Src s = source(cfg, *c.top, v);
	std::string path = mc::scratch("out.yaml");
	unlink(path.c_str()); rmdir(path.c_str());
	auto get = [&] { std::string now; FILE *f = fopen(path.c_str(), "rb"); if (!f) m.fail("no file"); int ch; while ((ch = fgetc(f)) != EOF) now += (char)ch; fclose(f); return now; };
	auto put = [&](const std::string &t) { FILE *f = fopen(path.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); };
	auto go = [&](const std::string &p) { return (int)env::save_file(m, cfg, p.c_str(), c.s, s.p, s.count); };
	int e;
	switch (kind) {
	case 0: e = go(path); if (e || get() != mem.text) m.fail("new file: %s", env::ename(e)); break;
	case 1: put(std::string(400000, 'z')); e = go(path); if (e || get() != mem.text) m.fail("longer existing file: %s, %zu bytes", env::ename(e), get().size()); break;
	case 2: e = go(path); e = go(path); if (e || get() != mem.text) m.fail("second save: %s", env::ename(e)); break;
	case 3: e = go("/dev/full"); if (!e) m.fail("saving to a full device succeeded"); m.count("full device"); break;
	case 4: mkdir(path.c_str(), 0700); e = go(path); rmdir(path.c_str()); if (e != CYAML_ERR_FILE_OPEN) m.fail("directory: %s", env::ename(e)); break;
	case 5: e = go(path + "/x/y"); if (e != CYAML_ERR_FILE_OPEN) m.fail("missing directory: %s", env::ename(e)); break;
	case 6: e = go("/dev/null"); if (e) m.fail("/dev/null: %s", env::ename(e)); break;
	case 7: { put("old"); std::string l = path + ".link"; unlink(l.c_str()); if (symlink(path.c_str(), l.c_str())) m.prune(); e = go(l); unlink(l.c_str()); if (e || get() != mem.text) m.fail("through a link: %s", env::ename(e)); break; }
	}
	unlink(path.c_str());
	m.outcome((uint64_t)(kind * 10 + size * 2 + delim));
}
/* Texts whose layout depends on how the emitter is set up: long lines, breaks, characters beyond ASCII. */
static void texts(mc::Ctx &m) {
	static const char *const P[] = {"word ", "a  b ", "x", "\xc3\xa9", "\xe2\x82\xac uro ", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "line\n", "two\n\nmore ", " lead", "tab\t", "\x07", "\xc2\x85", "\xe2\x80\xa8", "a: b, ", "- [x] ", "'q' ", "\"d\" ", "# c ", "\\ ", "~", "null "};
	static const int N[] = {1, 2, 9, 17, 30, 81};
	static const unsigned SF[] = {0, CYAML_FLAG_SCALAR_PLAIN, CYAML_FLAG_SCALAR_FOLDED, CYAML_FLAG_SCALAR_LITERAL, CYAML_FLAG_SCALAR_QUOTE_SINGLE, CYAML_FLAG_SCALAR_QUOTE_DOUBLE};
	int p = m.pick(22), n = N[m.pick(6)], st = m.pick(6), pos = m.pick(PLACES), cf = m.pick(4), bad = m.pick(3);
	if (bad && (st || cf)) m.prune();
	m.commit();
	gen::Case c; c.cfg = (cf & 1 ? CYAML_CFG_STYLE_FLOW : 0) | (cf & 2 ? CYAML_CFG_DOCUMENT_DELIM : 0);
	T *t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER | SF[st], 1); t->smax = CYAML_UNLIMITED;
	std::string s; for (int i = 0; i < n; i++) s += P[p]; s += "end";
	Val v = place_val(c, t, Val::str(s), pos); c.s = lower(c.a, *c.top);
	env::SaveRes mem = memory(m, c, v); if (mem.err) m.prune();
	io::File f; if (bad) f.fail_offset = (long)mem.text.size() - bad;
	m.outcome(mem.text);
	scripted(m, c, v, mem, f);
}
/* The first write (libyaml's buffer has 16384 bytes) falls on every byte of the text of a generated case, so that each
 * event of it in turn is the one that fails. */
static void edges(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (!c.ref.ok() || c.ref.unspecified || topless(c, c.ref.v)) m.prune();
	int sink = m.pick(2); bool nothing = m.pick(2);
	m.outcome(c.text); m.outcome(c.a.hash()); m.outcome((uint64_t)sink);
	Val inner = canon(*c.top, c.ref.v);
	if (nothing) {          /* every optional field with a pointer is left out */
		struct Strip { static bool go(const T &t, Val &v) {
			bool any = false;
			if (v.k == Val::MAP) for (size_t i = 0; i < v.v.size(); i++) { const T &f = *t.fields[i].t; if (f.ptr() && f.optional() && !f.has_default() && v.v[i].k != Val::NUL) { v.v[i] = Val::nul(); any = true; } else any |= go(f, v.v[i]); }
			if (v.k == Val::SEQ) for (auto &x : v.v) any |= go(*t.entry, x);
			return any;
		} };
		if (!Strip::go(*c.top, inner)) m.prune();
	}
	long tail = (long)memory(m, c, inner).text.size() + 12;
	T *pre = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1), *top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER), *rest = c.top; pre->smax = CYAML_UNLIMITED;
	top->fields.push_back({"pre", pre}); top->fields.push_back({"rest", rest}); c.top = top; c.s = lower(c.a, *top);
	for (long back = 0; back < tail; back++) {
		Val v = Val::map(); v.v = {Val::str(std::string((size_t)(16384 - back), 'x')), inner};
		SaveRef ref = ref_save(*c.top, v, c.cfg);
		if (ref.unspecified) m.prune();
		if (sink == 0) {
			env::SaveRes mem = memory(m, c, v);
			verdict(m, ref.errs, mem.err, "save to memory");
			io::File f; buffer(f, 0); f.fail_call = 0; scripted(m, c, v, mem, f);
		} else for (long k = 0;; k++) {
			env::Cfg src(c.cfg), cfg(c.cfg); Src d = dirty_source(src, *c.top, v, 0xA5);
			cfg.heap.fail_at = k;
			env::SaveRes r = env::save(m, cfg, c.s, d.p, d.count);
			if (!cfg.heap.failed) { verdict(m, ref.errs, r.err, "save to memory"); break; }
			if (r.err != CYAML_ERR_OOM) m.fail("request %ld failed: %s", k, env::ename(r.err));
		}
	}
}
static void scaled(mc::Ctx &m) {
	int kind = m.pick(5), buf = m.pick(2); gen::Case c; scale(m, c);
	if (!c.ref.ok() || topless(c, c.ref.v)) m.prune();
	env::SaveRes mem = memory(m, c, c.ref.v); if (mem.err) m.prune();
	io::File f; buffer(f, buf ? 3 : 0); if (buf) f.bufsize = 16384;
	long n = (long)mem.text.size();
	switch (kind) { case 0: break; case 1: f.close_fails = true; break; case 2: f.fail_offset = n - 1; break; case 3: f.fail_offset = n / 2; break; case 4: f.fail_call = 1; break; }
	scripted(m, c, c.ref.v, mem, f);
	m.outcome(c.a.hash());
}
static void build(std::vector<mc::Family> &f, bool th) {
	{ gen::Opt o; o.nodes = th ? 4 : 3; o.vary_style = o.vary_order = o.vary_layout = false;
	  f.push_back({"shapes", "data of every generated case of up to 3 (4) schema nodes within the bound, with room for every number of bytes less than its text has, every write call failing, and open, close or fclose failing, under 3 buffer settings", [o](mc::Ctx &m) { shapes(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = 4; o.vary_style = o.vary_order = o.vary_layout = o.vary_names = o.vary_text = false;
	  f.push_back({"refused data", "data with any one pointer NULL, saved to a file that works, fails to write or fails to close", [o](mc::Ctx &m) { refused(m, o); }, 1, 2}); }
	f.push_back({"large", "texts up to 90 kB under 4 buffer settings: room ends within 3 bytes of 0, 4096, 16384, 32768 and 65536, each of the first 5 write calls fails, the last byte does not fit, or close fails", large, 0, 0});
	f.push_back({"texts", "22 texts (long lines, breaks, characters beyond ASCII, syntax) repeated 1 to 81 times x 6 scalar styles x 7 places x flow x delimiters, and with the last or last but one byte refused", texts, 0, 0});
	{ gen::Opt o; o.nodes = 3; o.vary_style = o.vary_order = o.vary_layout = o.vary_names = false;
	  f.push_back({"starved", "every memory request of the client's function (alone, or with the rest) or of libyaml failing while saving to a file", [o](mc::Ctx &m) { starved(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = th ? 4 : 3; o.vary_layout = o.vary_names = o.vary_order = o.vary_style = o.vary_text = false; o.no_empty_top = true;
	  f.push_back({"edges", "data of generated cases of up to 3 (4) schema nodes, whole or with its optional pointers NULL, after a text that moves the first flush of libyaml to each byte of theirs; that write, or each memory request, fails", [o](mc::Ctx &m) { edges(m, o); }, 1, 2}); }
	f.push_back({"scale", std::string(SCALE) + ": every byte accepted, none from the last or the middle on, the second write call or close failing", scaled, 0, 0});
	f.push_back({"real files", "new, longer existing, linked, full-device, directory and missing targets", real, 0, 0});
}
const mc::Prop mc::PROP = {"C19", "A case is data and a script for its file (which open, write, flush or close fails, after how many bytes); success must mean that the file accepted exactly the text saved to memory.", build};
