// LEVEL: fault_enumeration
#include "../common.hpp"
#include "../stream.hpp"
#include "../encode.hpp"
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
using namespace md;
using namespace com;

struct Out { int err; Val v; };
/* Load the same text from memory. */
static Out memory(mc::Ctx &m, gen::Case &c, const std::string &text) {
	env::Cfg cfg(c.cfg); Out o; env::LoadRes r = env::load(m, cfg, c.s, text); o.err = r.err;
	if (!r.err) { Reader rd(m, cfg.heap, "load from memory"); o.v = rd.top(*c.top, r.data, r.count); rd.finish(0); if (r.data) env::release(m, cfg, c.s, r.data, r.count); }
	return o;
}
static Out file(mc::Ctx &m, gen::Case &c, const char *path, env::Cfg &cfg) {
	Out o; env::LoadRes r = env::load_file(m, cfg, c.s, path); o.err = r.err;
	if (!r.err) { Reader rd(m, cfg.heap, "load from file"); o.v = rd.top(*c.top, r.data, r.count); rd.finish(0); if (r.data) env::release(m, cfg, c.s, r.data, r.count); }
	if (cfg.heap.live()) m.fail("%zu block(s) left", cfg.heap.live());
	return o;
}
static void equal(mc::Ctx &m, gen::Case &c, const Out &a, const Out &b) {
	if (a.err != b.err) m.fail("loading the file gives %s, loading its bytes %s", env::ename(b.err), env::ename(a.err));
	if (!a.err) { if (c.top->ptr() && a.v.k != b.v.k) m.fail("one load gave no data"); same(m, *c.top, a.v, b.v, "load from file"); }
}
static void scripted(mc::Ctx &m, gen::Case &c, const Out &mem, io::File &f, bool oom = false) {
	io::Use u(f); env::Cfg cfg(c.cfg);
	if (m.tracing()) { std::string k; for (size_t x : f.cuts) k += mc::fmt(" %zu", x); m.note("reads cut at:%s; chunks of %zu; failing at offset %ld, call %ld\n", k.c_str(), f.chunk, f.fail_offset, f.fail_call); }
	Out o = file(m, c, "scripted.yaml", cfg);
	io::closed_once(m, f);
	(void)oom;
	if (f.failed) { if (!o.err) m.fail("load succeeded although reading the file failed"); m.count("failing reads or opens"); }
	else equal(m, c, mem, o);
	m.outcome((uint64_t)o.err); m.outcome((uint64_t)f.failed);
}
/* Short documents: every way of splitting them. */
static const char *const TINY[] = {"a: 1\nb: x\n", "{a: 2, b: é}", "a: 3\n...\n", "a: x\n", "a: 1\nb: \"\\u20", "", "---\na: 7\nb: |\n t", "\xef\xbb\xbf" "a: 5\n", "a: *n\nb: 1", "%YAML 1.1\n---\na: 1", "a: 1\r\nb: 2\r\n", "a: \xe2\x82\xac\nb: y", "a: &n 1\nb: *n\n", "b: ~\na: 9", "a: \xc3"};
static void tiny_schema(gen::Case &c) {
	c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); c.top->fields.resize(2);
	c.top->fields[0].key = "a"; c.top->fields[0].t = c.a.t(CYAML_INT, 0, 4);
	c.top->fields[1].key = "b"; c.top->fields[1].t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER_NULL_STR | CYAML_FLAG_OPTIONAL, 1); c.top->fields[1].t->smax = CYAML_UNLIMITED;
	c.s = lower(c.a, *c.top);
}
static void splits(mc::Ctx &m) {
	int i = m.pick((int)(sizeof TINY / sizeof *TINY)), buf = m.pick(3);
	size_t n = std::min<size_t>(strlen(TINY[i]), m.thorough ? 16 : 11);
	io::File f; f.data = TINY[i];
	unsigned mask = (unsigned)m.pick(1 << (n > 1 ? n - 1 : 0));
	m.commit();
	for (size_t k = 1; k < n; k++) if (mask >> (k - 1) & 1) f.cuts.push_back(k);
	if (strlen(TINY[i]) > n) f.cuts.push_back(n);
	f.buffering = buf == 0 ? 0 : buf == 1 ? 1 : 3; f.bufsize = 4;
	gen::Case c; tiny_schema(c); m.outcome((uint64_t)mask << 8 | (unsigned)i);
	scripted(m, c, memory(m, c, f.data), f);
}
/* Errors at every byte and in every read call, under several ways of reading. */
static void errors(mc::Ctx &m) {
	int i = m.pick((int)(sizeof TINY / sizeof *TINY)), chunk = m.pick(4), buf = m.pick(3), kind = m.pick(3);
	io::File f; f.data = TINY[i]; f.chunk = (size_t)chunk;
	f.buffering = buf == 0 ? 0 : buf == 1 ? 1 : 3; f.bufsize = 4;
	if (kind == 0) f.fail_offset = m.pick((int)f.data.size() + 1); else if (kind == 1) f.fail_call = m.pick((int)f.data.size() + 3); else { if (chunk || buf) m.prune(); f.open_fails = true; }
	f.fail_errno = m.pick(2) ? EINTR : EIO;
	m.commit();
	gen::Case c; tiny_schema(c); m.outcome((uint64_t)i);
	scripted(m, c, memory(m, c, f.data), f);
}
/* The other encodings, with reads split, cut short and failing anywhere. */
static const char *const WIDE[] = {"a: 1\nb: x\n", "a: 3\nb: \xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\n", "", "a: x\n", "b: ['", "a: 7\n...\n---\nx\n", "a: \xe4\xbd\xa0"};
static void encodings(mc::Ctx &m) {
	int i = m.pick(7), e = 1 + m.pick(ENCODINGS - 1), buf = m.pick(3), kind = m.pick(5);
	std::string text = encode(WIDE[i], e); size_t n = text.size();
	io::File f; f.data = text; f.buffering = buf == 0 ? 0 : buf == 1 ? 1 : 3; f.bufsize = 4;
	switch (kind) {
	case 0: f.chunk = (size_t)m.pick(5); break;
	case 1: { if (n < 2) m.prune(); size_t a = (size_t)m.pick((int)n - 1) + 1, b = a + (size_t)m.pick((int)(n - a)); f.cuts = {a, b}; if (a == b) f.cuts.pop_back(); break; }
	case 2: f.fail_offset = m.pick((int)n + 1); f.chunk = (size_t)m.pick(3); break;
	case 3: f.data.resize((size_t)m.pick((int)n + 1)); f.chunk = (size_t)m.pick(4); break;
	default: { if (n < 1) m.prune(); size_t at = (size_t)m.pick((int)n); f.data[at] = (char)(m.pick(2) ? 0xd8 : 0xff); f.chunk = (size_t)m.pick(2); }
	}
	m.commit();
	gen::Case c; tiny_schema(c); m.outcome(f.data);
	scripted(m, c, memory(m, c, f.data), f);
}
/* Larger documents: one split anywhere near the sizes of the buffers, uniform chunks, errors there. */
static void large(mc::Ctx &m) {
	static const size_t L[] = {100, 1023, 4000, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 20000, 32768, 40000, 65536, 70001};
	static const size_t CH[] = {0, 1, 2, 3, 7, 512, 1000, 4095, 4096, 4097, 16383, 16384, 16385};
	size_t len = L[m.pick(15)]; int kind = m.pick(4), form = m.pick(3);
	io::File f;
	gen::Case c; c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); c.top->smax = CYAML_UNLIMITED;
	c.top->entry = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); c.top->entry->smax = CYAML_UNLIMITED; c.s = lower(c.a, *c.top);
	/* many lines, or two long ones, possibly of multi-byte characters */
	if (form == 0) { for (size_t k = 0; f.data.size() < len; k++) f.data += mc::fmt("- line number %zu\n", k); }
	else { f.data = "- \""; while (f.data.size() < len / 2) f.data += form == 1 ? "x" : "\xe2\x82\xac"; f.data += "\"\n- \""; while (f.data.size() + 2 < len) f.data += form == 1 ? "y" : "\xf0\x9f\x98\x80"; f.data += "\"\n"; }
	size_t edge = (size_t)m.pick(4); static const size_t EDGE[] = {4096, 8192, 16384, 32768};
	int d = m.pick(9) - 4, enc = m.pick(m.thorough ? 3 : 2);
	if (enc) { if (len > 20000) m.prune(); f.data = encode(f.data, enc == 1 ? 2 : 3); }
	size_t at = EDGE[edge] + (size_t)(long)d;
	switch (kind) {
	case 0: f.cuts.push_back(at); if (at >= f.data.size()) m.prune(); break;
	case 1: { size_t k = edge * 9 + (size_t)(d + 4); if (k >= 13) m.prune(); f.chunk = CH[k]; if (f.chunk && f.data.size() / f.chunk > 20000) m.prune(); break; }
	case 2: f.fail_offset = (long)at; if (at > f.data.size()) m.prune(); break;
	case 3: f.cuts = {at, at + 1, at + 2, at + 3}; f.buffering = 1; if (at >= f.data.size()) m.prune(); break;
	}
	m.commit();
	m.outcome((uint64_t)len << 20 ^ at << 3 ^ (unsigned)kind ^ (unsigned)enc << 30); m.outcome(f.data.substr(0, 40));
	scripted(m, c, memory(m, c, f.data), f);
}
/* Every generated document: in one go, byte by byte, in threes, and cut where the tokens are; failing half-way. */
static void shapes(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (c.ref.unspecified) m.prune();
	io::File f; f.data = c.text;
	switch (m.pick(5)) {
	case 0: break;
	case 1: f.chunk = 1; f.buffering = 1; break;
	case 2: f.chunk = 3; break;
	case 3: for (size_t i = 1; i < c.text.size(); i++) if (!isalnum((unsigned char)c.text[i])) f.cuts.push_back(i); break;
	case 4: f.fail_offset = (long)(c.text.size() / 2); f.chunk = 2; break;
	}
	m.outcome(c.text); m.outcome(c.a.hash());
	Out mem = memory(m, c, c.text);
	verdict(m, c.ref.errs, mem.err, "load from memory");
	scripted(m, c, mem, f);
}
/* Memory failing while a file is being loaded: it is still closed once. */
static void starved(mc::Ctx &m, gen::Opt o) {
	gen::Case c; gen::make(m, c, o);
	if (c.ref.unspecified) m.prune();
	bool from = m.pick(2);
	for (long k = 0;; k++) {
		io::File f; f.data = c.text; io::Use u(f);
		env::Cfg cfg(c.cfg); if (from) cfg.heap.fail_from = k; else cfg.heap.fail_at = k;
		env::LoadRes r = env::load_file(m, cfg, c.s, "scripted.yaml");
		io::closed_once(m, f);
		if (!cfg.heap.failed) { if (!r.err && r.data) { cfg.heap.fail_from = cfg.heap.fail_at = -1; env::release(m, cfg, c.s, r.data, r.count); } break; }
		if (r.err != CYAML_ERR_OOM) m.fail("request %ld failed: %s", k, env::ename(r.err));
		m.count("failing memory requests");
	}
	for (long k = 0;; k++) {
		io::File f; f.data = c.text; io::Use u(f);
		env::Cfg cfg(c.cfg);
		env::libc_requests = 0; env::libc_fail_at = k;
		struct Off { ~Off() { env::libc_fail_at = -1; } } off;
		env::LoadRes r = env::load_file(m, cfg, c.s, "scripted.yaml");
		bool hit = env::libc_requests > k; env::libc_fail_at = -1;
		io::closed_once(m, f);
		if (!r.err && r.data) env::release(m, cfg, c.s, r.data, r.count);
		if (!hit) break;
		if (!r.err) m.fail("load succeeded although C library request %ld failed", k);
	}
	m.outcome(c.text); m.outcome(c.a.hash());
}
/* Files of the real file system, and paths that cannot be read. */
static void real(mc::Ctx &m) {
	int i = m.pick((int)(sizeof TINY / sizeof *TINY)), kind = m.pick(7), enc = kind ? 0 : m.pick(ENCODINGS);
	m.commit();
	gen::Case c; tiny_schema(c);
	std::string text = kind == 0 ? encode(TINY[i], enc) : std::string(TINY[i]), path = mc::scratch("in.yaml");
	if (kind == 1) { text = std::string(70000, '#') + "\n" + text; }
	Out mem = memory(m, c, text);
	unlink(path.c_str()); rmdir(path.c_str());
	FILE *f;
	env::Cfg cfg;
	auto put = [&] { f = fopen(path.c_str(), "wb"); fwrite(text.data(), 1, text.size(), f); fclose(f); };
	switch (kind) {
	case 0: case 1: put(); equal(m, c, mem, file(m, c, path.c_str(), cfg)); break;
	case 2: { put(); chmod(path.c_str(), 0444); equal(m, c, mem, file(m, c, path.c_str(), cfg)); f = fopen(path.c_str(), "rb"); std::string now; int ch; while ((ch = fgetc(f)) != EOF) now += (char)ch; fclose(f); if (now != text) m.fail("loading changed the file"); break; }
	case 3: { Out o = file(m, c, path.c_str(), cfg); if (o.err != CYAML_ERR_FILE_OPEN) m.fail("missing file: %s", env::ename(o.err)); break; }
	case 4: { mkdir(path.c_str(), 0700); Out o = file(m, c, path.c_str(), cfg); rmdir(path.c_str()); if (!o.err) m.fail("a directory was loaded"); break; }
	case 5: { put(); Out o = file(m, c, (path + "/x").c_str(), cfg); if (o.err != CYAML_ERR_FILE_OPEN) m.fail("path below a file: %s", env::ename(o.err)); break; }
	case 6: { Out o = file(m, c, "/dev/null", cfg), e = memory(m, c, ""); equal(m, c, e, o); break; }
	}
	unlink(path.c_str());
	m.outcome((uint64_t)kind * 100 + (unsigned)i + (unsigned)enc * 10000);
}
static void scaled(mc::Ctx &m) {
	static const size_t CH[] = {0, 4095, 4097, 255, 256};
	int k = m.pick(m.thorough ? 5 : 3), err = m.pick(2); gen::Case c; scale(m, c);
	io::File f; f.data = c.text; f.chunk = CH[k]; if (err) f.fail_offset = (long)c.text.size() - 1;
	scripted(m, c, memory(m, c, c.text), f);
	m.outcome(c.a.hash());
}
static void build(std::vector<mc::Family> &f, bool th) {
	f.push_back({"splits", "15 short documents, split in every possible way over their first 11 (16) bytes, under three buffer settings", splits, 0, 0});
	f.push_back({"errors", "15 short documents with a read error at every byte offset and in every read call, or at open, under 4 chunk sizes, 3 buffer settings and 2 error numbers", errors, 0, 0});
	f.push_back({"encodings", "7 short documents in 6 other encodings (byte order marks, UTF-16 of both orders, other line breaks), split at any one or two places, failing at, cut off at or damaged at every byte, under three buffer settings", encodings, 0, 0});
	f.push_back({"large", "documents of 100 to 70001 bytes, those up to 20000 also as UTF-16, split or failing within 4 bytes of 4096, 8192, 16384 and 32768, and in 13 uniform chunk sizes", large, 0, 0});
	{ gen::Opt o; o.nodes = 3; o.invalid = true; o.vary_leaf = o.vary_layout = false;
	  f.push_back({"shapes", "every generated document, conforming or not, of up to 3 schema nodes within the bound, read in 5 ways", [o](mc::Ctx &m) { shapes(m, o); }, 2, 3}); }
	{ gen::Opt o; o.nodes = th ? 4 : 3; o.invalid = true; o.vary_leaf = o.vary_layout = o.vary_style = o.vary_names = false;
	  f.push_back({"starved", "every memory request of the client's function (alone, or with the rest) or of libyaml failing while loading from a file", [o](mc::Ctx &m) { starved(m, o); }, 1, 2}); }
	f.push_back({"scale", std::string(SCALE) + ", in 3 (5) sizes of reads, with and without an error at the last byte", scaled, 0, 0});
	f.push_back({"real files", "regular, read-only, missing and empty files, directories and paths below files", real, 0, 0});
}
const mc::Prop mc::PROP = {"C18", "A case is a document and a script for its file (how reads are split, which read or open fails); loading it is compared with loading its bytes from memory, and opens are matched with closes.", build};
