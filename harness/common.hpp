/* Steps many properties share. */
#pragma once
#include "ladder.hpp"

namespace com {
using namespace md;

inline std::string errset(const std::set<int> &s) {
	std::string w;
	for (int e : s) w += std::string(w.empty() ? "" : " or ") + (e == ANY_ERR ? "an error" : env::ename(e));
	return w.empty() ? "success" : w;
}
/* Result code against the reference; returns whether it succeeded. */
inline bool verdict(mc::Ctx &m, const std::set<int> &want, int got, const char *what) {
	if (want.empty()) { if (got != CYAML_OK) m.fail("%s failed with %s where success was expected", what, env::ename(got)); return true; }
	if (got == CYAML_OK) m.fail("%s succeeded where %s was expected", what, errset(want).c_str());
	if (!want.count(got) && !want.count(ANY_ERR)) m.fail("%s failed with %s where %s was expected", what, env::ename(got), errset(want).c_str());
	return false;
}
/* Load, compare with the reference, free. */
inline void verify_load(mc::Ctx &m, gen::Case &c, bool keep_bad = true) {
	if (c.ref.unspecified) { m.count("behaviour not documented"); m.prune(); }
	if (!keep_bad && !c.ref.ok()) m.prune();
	if (m.tracing()) m.note("%s", c.show().substr(0, 5000).c_str());
	env::Cfg cfg(c.cfg);
	env::LoadRes r = env::load(m, cfg, c.s, c.text);
	if (m.tracing()) m.note("expected %s, got %s\n", errset(c.ref.errs).c_str(), env::ename(r.err));
	if (verdict(m, c.ref.errs, r.err, "load")) {
		check_loaded(m, cfg.heap, *c.top, c.ref.v, r.data, r.count, "load", 0);
		if (r.data) env::release(m, cfg, c.s, r.data, r.count);
		m.count("accepted");
	} else m.count("rejected");
	m.outcome(c.text); m.outcome((uint64_t)r.err); m.outcome(c.a.hash());
}

/* A case whose counts, sizes, offsets or depth pass 256 or 65536. */
inline void scale(mc::Ctx &m, gen::Case &c) { int i = m.pick(gen::scales()); m.commit(); gen::ladder_scale(c, i); gen::finish(m, c); }
/* Only the cases of one kind (see gen::scale_kind). */
inline void scale(mc::Ctx &m, gen::Case &c, int kind) {
	static std::map<int, std::vector<int>> of; auto &v = of[kind];
	if (v.empty()) for (int i = 0; i < gen::scales(); i++) if (gen::scale_kind(i) == kind) v.push_back(i);
	int i = m.pick((int)v.size()); m.commit(); gen::ladder_scale(c, v[(size_t)i]); gen::finish(m, c);
}
const char *const SCALE = "counts, sizes, offsets, tables and depths around 256, 512 and 65536; names of 15 to 65540 bytes, up to 520 anchors";

/* Put a value somewhere: 0 top level, 1 field between two others, 2 field through a pointer, 3 middle entry of a
 * sequence, 4 entry of an embedded fixed sequence, 5 sequence entry through a pointer, 6 field of a mapping that is
 * a sequence entry.  sib is the text used for the siblings that need one. */
const int PLACES = 7;
inline void place(gen::Case &c, T *t, const Node &n, const Node &sib, int pos) {
	auto byte = [&]() { return c.a.t(CYAML_UINT, 0, 1); };
	bool strp = t->type == CYAML_STRING && t->ptr();
	switch (pos) {
	case 0: t->flags |= CYAML_FLAG_POINTER; c.top = t; c.doc = n; return;
	case 2: t->flags |= CYAML_FLAG_POINTER; /* fall through */
	case 1: {
		T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
		p->fields.resize(3);
		p->fields[0].key = "before"; p->fields[0].t = byte();
		p->fields[1].key = "value"; p->fields[1].t = t;
		p->fields[2].key = "after"; p->fields[2].t = byte();
		c.doc = Node::map(); c.doc.add("before", Node::sc("17")); c.doc.add("value", n); c.doc.add("after", Node::sc("34"));
		return; }
	case 5: t->flags |= CYAML_FLAG_POINTER; /* fall through */
	case 3: {
		T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED; s->entry = t;
		c.doc = Node::seq(); c.doc.add(sib); c.doc.add(n); c.doc.add(sib); return; }
	case 4: {
		T *p = c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
		T *s = c.a.t(CYAML_SEQUENCE_FIXED); s->smin = s->smax = 2; s->entry = t;
		p->fields.resize(2);
		p->fields[0].key = "seq"; p->fields[0].t = s; p->fields[1].key = "after"; p->fields[1].t = byte();
		Node q = Node::seq(); q.add(n); q.add(sib);
		c.doc = Node::map(); c.doc.add("seq", q); c.doc.add("after", Node::sc("34")); return; }
	case 6: {
		T *s = c.top = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s->smax = CYAML_UNLIMITED;
		T *p = s->entry = c.a.t(CYAML_MAPPING);
		p->fields.resize(2);
		p->fields[0].key = "v"; p->fields[0].t = t; p->fields[1].key = "after"; p->fields[1].t = byte();
		c.doc = Node::seq();
		for (int i = 0; i < 2; i++) { Node q = Node::map(); q.add("v", i ? n : sib); q.add("after", Node::sc("34")); c.doc.add(q); }
		(void)strp;
		return; }
	}
}
/* Ways of presenting a node that say nothing about its value: 5 scalar styles (2 for collections) x 7 tags x
 * anchor or none. */
const int PRESENTATIONS = 5 * 7 * 2;
inline void present(mc::Ctx &m, Node &n, int how) {
	static const char *const S[] = {"", "!t", "!!str", "!!null", "!!int", "!", "!<tag:yaml.org,2002:bool>"}, *const C[] = {"", "!t", "!!seq", "!!map", "!!set", "!", "!<tag:x,2000:y/z>"};
	int st = how % 5, tag = how / 5 % 7;
	if (n.k == Node::SCALAR) { n.style = st; n.tag = S[tag]; }
	else { if (st > 1) m.prune(); n.flow = st; n.tag = C[tag]; }
	if (how / 35) n.anchor = "p";
}
inline std::string dec(__int128 x) {
	bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128)x : x; std::string r;
	do { r.insert(r.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
	return (n ? "-" : "") + r;
}
/* radix: 0 decimal, 1 0x, 2 0X upper case, 3 octal, 4 with plus sign, 5 hex with leading zeros */
inline std::string spell(__int128 x, int radix) {
	bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128)x : x; std::string r;
	unsigned base = radix == 0 || radix == 4 ? 10 : radix == 3 ? 8 : 16;
	do { r.insert(r.begin(), (radix == 2 ? "0123456789ABCDEF" : "0123456789abcdef")[(int)(u % base)]); u /= base; } while (u);
	if (radix == 1) r = "0x" + r;
	if (radix == 2) r = "0X" + r;
	if (radix == 5) r = "0x000" + r;
	if (radix == 3) r = "0" + r;
	return (n ? "-" : radix == 4 ? "+" : "") + r;
}
inline __int128 p2(int k) { return (__int128)1 << k; }

} // namespace com
namespace com {

/* Whether a saved node states the value the reference says it must. */
inline void same_doc(mc::Ctx &m, const T *t, const Node &want, const Node &got, const std::string &path) {
	auto bad = [&](const char *w) { m.fail("saved text at %s: expected %s, got %s (%s)", path.empty() ? "top level" : path.c_str(), describe(want).c_str(), describe(got).c_str(), w); };
	if (want.k != got.k) bad("kind");
	if (want.k == Node::SCALAR) {
		if (want.s == got.s) return;
		bool n1, n2, o1, o2; uint64_t a, b;
		auto nullish = [](const std::string &s) { return s.empty() || s == "~" || s == "null" || s == "Null" || s == "NULL"; };
		if (t && t->null_str() && (want.s == "null") && nullish(got.s)) return;
		if (t && t->type == CYAML_FLOAT) {
			char *e; if (got.s.empty()) bad("text");
			uint64_t x, y;
			if (t->size == 4) { x = float_bits(4, strtof(want.s.c_str(), nullptr)); y = float_bits(4, strtof(got.s.c_str(), &e)); }
			else { x = float_bits(8, strtod(want.s.c_str(), nullptr)); y = float_bits(8, strtod(got.s.c_str(), &e)); }
			if (*e || x != y) bad("number");
			return;
		}
		/* Numbers inside flags and bitfields may be in any base. */
		if ((!t || t->type == CYAML_FLAGS || t->type == CYAML_BITFIELD) && parse_int(want.s, n1, a, o1) && parse_int(got.s, n2, b, o2) && a == b && n1 == n2 && !o1 && !o2) return;
		if (t && t->type == CYAML_BOOL) { Node x = got; T u = *t; u.flags &= ~(unsigned)CYAML_FLAG_POINTER_NULL_STR; if (ref_load(u, &want, 0).v == ref_load(u, &x, 0).v) return; }
		bad("text");
	}
	if (want.kids.size() != got.kids.size()) bad("number of entries");
	for (size_t i = 0; i < want.kids.size(); i++) {
		const T *k = nullptr; std::string p = path;
		if (want.k == Node::MAP) {
			if (i % 2 == 0) { if (want.kids[i].s != got.kids[i].s || got.kids[i].k != Node::SCALAR) bad("key"); continue; }
			p += "/" + want.kids[i - 1].s;
			if (t && t->type == CYAML_MAPPING) for (auto &f : t->fields) if (f.key == want.kids[i - 1].s) k = f.t;
		} else { p += mc::fmt("[%zu]", i); if (t && t->is_seq()) k = t->entry; }
		same_doc(m, k, want.kids[i], got.kids[i], p);
	}
}
/* The top-level value as handed to save and copy. */
struct Src { void *p; unsigned count; };
inline Src source(env::Cfg &cfg, const T &t, const Val &v) {
	Src s; s.p = build(t, v, [&cfg](size_t n) { return cfg.heap.alloc(n); });
	s.count = t.type == CYAML_SEQUENCE ? (unsigned)v.v.size() : 0;
	return s;
}
/* Save a value, compare the text with the reference, load it again. Returns whether it was saved. */
inline bool verify_save(mc::Ctx &m, gen::Case &c, const Val &v, bool reload = true, std::string *text = nullptr) {
	SaveRef ref = ref_save(*c.top, v, c.cfg);
	if (ref.unspecified) { m.count("behaviour not documented"); m.prune(); }
	env::Cfg cfg(c.cfg);
	Src s = source(cfg, *c.top, v);
	env::SaveRes r = env::save(m, cfg, c.s, s.p, s.count);
	if (m.tracing()) m.note("value %s\nsave: expected %s, got %s\n%s", describe(v).c_str(), errset(ref.errs).c_str(), env::ename(r.err), env::quote(r.text).c_str());
	m.outcome((uint64_t)r.err); m.outcome(r.text);
	if (!verdict(m, ref.errs, r.err, "save")) { m.count("save refused"); return false; }
	Parsed p = parse_yaml(r.text);
	if (!p.ok || p.docs != 1) m.fail("saved text is not one YAML document:\n%s", env::quote(r.text).c_str());
	if (p.empty) m.fail("saved text holds no value");
	same_doc(m, c.top, ref.doc, p.doc, "");
	if (text) *text = r.text;
	if (reload) {
		env::Cfg cfg2(c.cfg);
		env::LoadRes l = env::load(m, cfg2, c.s, r.text);
		if (l.err != CYAML_OK) m.fail("saved text does not load: %s\n%s", env::ename(l.err), env::quote(r.text).c_str());
		check_loaded(m, cfg2.heap, *c.top, v, l.data, l.count, "load of saved text", 0);
		if (l.data) env::release(m, cfg2, c.s, l.data, l.count);
	}
	return true;
}
/* Wrap a leaf value like place() does, for values rather than documents. */
inline Val place_val(gen::Case &c, T *t, const Val &v, int pos) {
	place(c, t, Node(), Node(), pos);
	auto N = [](uint64_t n) { return Val::num(n); };
	Val r;
	switch (pos) {
	case 0: return v;
	case 1: case 2: r = Val::map(); r.v = {N(17), v, N(34)}; return r;
	case 3: case 5: r = Val::seq(); r.v = {v, v, v}; return r;
	case 4: { Val q = Val::seq(); q.v = {v, v}; r = Val::map(); r.v = {q, N(34)}; return r; }
	default: { r = Val::seq(); for (int i = 0; i < 2; i++) { Val q = Val::map(); q.v = {v, N(34)}; r.v.push_back(q); } return r; }
	}
}
/* Whether load can produce the value (its NULLs are all allowed). */
inline bool loadable(const T &t, const Val &v, bool optional = false) {
	if (v.k == Val::NUL || v.k == Val::ZERO) {
		if (t.ptr()) return t.null_ok() || optional || t.type == CYAML_SEQUENCE;
		return loadable(t, canon(t, v));
	}
	if (t.type == CYAML_MAPPING) { for (size_t i = 0; i < v.v.size(); i++) if (t.fields[i].t->type != CYAML_IGNORE && !loadable(*t.fields[i].t, v.v[i], t.fields[i].t->optional())) return false; }
	if (t.is_seq()) { for (auto &x : v.v) if (!loadable(*t.entry, x)) return false; }
	return true;
}
/* Whether the sequences of the data have allowed lengths and no ignored field is required (such a field cannot be
 * saved), so that what is saved can be loaded. */
inline bool lengths_ok(const T &t, const Val &v) {
	if (v.k == Val::NUL || v.k == Val::ZERO) {
		if (t.type == CYAML_SEQUENCE) return !t.smin || t.null_ok() || (t.ptr() && t.optional() && !t.has_default());
		if (t.ptr()) return true;
		return lengths_ok(t, canon(t, v));
	}
	if (t.type == CYAML_SEQUENCE && (v.v.size() < t.smin || v.v.size() > t.smax)) return false;
	if (t.type == CYAML_MAPPING) { for (size_t i = 0; i < v.v.size(); i++) if (t.fields[i].t->type == CYAML_IGNORE ? !t.fields[i].t->optional() : !lengths_ok(*t.fields[i].t, v.v[i])) return false; }
	if (t.is_seq()) { for (auto &x : v.v) if (!lengths_ok(*t.entry, x)) return false; }
	return true;
}
/* Source data whose bytes outside the values are garbage; ptr_garbage also fills the room after the entries. */
inline Src dirty_source(env::Cfg &cfg, const T &t, const Val &v, int fill) {
	Val c = t.ptr() ? (v.k == Val::NUL ? v : canon(t, v)) : canon(t, v);
	Src s; s.p = build(t, c, [&cfg, fill](size_t n) { void *p = cfg.heap.alloc(n); memset(p, fill, n); return p; });
	s.count = t.type == CYAML_SEQUENCE ? (unsigned)c.v.size() : 0;
	return s;
}
/* Copy a value; the copy must be equal, in memory of its own, and survive the source. */
inline bool verify_copy(mc::Ctx &m, gen::Case &c, const Val &v, int fill = 0, unsigned flags = 0) {
	env::Cfg cpy(flags | c.cfg);
	bool must = loadable(*c.top, v), ok;
	env::CopyRes r;
	unsigned count;
	{
		env::Cfg src(c.cfg);
		Src s = dirty_source(src, *c.top, v, fill);
		uint64_t h0 = src.heap.content_hash(); size_t l0 = src.heap.live();
		count = s.count;
		unsigned arg = c.top->type == CYAML_SEQUENCE_FIXED ? c.top->smax : count;
		r = env::copy(m, cpy, c.s, s.p, arg);
		ok = r.err == CYAML_OK;
		if (m.tracing()) m.note("value %s\ncopy: %s\n", describe(v).c_str(), env::ename(r.err));
		if (src.heap.content_hash() != h0 || src.heap.live() != l0) m.fail("copy changed its source");
		if (must && !ok) m.fail("copy failed with %s", env::ename(r.err));
		if (ok) {
			Reader rd(m, cpy.heap, "copy"); rd.exact_zero = false;
			Val got = rd.top(*c.top, r.data, count); rd.finish(0);
			same(m, *c.top, v, got, "copy");
			if (src.heap.content_hash() != h0) m.fail("reading the copy changed its source");
		}
	}
	if (ok) {      /* the source is gone */
		Reader rd(m, cpy.heap, "copy after its source was freed"); rd.exact_zero = false;
		Val got = rd.top(*c.top, r.data, count);
		same(m, *c.top, v, got, "copy after its source was freed");
		if (r.data) env::release(m, cpy, c.s, r.data, count);
		if (cpy.heap.live()) m.fail("cyaml_free of a copy left %zu block(s)", cpy.heap.live());
	}
	m.outcome((uint64_t)r.err); m.count(ok ? "copied" : "copy refused");
	return ok;
}
/* All values stored behind a pointer, innermost last. */
struct At { const T *t; Val *v; bool field; };
inline void pointers(const T &t, Val &v, std::vector<At> &out, bool field = false) {
	if (t.type == CYAML_IGNORE) return;
	if (v.k == Val::ZERO && !t.ptr()) v = canon(t, v);
	if (t.ptr()) out.push_back({&t, &v, field});
	if (v.k == Val::MAP) for (size_t i = 0; i < v.v.size(); i++) pointers(*t.fields[i].t, v.v[i], out, true);
	if (v.k == Val::SEQ) for (auto &x : v.v) pointers(*t.entry, x, out);
}
} // namespace com
