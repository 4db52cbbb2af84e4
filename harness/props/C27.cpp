// GEN: c27gen.py 6
#include "../common.hpp"
#include "c27.h"
using namespace md;

/* Structures declared in C and described with the public macros (see c27gen.py); what the calls did is read through
 * the compiler's own member accesses. */
static env::Heap *source_heap;
extern "C" void *c27_alloc(size_t n) { void *p = source_heap->alloc(n ? n : 1); memset(p, 0, n ? n : 1); return p; }

static std::vector<const c27_kind *> &kinds() {
	static std::vector<const c27_kind *> *k = nullptr;
	if (!k) {
		k = new std::vector<const c27_kind *>;
		for (const c27_kind *t : {c27_kinds_0, c27_kinds_1, c27_kinds_2, c27_kinds_3, c27_kinds_4, c27_kinds_5}) for (; t->name; t++) k->push_back(t);
	}
	return *k;
}
template <class T> static int len(const T *t) { int n = 0; while (t[n].name) n++; return n; }
static int len(const char *const *t) { int n = 0; while (t[n]) n++; return n; }
static void zeros(mc::Ctx &m, const uint8_t *p, size_t n, const char *what, const char *name) {
	for (size_t i = 0; i < n; i++) if (p[i]) m.fail("%s of %s: byte %zu of %zu, outside the members described, is %02x", what, name, i, n, p[i]);
}
/* -1: absent, which leaves zeros or, after a load (dflt), the default. */
static void verify(mc::Ctx &m, const c27_kind &k, const void *d, const int v[2], bool dflt, bool zero, const char *what) {
	for (int x = 0; x < 2; x++) {
		if (v[x] >= 0 && !k.check[x](d, v[x])) m.fail("%s of %s (layout %d): member %c does not hold %s", what, k.name, k.layout, "mn"[x], k.yaml[v[x]]);
		if (v[x] < 0 && dflt && k.has_default && !k.check[x](d, -2)) m.fail("%s of %s (layout %d): member %c does not hold the default", what, k.name, k.layout, "mn"[x]);
	}
	if (!zero) return;
	std::vector<uint8_t> c((const uint8_t *)d, (const uint8_t *)d + k.size);
	for (int x = 0; x < 2; x++) if (v[x] >= 0 || (dflt && k.has_default)) k.wipe[x](c.data());
	zeros(m, c.data(), k.size, what, k.name);
}
static void drop(mc::Ctx &m, env::Cfg &c, const cyaml_schema_value_t *s, void *d, unsigned count, const char *what) {
	env::release(m, c, s, d, count);
	if (c.heap.live()) m.fail("%s: cyaml_free left %zu block(s)", what, c.heap.live());
}
static std::string textof(const c27_kind &k, const int v[2], bool flip) {
	std::string t[2];
	for (int x = 0; x < 2; x++) if (v[x] >= 0) t[x] = std::string(1, "mn"[x]) + ": " + k.yaml[v[x]] + "\n";
	std::string r = flip ? t[1] + t[0] : t[0] + t[1];
	return r.empty() ? "{}\n" : r;
}
static const c27_kind &pick_kind(mc::Ctx &m) {
	auto &ks = kinds();
	int a = m.pick(((int)ks.size() + 31) / 32), b = m.pick(32);
	if ((size_t)(a * 32 + b) >= ks.size()) m.prune();
	return *ks[(size_t)(a * 32 + b)];
}
static void members(mc::Ctx &m) {
	const c27_kind &k = pick_kind(m);
	int n = len(k.yaml), v[2];
	v[0] = m.pick(n + 1) - 1; v[1] = m.pick(n + 1) - 1;
	m.commit();
	m.count(k.name[0] == 'F' && k.name[5] == '(' ? "generic macro" : "typed macro");
	if (m.tracing()) m.note("%s, layout %d\n%s", k.name, k.layout, textof(k, v, false).c_str());
	bool saveable = k.zero || (v[0] >= 0 && v[1] >= 0);
	for (int flip = 0; flip < 2; flip++) {          /* load */
		env::Cfg c;
		env::LoadRes r = env::load(m, c, k.schema, textof(k, v, flip));
		if (r.err != CYAML_OK) m.fail("load of %s: %s", k.name, env::ename(r.err));
		verify(m, k, r.data, v, true, true, "load");
		if (!flip && (saveable || k.has_default)) {
			env::SaveRes s = env::save(m, c, k.schema, r.data, 0);
			if (s.err != CYAML_OK) m.fail("save of the loaded %s: %s", k.name, env::ename(s.err));
			env::LoadRes r2 = env::load(m, c, k.schema, s.text);
			if (r2.err != CYAML_OK) m.fail("reload of %s: %s\n%s", k.name, env::ename(r2.err), s.text.c_str());
			verify(m, k, r2.data, v, true, true, "reload");
			env::release(m, c, k.schema, r2.data, 0);
		}
		drop(m, c, k.schema, r.data, 0, k.name);
	}
	if (!saveable) { m.outcome(textof(k, v, false)); return; }
	env::Cfg c;
	source_heap = &c.heap;
	uint8_t *src = (uint8_t *)c27_alloc(k.size);
	memset(src, 0, k.size);
	for (int x = 0; x < 2; x++) if (v[x] >= 0) k.set[x](src, v[x]);
	verify(m, k, src, v, false, true, "harness: source");
	for (int dirty = 0; dirty < 2; dirty++) {
		if (dirty) {      /* what is between the members has no influence */
			std::vector<uint8_t> keep(src, src + k.size), mask(k.size, 0xff);
			for (int x = 0; x < 2; x++) k.wipe[x](mask.data());
			for (size_t i = 0; i < k.size; i++) if (mask[i]) src[i] = 0xa5;
		}
		env::SaveRes s = env::save(m, c, k.schema, src, 0);
		if (s.err != CYAML_OK) m.fail("save of %s: %s", k.name, env::ename(s.err));
		{
			env::Cfg c2;
			env::LoadRes r = env::load(m, c2, k.schema, s.text);
			if (r.err != CYAML_OK) m.fail("load of the saved %s: %s\n%s", k.name, env::ename(r.err), s.text.c_str());
			verify(m, k, r.data, v, false, true, "load of what save wrote");
			drop(m, c2, k.schema, r.data, 0, k.name);
			m.outcome(s.text);
		}
		env::Cfg c3;
		env::CopyRes r = env::copy(m, c3, k.schema, src, 0);
		if (r.err != CYAML_OK) m.fail("copy of %s: %s", k.name, env::ename(r.err));
		verify(m, k, r.data, v, false, !dirty, "copy");
		drop(m, c3, k.schema, r.data, 0, k.name);
	}
	drop(m, c, k.schema, src, 0, k.name);          /* data made by the client */
}
static void rejected(mc::Ctx &m) {
	const c27_kind &k = pick_kind(m);
	int b = len(k.bad); if (!b) m.prune();
	int which = m.pick(2), i = m.pick(b), o = m.pick(len(k.yaml) + 1) - 1, first = m.pick(2);
	m.commit();
	std::string t = mc::fmt("%c: %s\n", "mn"[which], k.bad[i]), u = o < 0 ? "" : mc::fmt("%c: %s\n", "mn"[!which], k.yaml[o]);
	env::Cfg c;
	env::LoadRes r = env::load(m, c, k.schema, first ? t + u : u + t);
	if (r.err == CYAML_OK) m.fail("load of %s (layout %d) accepted\n%s%s", k.name, k.layout, t.c_str(), u.c_str());
	if (c.heap.live()) m.fail("failed load left %zu block(s)", c.heap.live());
	m.outcome(t); m.outcome((uint64_t)r.err);
}
static void top(mc::Ctx &m) {
	int n = len(c27_tops);
	int a = m.pick((n + 31) / 32), b = m.pick(32);
	if (a * 32 + b >= n) m.prune();
	const c27_top &t = c27_tops[a * 32 + b];
	int good = len(t.yaml), i = m.pick(good + len(t.bad));
	m.commit();
	env::Cfg c;
	std::string text = i < good ? t.yaml[i] : t.bad[i - good];
	if (m.tracing()) m.note("%s\n%s\n", t.name, text.c_str());
	env::LoadRes r = env::load(m, c, t.schema, text);
	m.outcome(text); m.outcome((uint64_t)r.err);
	if (i >= good) { if (r.err == CYAML_OK) m.fail("load of %s accepted %s", t.name, text.c_str()); return; }
	if (r.err != CYAML_OK) m.fail("load of %s: %s: %s", t.name, text.c_str(), env::ename(r.err));
	if (!t.check(r.data, r.count, i)) m.fail("%s does not hold %s", t.name, text.c_str());
	unsigned count = t.kind == 1 ? r.count : 0;
	if (t.kind != 1 || r.count) {
		env::SaveRes s = env::save(m, c, t.schema, r.data, count);
		if (s.err != CYAML_OK) m.fail("save of %s: %s", t.name, env::ename(s.err));
		env::Cfg c2; env::LoadRes q; env::CopyRes y;
		if (parse_yaml(s.text).empty) { m.count("libyaml writes an empty top-level string as nothing"); goto copy; }
		q = env::load(m, c2, t.schema, s.text);
		if (q.err != CYAML_OK || !t.check(q.data, q.count, i)) m.fail("%s does not come back from saved text\n%s", t.name, s.text.c_str());
		drop(m, c2, t.schema, q.data, q.count, t.name);
	copy:
		y = env::copy(m, c2, t.schema, r.data, t.kind == 2 ? 2 : count);
		if (y.err != CYAML_OK || !t.check(y.data, r.count, i)) m.fail("copy of %s", t.name);
		drop(m, c2, t.schema, y.data, r.count, t.name);
	}
	if (r.data) drop(m, c, t.schema, r.data, r.count, t.name);
}
/* One structure with a member for most macros. */
static void all(mc::Ctx &m) {
	int n = len(c27_members);
	std::vector<int> v((size_t)n);
	int mode = m.pick(2);     /* all absent or all present but for the deviations */
	for (int i = 0; i < n; i++) {
		int l = len(c27_members[i].yaml), x = m.choose(l + 1);
		v[(size_t)i] = mode ? (x == l ? -1 : x) : x - 1;
	}
	int order = m.choose(3);
	m.commit();
	std::string text; bool saveable = true;
	for (int j = 0; j < n; j++) {
		int i = order == 0 ? j : order == 1 ? n - 1 - j : (j * 7 + 3) % n;
		if (order == 2 && n % 7 == 0) i = j;
		if (v[(size_t)i] >= 0) text += std::string(c27_members[i].key) + ": " + c27_members[i].yaml[v[(size_t)i]] + "\n";
		else if (!c27_members[i].zero) saveable = false;
	}
	if (text.empty()) text = "{}\n";
	if (m.tracing()) m.note("%s", text.c_str());
	auto verify = [&](const uint8_t *d, const char *what) {
		for (int i = 0; i < n; i++) if (v[(size_t)i] >= 0 && !c27_members[i].check(d, v[(size_t)i])) m.fail("%s: member %s (%s) does not hold %s", what, c27_members[i].key, c27_members[i].name, c27_members[i].yaml[v[(size_t)i]]);
		std::vector<uint8_t> c(d, d + c27_all_size);
		for (int i = 0; i < n; i++) if (v[(size_t)i] >= 0) c27_members[i].wipe(c.data());
		zeros(m, c.data(), c.size(), what, "the big structure");
	};
	env::Cfg c, c2;
	env::LoadRes r = env::load(m, c, &c27_all, text);
	if (r.err != CYAML_OK) m.fail("load: %s\n%s", env::ename(r.err), text.c_str());
	verify(r.data, "load");
	if (saveable) {
		env::SaveRes s = env::save(m, c, &c27_all, r.data, 0);
		if (s.err != CYAML_OK) m.fail("save: %s", env::ename(s.err));
		env::LoadRes q = env::load(m, c2, &c27_all, s.text);
		if (q.err != CYAML_OK) m.fail("reload: %s\n%s", env::ename(q.err), s.text.c_str());
		verify(q.data, "reload");
		drop(m, c2, &c27_all, q.data, 0, "reloaded");
		env::CopyRes y = env::copy(m, c2, &c27_all, r.data, 0);
		if (y.err != CYAML_OK) m.fail("copy: %s", env::ename(y.err));
		verify(y.data, "copy");
		drop(m, c2, &c27_all, y.data, 0, "copy");
	}
	drop(m, c, &c27_all, r.data, 0, "loaded");
	m.outcome(text);
}
static void build(std::vector<mc::Family> &f, bool) {
	f.push_back({"members", mc::fmt("%zu structures with two optional members of one kind (public macro x C type x count type x normal, packed or tight layout), both members absent or with every one of up to 7 values: load in both orders, save, reload, copy, free, of loaded and of client-made data, clean and with garbage between the members", kinds().size()), members, 0, 0});
	f.push_back({"rejected", "the same structures with every text listed as not fitting the member's type or limits, in either member, before or after every value of the other", rejected, 0, 0});
	f.push_back({"top", mc::fmt("%d top-level schemas from the CYAML_VALUE macros x every value and every unfitting text: load, save, reload, copy, free", len(c27_tops)), top, 0, 0});
	f.push_back({"all", mc::fmt("a structure of %d members, one per macro and element kind: all absent or all present, any 1 (thorough 2) members otherwise, in 3 orders", len(c27_members)), all, 1, 2});
}
const mc::Prop mc::PROP = {"C27", "A case is a C structure declared with the public macros and compiled by the C compiler, and a document; members are read by C expressions naming them.", build};
