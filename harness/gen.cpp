#include "gen.hpp"
#include <algorithm>

namespace gen {
using namespace md;
using mc::fmt;

/* ---------------------------------------------------------------- leaves */

enum {
	P_INT4, P_INT1, P_INT2, P_INT3, P_INT8, P_INT4R, P_UINT4, P_UINT1, P_UINT2, P_UINT5, P_UINT8, P_UINT2R,
	P_BOOL1, P_BOOL4, P_FLT4, P_FLT8, P_FLT4S, P_STRP, P_STRE, P_STRPL, P_STREL, P_ENUM4, P_ENUM8S, P_ENUM1, P_ENUM2,
	P_FLAGS4, P_FLAGS1S, P_FLAGS8, P_BITF4, P_BITF8, P_BITF1, P_EMPTYMAP, P_BOOL8, P_FLT8S, N_PROF
};
int profiles() { return N_PROF; }

T *leaf(Arena &a, int p) {
	auto I = [&](uint32_t n) { return a.t(CYAML_INT, 0, n); };
	auto U = [&](uint32_t n) { return a.t(CYAML_UINT, 0, n); };
	T *t;
	switch (p) {
	case P_INT4: return I(4);
	case P_INT1: return I(1);
	case P_INT2: return I(2);
	case P_INT3: return I(3);
	case P_INT8: return I(8);
	case P_INT4R: t = I(4); t->imin = -20; t->imax = 120; return t;
	case P_UINT4: return U(4);
	case P_UINT1: return U(1);
	case P_UINT2: return U(2);
	case P_UINT5: return U(5);
	case P_UINT8: return U(8);
	case P_UINT2R: t = U(2); t->umin = 5; t->umax = 300; return t;
	case P_BOOL1: return a.t(CYAML_BOOL, 0, 1);
	case P_BOOL4: return a.t(CYAML_BOOL, 0, 4);
	case P_BOOL8: return a.t(CYAML_BOOL, 0, 8);
	case P_FLT4: return a.t(CYAML_FLOAT, 0, 4);
	case P_FLT8: return a.t(CYAML_FLOAT, 0, 8);
	case P_FLT4S: return a.t(CYAML_FLOAT, CYAML_FLAG_STRICT, 4);
	case P_FLT8S: return a.t(CYAML_FLOAT, CYAML_FLAG_STRICT, 8);
	case P_STRP: t = a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->smax = CYAML_UNLIMITED; return t;
	case P_STRE: t = a.t(CYAML_STRING, 0, 9); t->smax = 8; return t;
	case P_STRPL: t = a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->smin = 2; t->smax = 6; return t;
	case P_STREL: t = a.t(CYAML_STRING, 0, 16); t->smin = 1; t->smax = 6; return t;
	case P_ENUM4: case P_ENUM8S: case P_ENUM1: case P_ENUM2:
		t = a.t(CYAML_ENUM, p == P_ENUM8S ? CYAML_FLAG_STRICT : 0, p == P_ENUM4 ? 4 : p == P_ENUM8S ? 8 : p == P_ENUM1 ? 1 : 2);
		t->strs = {{"one", 1}, {"two", 2}, {"neg", -3}, {"last", p == P_ENUM1 ? 127 : p == P_ENUM2 ? -32768 : p == P_ENUM4 ? 2147483647 : INT64_MIN}};
		return t;
	case P_FLAGS4: case P_FLAGS1S: case P_FLAGS8:
		t = a.t(CYAML_FLAGS, p == P_FLAGS1S ? CYAML_FLAG_STRICT : 0, p == P_FLAGS4 ? 4 : p == P_FLAGS1S ? 1 : 8);
		t->strs = {{"ra", 1}, {"rb", 2}, {"rc", 16}, {"rtop", p == P_FLAGS4 ? 0x80000000ll : p == P_FLAGS1S ? 0x80 : INT64_MIN}};
		return t;
	case P_BITF4: t = a.t(CYAML_BITFIELD, 0, 4); t->bits = {{"lo", 0, 3}, {"one", 3, 1}, {"mid", 4, 20}, {"hi", 24, 8}}; return t;
	case P_BITF8: t = a.t(CYAML_BITFIELD, 0, 8); t->bits = {{"lo", 0, 31}, {"mid", 31, 2}, {"hi", 33, 30}, {"top", 63, 1}}; return t;
	case P_BITF1: t = a.t(CYAML_BITFIELD, 0, 1); t->bits = {{"lo", 0, 4}, {"hi", 5, 3}}; return t;
	case P_EMPTYMAP: return a.t(CYAML_MAPPING, 0, 1);
	}
	return I(4);
}

static Node S(const std::string &s) { return Node::sc(s); }
static Node Q(std::initializer_list<Node> l) { Node n = Node::seq(); for (auto &x : l) n.add(x); return n; }
static Node M(std::initializer_list<std::pair<Node, Node>> l) { Node n = Node::map(); for (auto &x : l) { n.kids.push_back(x.first); n.kids.push_back(x.second); } return n; }

static void candidates(const T &t, std::vector<Node> &v) {
	auto add = [&](std::initializer_list<const char *> l) { for (auto s : l) v.push_back(S(s)); };
	auto num = [&](__int128 x) {
		bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128)x : x; std::string r;
		do { r.insert(r.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
		v.push_back(S((n ? "-" : "") + r));
	};
	switch (t.type) {
	case CYAML_INT: {
		add({"42", "7", "99", "13"});
		__int128 hi = ((__int128)1 << (t.size * 8 - 1)) - 1, lo = -hi - 1;
		num(hi); num(lo); num(hi + 1); num(lo - 1); num(-1); num(0); num(2 * hi + 1); num(2 * hi + 2);
		if (t.imin || t.imax) { num(t.imin); num(t.imax); num(t.imin - 1); num(t.imax + 1); }
		add({"0x1F", "-0x1f", "0117", "+5", "", "x", "1x", "0x", "08", "1.0", "1e3", "--1", "18446744073709551616", "18446744073709551658",
			"99999999999999999999999", "-9223372036854775809", "~", "null", "-"});
		break; }
	case CYAML_UINT: {
		add({"42", "7", "99", "13"});
		__int128 hi = ((__int128)1 << (t.size * 8)) - 1;
		num(hi); num(hi + 1); num(hi / 2 + 1); num(0); num(-1); num(-(hi / 2)); num(2 * hi); num(-hi);
		if (t.umin || t.umax) { num(t.umin); num(t.umax); num((__int128)t.umin - 1); num(t.umax + 1); }
		add({"0x1F", "0XfF", "0117", "+5", "", "x", "1x", "0x", "08", "1.0", "-0x1", "18446744073709551616", "18446744073709551658",
			"99999999999999999999999", "-9223372036854775808", "-18446744073709551615", "~", "null"});
		break; }
	case CYAML_BOOL:
		add({"true", "yes", "false", "1", "no", "No", "OFF", "disable", "dISABLE", "0", "on", "enable", "True", "", "x", "00", "falsee", "n", "~", "null"});
		break;
	case CYAML_FLOAT:
		add({"1.5", "-2.25", "8", "0.1", "3.25e4", "1e-3", "-0.0", "3.4028235e38", "3.4028236e38", "1e39", "-1e39", "1e-46", "1e-40", "1e400", "1e-400",
			"16777217", "0.30000000000000004", "1.7976931348623157e308", "inf", "-inf", "0x1p3", "", "x", "1.5x", "1,5", "1.5.5", "~", "null", "--1"});
		break;
	case CYAML_STRING:
		add({"abc", "de", "fghi", "jk", "", "x", "123456", "1234567", "12345678", "123456789", "a b", "a: b", "- a", "# a", " a ", "~", "null", "Null", "NULL", "nULL", "l1\nl2", "t\t",
			"\"q\"", "'", "\xc3\xa9t\xc3\xa9", "true", "42"});
		v.push_back(S(std::string(300, 'z')));
		break;
	case CYAML_ENUM:
		add({"one", "two", "neg", "last", "ONE", "Neg", "onee", "on", "7", "-3", "1", "128", "-129", "127", "32768", "-32769", "2147483648", "9223372036854775808", "9223372036854775807", "0x10", "zzz", "", "~", "null", "1x"});
		break;
	case CYAML_FLAGS:
		v = {Q({S("ra"), S("rc")}), Q({S("rb")}), Q({S("rtop"), S("ra")}), Q({S("rc"), S("rb"), S("ra")}), Q({}), Q({S("ra"), S("ra")}), Q({S("RA")}), Q({S("8")}), Q({S("ra"), S("0x40")}),
			Q({S("0")}), Q({S("255")}), Q({S("256")}), Q({S("4294967295")}), Q({S("4294967296")}), Q({S("18446744073709551615")}), Q({S("18446744073709551616")}), Q({S("-1")}), Q({S("zz")}),
			Q({S("ra"), S("zz"), S("rb")}), Q({S("")}), S("ra"), S(""), S("~"), S("null"), M({}), M({{S("ra"), S("1")}}), Q({Q({S("ra")})}), Q({S("ra"), M({{S("rb"), S("1")}})}), Q({S("ra"), Q({})}), Q({M({})})};
		break;
	case CYAML_BITFIELD:
		v = {M({{S("lo"), S("5")}, {S("hi"), S("3")}}), M({{S("hi"), S("6")}}), M({{S("hi"), S("1")}, {S("lo"), S("2")}}), M({{S("lo"), S("7")}}), M({}), M({{S("lo"), S("0")}}), M({{S("LO"), S("1")}}),
			M({{S("lo"), S("15")}}), M({{S("lo"), S("16")}}), M({{S("lo"), S("8")}}), M({{S("lo"), S("2147483647")}}), M({{S("lo"), S("2147483648")}}), M({{S("hi"), S("255")}}), M({{S("hi"), S("256")}}), M({{S("hi"), S("8")}}),
			M({{S("hi"), S("1073741823")}}), M({{S("hi"), S("1073741824")}}), M({{S("mid"), S("3")}, {S("hi"), S("1")}}), M({{S("top"), S("1")}}), M({{S("top"), S("2")}}), M({{S("one"), S("1")}, {S("mid"), S("1048575")}}), M({{S("one"), S("2")}}),
			M({{S("lo"), S("-1")}}), M({{S("lo"), S("")}}), M({{S("lo"), S("x")}}), M({{S("zz"), S("1")}}), M({{S("lo"), S("1")}, {S("zz"), S("1")}}), M({{S("lo"), Q({S("1")})}}), M({{S("lo"), M({})}}), M({{Q({S("lo")}), S("1")}}),
			M({{M({}), S("1")}}), M({{S("lo"), S("18446744073709551616")}}), S("5"), S(""), S("~"), S("null"), Q({}), Q({S("lo")})};
		break;
	case CYAML_MAPPING:
		v = {M({}), S(""), S("~"), S("null"), S("x"), Q({}), M({{S("k"), S("1")}}), M({{S(""), S("1")}})};
		break;
	case CYAML_IGNORE:
		v = {S("x"), S(""), Q({}), M({}), Q({S("1"), Q({S("2")}), M({{S("a"), S("3")}})}), M({{S("a"), S("1")}, {S("b"), Q({S("2"), M({})})}}), M({{S("k0"), S("1")}, {S("k0"), S("2")}}), Q({Q({Q({})})})};
		break;
	default: break;
	}
	if (t.type != CYAML_IGNORE && t.type != CYAML_FLAGS && t.type != CYAML_BITFIELD && t.type != CYAML_MAPPING) {
		v.push_back(Q({})); v.push_back(Q({S("1")})); v.push_back(M({})); v.push_back(M({{S("a"), S("1")}}));
	}
}
const Texts &texts(const T &t, int profile) {
	static std::map<std::pair<int, unsigned>, Texts> cache;
	unsigned fl = t.flags & (CYAML_FLAG_POINTER_NULL_STR | CYAML_FLAG_CASE_INSENSITIVE | CYAML_FLAG_CASE_SENSITIVE | CYAML_FLAG_STRICT);
	auto key = std::make_pair(profile, fl);
	auto it = cache.find(key);
	if (it != cache.end()) return it->second;
	Texts x; std::vector<Node> v;
	candidates(t, v);
	for (auto &n : v) {
		Ref r = ref_load(t, &n, 0);
		if (r.unspecified) continue;
		(r.ok() ? x.good : x.bad).push_back(n);
	}
	return cache.emplace(key, x).first->second;
}

/* ---------------------------------------------------------------- schemas */

void Gen::indirection(T &t, Pos pos) {
	const unsigned kinds[] = {0, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR};
	bool must = pos == TOP || (t.type == CYAML_STRING && t.ptr());
	if (t.type == CYAML_IGNORE) return;
	unsigned base = t.flags & ~(unsigned)CYAML_FLAG_POINTER_NULL_STR, f = must ? CYAML_FLAG_POINTER : 0;
	bool vary = o.vary_ind && !(pos == TOP && !o.top_null);
	if (t.type == CYAML_SEQUENCE) {
		f = CYAML_FLAG_POINTER;
		if (vary) switch (ch(pos == TOP ? 3 : 4)) {
		case 1: if (o.nulls) f = CYAML_FLAG_POINTER_NULL; break;
		case 2: if (o.nulls) f = CYAML_FLAG_POINTER_NULL_STR; break;
		case 3: f = 0; t.smax = 3; break;
		}
	} else if (vary) {
		if (must) { int k = ch(o.nulls ? 3 : 1); f = kinds[1 + k]; }
		else f = kinds[ch(o.nulls ? 4 : 2)];
	}
	/* An embedded string needs its own size; a pointer to it keeps the limit. */
	t.flags = base | f;
}

static const char *const KEYS[][6] = {
	{"k0", "k1", "k2", "k3", "k4", "k5"},
	{"k", "ke", "key", "key2", "keys", "keystone"},
	{"K", "k", "kA", "ka", "Ka", "KA"},
	{"", " ", "a b", "a: b", "- x", "# y"},
	{"\xc3\xa9", "\xc3\x89", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "e\xcc\x81", "\xc4\xb1"},
	{"~", "null", "<<", "1", "true", "*"},
};
void Gen::names(T &t) {
	int k = o.vary_names ? m.choose(8) : 0;
	for (size_t i = 0; i < t.fields.size(); i++) {
		if (k < 6) t.fields[i].key = i < 6 ? KEYS[k][i] : fmt("k%zu", i);
		else if (k == 6) t.fields[i].key = std::string(i + 1 == t.fields.size() ? 121 : 120, 'x') + fmt("%zu", i);
		else { t.fields[i].key = fmt("k%zu", t.fields.size() - 1 - i); t.flags |= CYAML_FLAG_CASE_INSENSITIVE; }
	}
}

Val Gen::sample(const T &t) {
	std::function<Node(const T &)> d = [&](const T &x) -> Node {
		if (x.type == CYAML_MAPPING) { Node n = Node::map(); for (auto &f : x.fields) n.add(f.key, d(*f.t)); return n; }
		if (x.is_seq()) { Node n = Node::seq(); uint32_t c = x.type == CYAML_SEQUENCE_FIXED ? x.smax : std::max<uint32_t>(x.smin, std::min<uint32_t>(x.smax, 3)); for (uint32_t i = 0; i < c; i++) n.add(d(*x.entry)); return n; }
		if (x.type == CYAML_IGNORE) return S("x");
		const Texts &q = texts(x, prof[&x]);
		return q.good[(size_t)(inst++) % std::min<size_t>(q.good.size(), 2)];
	};
	Node n = d(t);
	Ref r = ref_load(t, &n, 0);
	return r.v;
}
void Gen::defaults(T &t) {
	switch (t.type) {
	case CYAML_INT: t.imiss = t.size == 1 ? -5 : t.imin ? 17 : -1234; break;
	case CYAML_ENUM: t.imiss = 2; break;
	case CYAML_UINT: t.umiss = t.size == 1 ? 200 : t.umin ? 17 : 54321; break;
	case CYAML_FLAGS: t.umiss = 17; break;
	case CYAML_BITFIELD: t.umiss = 0x63; break;
	case CYAML_BOOL: t.bmiss = true; break;
	case CYAML_FLOAT: t.fmiss = -2.5; break;
	case CYAML_STRING: t.has_smiss = true; t.smiss = "dflt"; break;
	case CYAML_MAPPING: case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: t.has_miss = true; t.miss = sample(t); break;
	default: break;
	}
}

T *Gen::schema(Pos pos, int reserve) {
	left--;
	int room = left - reserve;
	/* 0 leaf, 1 mapping, 2 fixed sequence, 3 sequence */
	int kinds = room <= 0 ? 1 : pos == ENTRY ? 3 : 4;
	int k = m.pick(kinds);
	T *t;
	if (k == 0) {
		leaves++;
		int extra = (pos == FIELD && o.ignore) ? 1 : 0;
		int p = o.vary_leaf ? ch(N_PROF + extra) : 0;
		t = p == N_PROF ? c.a.t(CYAML_IGNORE, 0, 0) : leaf(c.a, p);
		prof[t] = p;
		indirection(*t, pos);
		return t;
	}
	if (k == 1) {
		t = c.a.t(CYAML_MAPPING);
		int n = 1 + m.pick(std::min(room, o.max_fields));
		t->fields.resize(n);
		t->reverse = o.vary_layout ? m.choose(2) : false;
		names(*t);
		for (int i = 0; i < n; i++) {
			Field &f = t->fields[i];
			f.t = schema(FIELD, reserve + (n - 1 - i));
			if (o.vary_layout) f.gap = (uint8_t)m.among({0, 1, 7, 64});
			if (f.t->type == CYAML_SEQUENCE) {
				if (o.vary_count) f.cnt_size = (uint8_t)m.among({4, 1, 2, 8, 3});
				if (o.vary_layout) f.cnt_first = m.flip();
				if (o.vary_layout) f.cnt_gap = (uint8_t)m.among({0, 3});
			}
			if (o.vary_presence) {
				/* 0 required, 1 optional, 2 optional with default (or the other way round) */
				int q = m.choose(o.vary_default ? 3 : 2);
				if (o.all_optional) q = o.default_defaults ? (q == 0 ? 2 : q - 1) : q == 0 ? 1 : q == 1 ? 0 : 2;
				if (q) f.t->flags |= CYAML_FLAG_OPTIONAL;
				if (q == 2) defaults(*f.t);
			} else if (o.all_optional) { f.t->flags |= CYAML_FLAG_OPTIONAL; if (o.default_defaults) defaults(*f.t); }
		}
	} else {
		t = c.a.t(k == 2 ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE);
		if (k == 2) t->smin = t->smax = 2; else { t->smin = 0; t->smax = CYAML_UNLIMITED; }
		t->entry = schema(ENTRY, reserve);
	}
	indirection(*t, pos);
	if (o.vary_limits && k == 2) { int q = m.choose(3); if (q) t->smin = t->smax = q == 1 ? 1 : 3; }
	if (o.vary_limits && k == 3) switch (m.choose(4)) {
	case 1: t->smin = 2; t->smax = 2; break;
	case 2: t->smin = 1; break;
	case 3: t->smax = std::min<uint32_t>(t->smax, 3); break;
	}
	return t;
}

/* ---------------------------------------------------------------- documents */

Node Gen::wrong(const T &t) {
	if (t.type == CYAML_MAPPING) switch (m.pick(5)) {
	case 0: return S("x"); case 1: return S(""); case 2: return Q({}); case 3: return Q({S("k0")}); default: return S("null"); }
	switch (m.pick(5)) { case 0: return S("x"); case 1: return S(""); case 2: return M({}); case 3: return M({{S("0"), S("1")}}); default: return S("null"); }
}

Node Gen::doc(const T &t, bool plain) {
	int me = inst++;
	if (t.type != CYAML_MAPPING && !t.is_seq()) {
		/* Leaf (also empty mapping and IGNORE). */
	} else if (t.type == CYAML_MAPPING && t.fields.empty()) {
	} else {
		/* Container: possibly NULL or of the wrong kind. */
		if (o.vary_text && (t.null_ok() || o.invalid)) {
			int n = (t.null_ok() ? t.null_str() ? 5 : 1 : 0) + (o.invalid ? 1 : 0);
			int q = m.choose(1 + n);
			if (q) {
				static const char *const nulls[] = {"", "~", "null", "Null", "NULL"};
				if (q == n && o.invalid) return wrong(t);
				return S(nulls[q - 1]);
			}
		}
		if (t.type == CYAML_MAPPING) {
			Node n = Node::map();
			std::vector<Node> vals; std::vector<int> order;
			for (size_t i = 0; i < t.fields.size(); i++) {
				const Field &f = t.fields[i];
				bool present = true;
				if (f.t->optional()) present = !m.choose(2);
				else if (o.invalid) present = !m.choose(2);
				vals.push_back(present ? doc(*f.t, plain) : Node());
				if (present) order.push_back((int)i);
			}
			if (o.vary_order && order.size() > 1) {
				int q = m.choose(order.size() == 2 ? 2 : 3);
				if (q == 1) std::reverse(order.begin(), order.end());
				if (q == 2) std::rotate(order.begin(), order.begin() + 1, order.end());
			}
			for (int i : order) n.add(t.fields[i].key, vals[i]);
			if (o.invalid) {
				/* Extra keys: at any position, unknown (with several value shapes) or a repeat of any field. */
				int extra = m.choose(2);
				if (extra) {
					size_t at = (size_t)m.pick((int)n.kids.size() / 2 + 1);
					int what = m.pick(6 + (int)t.fields.size());
					Node k = S("unknown"), v = S("1");
					switch (what) {
					case 0: break;
					case 1: v = Q({S("1"), M({{S("k0"), S("2")}})}); break;
					case 2: v = M({{S("k0"), Q({S("2")})}, {S("b"), M({})}}); break;
					case 3: k = S(""); break;
					case 4: k = Q({S("a")}); break;
					case 5: k = M({{S("k0"), S("1")}}); break;
					default: k = S(t.fields[what - 6].key); v = vals[what - 6]; break;
					}
					n.kids.insert(n.kids.begin() + 2 * at, {k, v});
				}
			}
			return n;
		}
		Node n = Node::seq();
		uint32_t cnt;
		if (t.type == CYAML_SEQUENCE_FIXED) { cnt = t.smax; if (o.invalid) { int q = m.choose(4); cnt = q == 0 ? cnt : q == 1 ? cnt + 1 : q == 2 ? cnt - 1 : 0; } }
		else {
			static const uint32_t C[] = {2, 0, 1, 3, 4, 6};
			int q = o.vary_count ? m.choose(6) : 0;
			cnt = C[q];
			if (!o.invalid) { if (cnt < t.smin || cnt > t.smax) { if (q) m.prune(); cnt = std::min(std::max(cnt, t.smin), t.smax); } }
		}
		for (uint32_t i = 0; i < cnt; i++) n.add(doc(*t.entry, plain));
		return n;
	}
	auto it = prof.find(&t);
	const Texts &x = texts(t, it == prof.end() ? 0 : it->second);
	int plainn = (int)std::min<size_t>(4, x.good.size());
	if (t.type == CYAML_IGNORE) plainn = 1;
	if (x.good.empty()) m.prune();
	int d = me % plainn;
	if (!o.vary_text) return x.good[d];
	int n = (int)x.good.size() + (o.invalid ? (int)x.bad.size() : 0);
	int q = ch_text(n);
	/* choice 0 is this instance's default text */
	if (q == 0) return x.good[d];
	if (q == d) return x.good[0];
	return q < (int)x.good.size() ? x.good[q] : x.bad[q - x.good.size()];
}

static void each(Node &n, const std::function<void(Node &, bool)> &f, bool key = false) {
	f(n, key);
	for (size_t i = 0; i < n.kids.size(); i++) each(n.kids[i], f, n.k == Node::MAP && i % 2 == 0);
}
void apply_style(Node &doc, int style) {
	int cnt = 0;
	each(doc, [&](Node &n, bool key) {
		switch (style) {
		case 1: n.flow = true; break;
		case 2: if (n.k == Node::SCALAR) n.style = DOUBLE; break;
		case 3: n.flow = true; if (n.k == Node::SCALAR) n.style = SINGLE; break;
		case 4: if (n.k == Node::SCALAR && !key) n.style = LITERAL; break;
		case 5: if (n.k == Node::SCALAR && !key) n.style = FOLDED; break;
		case 6: if (n.k != Node::ALIAS && (n.anchor.empty() || (n.anchor[0] == 'a' && isdigit((unsigned char)n.anchor[1])))) n.anchor = fmt("a%d", cnt++); break;
		case 7: if (n.k == Node::SCALAR) n.tag = "!t"; break;
		case 8: n.flow = true; if (n.k == Node::SCALAR) n.style = cnt++ % 2 ? DOUBLE : PLAIN; break;
		}
	});
}
std::string render_style(Node &doc, int style) {
	apply_style(doc, style);
	std::string t = render(doc, style == 9 ? 5 : 2);
	if (style == 9) t = "# comment\n%YAML 1.1\n---\n# another\n" + t + "...\n";
	if (style == 10) { std::string r; for (char ch : t) { if (ch == '\n') r += '\r'; r += ch; } t = "---\r\n" + r; }
	return t;
}

void finish(mc::Ctx &m, Case &c) {
	(void)m;
	c.s = lower(c.a, *c.top);
	c.text = render_style(c.doc, c.style);
	c.ref = ref_load(*c.top, &c.doc, c.cfg);
}
std::string Case::show() const {
	return "schema: " + describe(*top) + fmt("configuration flags: 0x%x\n", cfg) + "document:\n" + env::quote(text) + "\n";
}
void make(mc::Ctx &m, Case &c, const Opt &o) {
	Gen g(m, c, o);
	c.top = g.schema(Gen::TOP, 0);
	if (o.nodes - g.left < o.min_nodes) m.prune();
	g.inst = 0;
	c.doc = g.doc(*c.top);
	c.cfg = o.fixed_cfg ? o.cfg : o.vary_cfg ? m.among<unsigned>({0u, CYAML_CFG_IGNORE_UNKNOWN_KEYS, CYAML_CFG_CASE_INSENSITIVE, CYAML_CFG_NO_ALIAS, CYAML_CFG_STYLE_FLOW,
		CYAML_CFG_STYLE_BLOCK, CYAML_CFG_DOCUMENT_DELIM, CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_IGNORED_KEY_WARNING, 0x7fu & ~(unsigned)CYAML_CFG_NO_ALIAS}) : 0;
	c.style = o.vary_style ? m.choose(STYLES) : 0;
	m.commit();
	finish(m, c);
	if (m.tracing()) m.note("%s", c.show().c_str());
}

} // namespace gen
