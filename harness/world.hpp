/* A fixed set of schemas, configurations and documents, with the outcome of each call made alone. */
#pragma once
#include "common.hpp"
namespace world {
using namespace md;
using namespace com;

inline Node S(const std::string &s) { return Node::sc(s); }
/* Five schemas, three configurations, the documents and what each load must give. */
struct World {
	static const int N = 5; Arena a; T *s[N]; std::vector<Node> docs[N]; std::vector<std::string> text[N];
	unsigned flags[3] = {0, CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_IGNORED_KEY_WARNING | CYAML_CFG_CASE_INSENSITIVE, CYAML_CFG_NO_ALIAS | CYAML_CFG_DOCUMENT_DELIM | CYAML_CFG_STYLE_FLOW};
	uint64_t schema_hash;
	struct Ld { Ref ref; int code; std::string saved; int save_code; };
	std::map<int, Ld> ld;
	const Ld &get(mc::Ctx &m, int k, int d, int c);
	World();
};
inline World::World() {
	auto str = [&](unsigned f) { T *t = a.t(CYAML_STRING, CYAML_FLAG_POINTER | f, 1); t->smax = CYAML_UNLIMITED; return t; };
	auto add = [&](T *p, const char *k, T *t) { Field f; f.key = k; f.t = t; p->fields.push_back(f); };
	/* 0: a mapping with everything */
	T *p = s[0] = a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
	T *u = a.t(CYAML_UINT, CYAML_FLAG_OPTIONAL, 2); u->umiss = 777; add(p, "num", u);
	T *n = str(CYAML_FLAG_OPTIONAL | CYAML_FLAG_POINTER_NULL_STR); n->has_smiss = true; n->smiss = "dflt"; add(p, "name", n);
	T *e = a.t(CYAML_ENUM, CYAML_FLAG_OPTIONAL | CYAML_FLAG_STRICT, 4); e->strs = {{"zero", 0}, {"one", 1}, {"ten", 10}}; add(p, "en", e);
	T *fl = a.t(CYAML_FLOAT, CYAML_FLAG_OPTIONAL | CYAML_FLAG_STRICT, 4); add(p, "fl", fl);
	T *fs = a.t(CYAML_FLAGS, CYAML_FLAG_OPTIONAL, 4); fs->strs = {{"ra", 1}, {"rb", 6}}; add(p, "flags", fs);
	T *bf = a.t(CYAML_BITFIELD, CYAML_FLAG_OPTIONAL, 8); bf->bits = {{"lo", 0, 7}, {"hi", 60, 4}}; add(p, "bits", bf);
	T *q = a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL); q->smax = 4;
	T *qm = a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); add(qm, "k", str(0)); T *in = a.t(CYAML_INT, CYAML_FLAG_OPTIONAL, 8); in->imiss = -9; add(qm, "v", in); q->entry = qm; add(p, "list", q);
	auto kv = [&](const char *k, const char *v) { Node x = Node::map(); x.add("k", S(k)); if (v) x.add("v", S(v)); return x; };
	auto L = [&](std::initializer_list<Node> l) { Node x = Node::seq(); for (auto &y : l) x.add(y); return x; };
	auto M = [&](std::initializer_list<std::pair<const char *, Node>> l) { Node x = Node::map(); for (auto &y : l) x.add(y.first, y.second); return x; };
	Node bits = M({{"lo", S("99")}, {"hi", S("0xf")}});
	auto &D = docs[0];
	D.push_back(M({{"num", S("12")}, {"name", S("fred")}, {"en", S("ten")}, {"fl", S("0.1")}, {"flags", L({S("rb"), S("0x10")})}, {"bits", bits}, {"list", L({kv("a", "1"), kv("b", nullptr)})}}));   /* 0 everything */
	D.push_back(M({}));                                                                                  /* 1 defaults only */
	{ Node x = kv("sh", "5"); x.anchor = "x"; Node y = S("77"); y.anchor = "n"; D.push_back(M({{"num", y}, {"name", S("~")}, {"list", L({x, Node::alias("x"), kv("c", "-1")})}, {"fl", S("1e3")}})); }   /* 2 aliases */
	D.push_back(M({{"num", S("1")}, {"other", L({S("a"), M({{"b", S("c")}})})}, {"name", S("after")}})); /* 3 unknown key */
	D.push_back(M({{"name", S("x")}, {"list", L({kv("a", "1"), kv("b", "99999999999999999999")})}}));     /* 4 out of range */
	D.push_back(M({{"name", S("x")}, {"fl", S("1e60")}}));                                                /* 5 float overflow */
	D.push_back(M({{"name", S("x")}, {"list", L({kv("a", "1"), Node::alias("zz")})}}));                   /* 6 unknown alias */
	D.push_back(M({{"NUM", S("3")}, {"Name", S("cased")}, {"EN", S("ONE")}}));                            /* 7 other case */
	D.push_back(M({{"num", S("3")}, {"name", S("y")}, {"num", S("4")}}));                                 /* 8 twice */
	D.push_back(M({{"num", S("70000")}}));                                                                /* 9 does not fit */
	/* 1: strings */
	s[1] = a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); s[1]->smin = 1; s[1]->smax = CYAML_UNLIMITED; s[1]->entry = str(CYAML_FLAG_POINTER_NULL);
	docs[1].push_back(L({S("one"), Node::sc("", SINGLE), S("three")}));
	docs[1].push_back(L({S("only")}));
	docs[1].push_back(L({S("one"), L({S("nested")})}));
	docs[1].push_back(L({}));
	/* 2: fixed numbers */
	s[2] = a.t(CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER); s[2]->smin = s[2]->smax = 2;
	T *m2 = a.t(CYAML_MAPPING); add(m2, "d", a.t(CYAML_FLOAT, 0, 8)); add(m2, "i", a.t(CYAML_INT, CYAML_FLAG_POINTER, 1)); s[2]->entry = m2;
	docs[2].push_back(L({M({{"d", S("0.1")}, {"i", S("-128")}}), M({{"i", S("127")}, {"d", S("1e-310")}})}));
	docs[2].push_back(L({M({{"d", S("0.1")}, {"i", S("128")}}), M({{"i", S("127")}, {"d", S("2")}})}));
	docs[2].push_back(L({M({{"d", S("0.1")}, {"i", S("1")}})}));
	/* 3, 4: names that differ in nothing but case, in tables of two orders; 4 ignores case wherever it can say so */
	for (int k = 3; k < 5; k++) {
		unsigned ci = k == 4 ? CYAML_FLAG_CASE_INSENSITIVE : 0;
		T *r = s[k] = a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); r->smax = CYAML_UNLIMITED;
		T *mp = r->entry = a.t(CYAML_MAPPING, ci);
		T *e2 = a.t(CYAML_ENUM, CYAML_FLAG_OPTIONAL | CYAML_FLAG_STRICT | ci, 4), *f2 = a.t(CYAML_FLAGS, CYAML_FLAG_OPTIONAL | CYAML_FLAG_STRICT | ci, 4), *b2 = a.t(CYAML_BITFIELD, CYAML_FLAG_OPTIONAL | ci, 4);
		if (k == 3) { e2->strs = {{"one", 1}, {"Ab", 2}, {"ab", 3}, {"AB", 4}}; f2->strs = {{"ra", 1}, {"RA", 2}, {"Ra", 4}}; b2->bits = {{"lo", 0, 4}, {"LO", 8, 4}}; }
		else { e2->strs = {{"AB", 14}, {"Ab", 12}, {"zzz", 1}, {"ab", 13}}; f2->strs = {{"RA", 0x10}, {"Ra", 0x20}, {"ra", 0x40}}; b2->bits = {{"LO", 4, 4}, {"lo", 12, 4}}; }
		auto addo = [&](const char *key, T *t) { Field f; f.key = key; f.t = t; f.off = 0; mp->fields.push_back(f); };
		addo("e", e2); addo("f", f2); addo("b", b2);
		T *i1 = a.t(CYAML_INT, CYAML_FLAG_OPTIONAL, 4), *i2 = a.t(CYAML_INT, CYAML_FLAG_OPTIONAL, 2); i1->imiss = -k; i2->imiss = k;
		if (k == 3) { addo("key", i1); addo("KEY", i2); } else { addo("KEY", i1); addo("key", i2); }
		docs[k].push_back(L({M({{"e", S("ab")}}), M({{"e", S("AB")}})}));
		docs[k].push_back(L({M({{"e", S("AB")}})}));
		docs[k].push_back(L({M({{"e", S("aB")}})}));
		docs[k].push_back(L({M({{"f", L({S("ra"), S("RA")})}}), M({{"f", L({S("Ra")})}})}));
		docs[k].push_back(L({M({{"b", M({{"LO", S("3")}})}}), M({{"b", M({{"lo", S("5")}})}})}));
		docs[k].push_back(L({M({{"KEY", S("3")}}), M({{"key", S("5")}})}));
		docs[k].push_back(L({M({{"key", S("7")}, {"e", S("Ab")}})}));
	}
	for (int k = 0; k < N; k++) { lower(a, *s[k]); for (auto &d : docs[k]) text[k].push_back(render(d)); }
	text[0].push_back("num: 1\nname: \"unterminated\n"); docs[0].push_back(Node()); docs[0].back().k = Node::BAD;   /* 10 malformed */
	schema_hash = a.hash();
}
inline World &W() { static World *w = new World; return *w; }
/* Outcome in a fresh process, also compared with the reference. */
inline const World::Ld &World::get(mc::Ctx &m, int k, int d, int c) {
	auto it = ld.find(k * 1000 + d * 10 + c);
	if (it != ld.end()) return it->second;
	Ld x; x.ref = docs[k][(size_t)d].k == Node::BAD ? Ref() : ref_load(*s[k], &docs[k][(size_t)d], flags[c]);
	if (docs[k][(size_t)d].k == Node::BAD) x.ref.errs.insert(ANY_ERR);
	env::reset_statics();
	int e0 = env::entry_errno; env::entry_errno = 0;
	{ env::Cfg cfg(flags[c]); env::LoadRes r = env::load(m, cfg, s[k]->c, text[k][(size_t)d]); x.code = r.err; verdict(m, x.ref.errs, r.err, "load alone"); if (r.data) env::release(m, cfg, s[k]->c, r.data, r.count); }
	x.save_code = -1;
	if (!x.code) { env::reset_statics(); env::Cfg cfg(flags[c]); Src q = source(cfg, *s[k], x.ref.v); env::SaveRes r = env::save(m, cfg, s[k]->c, q.p, q.count); x.save_code = r.err; x.saved = r.text; }
	env::reset_statics(); env::entry_errno = e0;
	return ld.emplace(k * 1000 + d * 10 + c, x).first->second;
}

} // namespace world
