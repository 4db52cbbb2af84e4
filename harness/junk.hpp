/* Content a load ignores, put into documents. */
#pragma once
#include "common.hpp"
namespace jk {
using namespace md;
/* Mappings of the document that a schema mapping describes. */
struct Site { const T *t; Node *n; };
inline void sites(const T &t, Node &n, unsigned cfg, std::vector<Site> &out) {
	if (t.type == CYAML_MAPPING && n.k == Node::MAP) {
		out.push_back({&t, &n});
		for (size_t i = 0; i + 1 < n.kids.size(); i += 2) for (auto &f : t.fields)
			if (n.kids[i].k == Node::SCALAR && name_eq(t, cfg, f.key, n.kids[i].s)) { sites(*f.t, n.kids[i + 1], cfg, out); break; }
	}
	if (t.is_seq() && n.k == Node::SEQ) for (auto &k : n.kids) sites(*t.entry, k, cfg, out);
}
inline Node N(const std::string &s) { return Node::sc(s); }
const int JUNK = 16;
inline Node junk(int k, const std::string &known) {
	Node n = Node::seq(), x = Node::map();
	switch (k) {
	case 0: return N("zz");
	case 1: return N("");
	case 2: return Node::seq();
	case 3: return Node::map();
	case 4: n.add(N("1")); n.add(N("2")); n.add(N("3")); return n;
	case 5: x.add(known, N("1")); x.add("other", N("2")); return x;                      /* a known key inside */
	case 6: n.add(Node::seq()); n.add(Node::map()); n.add(N("")); x.add(known, n); return x;
	case 7: x.add(known, N("a")); x.add(known, N("b")); n.add(x); n.add(x); return n;    /* repeated keys inside */
	case 8: { Node q = N("1"); for (int i = 0; i < 12; i++) { Node o = i % 2 ? Node::map() : Node::seq(); if (i % 2) o.add(known, q); else o.add(q); q = o; } return q; }
	case 9: x.kids.push_back(Node::seq()); x.kids[0].add(N("p")); x.kids.push_back(N("q")); return x;   /* collection as key */
	case 10: x.kids.push_back(Node::map()); x.kids[0].add(known, N("p")); x.kids.push_back(Node::map()); return x;
	case 11: { Node a = N("5"); a.anchor = "in"; n.add(a); n.add(Node::alias("in")); a = n; a.anchor = "inseq"; x.add("p", a); x.add("q", Node::alias("inseq")); return x; }
	case 12: return Node::sc("several\nlines\n", LITERAL);
	case 13: n.add(N("1")); n.flow = true; n.tag = "!local"; return n;
	case 14: for (int i = 0; i < 40; i++) x.add(mc::fmt("%s%d", known.c_str(), i), N("v")); return x;
	default: return Node::sc("quoted: [not a collection", DOUBLE);
	}
}
const int KEYS = 10;
inline Node key(int k, const std::string &known) {
	switch (k) {
	case 0: return N("unknown");
	case 1: return N(known + "x");
	case 2: return N(known.substr(0, known.size() - 1));
	case 3: { std::string s = known; for (char &c : s) c = (char)(isupper((unsigned char)c) ? tolower(c) : toupper(c)); return N(s); }
	case 4: return Node::sc("", SINGLE);
	case 5: return Node::sc(" " + known, DOUBLE);
	case 6: return N(std::string(300, 'k'));
	case 7: return Node::sc("\xc3\xa9", DOUBLE);
	case 8: return N("0");
	default: return Node::sc(known + "\n", DOUBLE);
	}
}
inline bool put(mc::Ctx &m, gen::Case &c, bool free_choice) {
	std::vector<Site> s; sites(*c.top, c.doc, c.cfg, s);
	if (s.empty()) return false;
	int cost = free_choice ? 0 : 1;
	Site &x = s[m.choose((int)s.size(), cost)];
	size_t at = (size_t)m.choose((int)(x.n->kids.size() / 2) + 1, cost) * 2;
	std::string known = x.t->fields.empty() ? "k" : x.t->fields[m.choose((int)x.t->fields.size())].key;
	Node k, v;
	bool ign = m.choose(2);                           /* a declared ignored field instead */
	if (ign) {
		std::vector<std::string> i; for (auto &f : x.t->fields) if (f.t->type == CYAML_IGNORE) i.push_back(f.key);
		if (i.empty()) return false;
		k = N(i[m.choose((int)i.size(), 0)]);
	} else {
		k = key(m.choose(KEYS), known);
		for (auto &f : x.t->fields) if (name_eq(*x.t, c.cfg, f.key, k.s)) return false;
	}
	v = junk(m.choose(JUNK, free_choice ? 0 : 1), known);
	x.n->kids.insert(x.n->kids.begin() + at, v); x.n->kids.insert(x.n->kids.begin() + at, k);
	return true;
}
} // namespace jk
