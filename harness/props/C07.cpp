#include "../common.hpp"
#include <algorithm>
using namespace md;
using namespace com;

static Node N(const char *s) { return Node::sc(s); }
static T *uint_(gen::Case &c, uint32_t size = 2) { return c.a.t(CYAML_UINT, 0, size); }
static T *str_(gen::Case &c) { T *t = c.a.t(CYAML_STRING, CYAML_FLAG_POINTER, 1); t->smax = CYAML_UNLIMITED; return t; }
static T *seq_(gen::Case &c, T *e) { T *t = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); t->smax = CYAML_UNLIMITED; t->entry = e; return t; }
static T *map_(gen::Case &c, std::initializer_list<std::pair<const char *, T *>> l, bool ptr = false) {
	T *t = c.a.t(CYAML_MAPPING, ptr ? CYAML_FLAG_POINTER : 0);
	for (auto &p : l) { Field f; f.key = p.first; f.t = p.second; t->fields.push_back(f); }
	return t;
}
static Node nmap(std::initializer_list<std::pair<const char *, Node>> l) { Node n = Node::map(); for (auto &p : l) n.add(p.first, p.second); return n; }
static Node nseq(std::initializer_list<Node> l) { Node n = Node::seq(); for (auto &x : l) n.add(x); return n; }
static T *opt(T *t) { t->flags |= CYAML_FLAG_OPTIONAL; return t; }

static const int DOCS = 12;
static void base(gen::Case &c, int k) {
	switch (k) {
	case 0:    /* scalars and two mappings of one shape */
		c.top = map_(c, {{"p", map_(c, {{"a", uint_(c)}, {"b", uint_(c)}})}, {"x", uint_(c)}, {"q", map_(c, {{"a", uint_(c)}, {"b", uint_(c)}}, true)}}, true);
		c.doc = nmap({{"p", nmap({{"a", N("1")}, {"b", N("2")}})}, {"x", N("3")}, {"q", nmap({{"a", N("4")}, {"b", N("5")}})}});
		return;
	case 1: {  /* sequence of fixed sequences */
		T *f = c.a.t(CYAML_SEQUENCE_FIXED); f->smin = f->smax = 2; f->entry = uint_(c);
		c.top = seq_(c, f);
		c.doc = nseq({nseq({N("1"), N("2")}), nseq({N("3"), N("4")}), nseq({N("5"), N("6")})});
		return; }
	case 2:    /* mappings with sequences of strings, in a sequence */
		c.top = seq_(c, map_(c, {{"l", seq_(c, str_(c))}, {"s", str_(c)}}));
		c.doc = nseq({nmap({{"l", nseq({N("u"), N("v")})}, {"s", N("w")}}), nmap({{"l", nseq({N("x")})}, {"s", N("y")}})});
		return;
	case 3: {  /* flags and bitfields */
		T *f = c.a.t(CYAML_FLAGS, 0, 4); f->strs = {{"one", 1}, {"two", 2}, {"four", 4}};
		T *b = c.a.t(CYAML_BITFIELD, 0, 2); b->bits = {{"lo", 0, 4}, {"hi", 4, 8}, {"top", 12, 4}};
		c.top = map_(c, {{"f", f}, {"b", b}, {"g", opt(c.a.t(CYAML_FLAGS, CYAML_FLAG_POINTER, 1))}}, true); c.top->fields[2].t->strs = {{"one", 1}, {"two", 2}};
		c.doc = nmap({{"f", nseq({N("one"), N("four")})}, {"b", nmap({{"lo", N("3")}, {"top", N("2")}})}, {"g", nseq({N("two"), N("one")})}});
		return; }
	case 4:    /* unknown keys around and inside */
		c.top = map_(c, {{"a", str_(c)}, {"m", map_(c, {{"a", uint_(c)}})}}, true); c.cfg = CYAML_CFG_IGNORE_UNKNOWN_KEYS;
		c.doc = nmap({{"u1", nmap({{"a", N("7")}})}, {"m", nmap({{"a", N("8")}, {"z", nseq({N("9")})}})}, {"a", N("10")}, {"u2", N("11")}});
		return;
	case 5: {  /* declared ignored */
		T *i = c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL);
		c.top = map_(c, {{"i", i}, {"v", seq_(c, uint_(c))}, {"j", c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL)}}, true);
		c.doc = nmap({{"i", nmap({{"x", nseq({N("1"), nmap({{"y", N("2")}})})}})}, {"v", nseq({N("3"), N("4")})}, {"j", nseq({N("5")})}});
		return; }
	case 6:    /* keys as values of their own: every scalar fits everywhere */
		c.top = map_(c, {{"k1", str_(c)}, {"k2", str_(c)}, {"k3", str_(c)}, {"k4", opt(str_(c))}}, true);
		c.doc = nmap({{"k1", N("k2")}, {"k2", N("k3")}, {"k3", N("k4")}, {"k4", N("k1")}});
		return;
	case 7: {  /* nullable entries */
		T *e = map_(c, {{"a", opt(c.a.t(CYAML_UINT, CYAML_FLAG_POINTER_NULL, 2))}}, true); e->flags |= CYAML_FLAG_POINTER_NULL;
		c.top = seq_(c, e);
		c.doc = nseq({Node::sc("", SINGLE), nmap({{"a", N("1")}}), nmap({{"a", Node::sc("", SINGLE)}}), Node::map()});
		return; }
	case 8: {  /* deeper nest */
		T *in = map_(c, {{"z", uint_(c)}});
		T *mid = map_(c, {{"y", seq_(c, in)}});
		c.top = map_(c, {{"x", seq_(c, mid)}}, true);
		c.doc = nmap({{"x", nseq({nmap({{"y", nseq({nmap({{"z", N("1")}}), nmap({{"z", N("2")}})})}}), nmap({{"y", nseq({nmap({{"z", N("3")}})})}})})}});
		return; }
	case 9: {  /* other scalar kinds, with values valid for all */
		T *e = c.a.t(CYAML_ENUM, 0, 4); e->strs = {{"0", 5}, {"1", 6}};
		c.top = map_(c, {{"i", c.a.t(CYAML_INT, 0, 1)}, {"b", c.a.t(CYAML_BOOL, 0, 1)}, {"f", c.a.t(CYAML_FLOAT, 0, 8)}, {"e", e}, {"s", c.a.t(CYAML_STRING, 0, 4)}}, true); c.top->fields[4].t->smax = 3;
		c.doc = nmap({{"i", N("0")}, {"b", N("1")}, {"f", N("2")}, {"e", N("1")}, {"s", N("0")}});
		return; }
	case 10:   /* top-level strings */
		c.top = seq_(c, str_(c));
		c.doc = nseq({N("p"), N("q"), N("r"), N("s"), N("t")});
		return;
	default: { /* pointer entries, sequences of every length equal */
		T *p = c.a.t(CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER); p->smin = p->smax = 2; p->entry = str_(c);
		T *q = c.a.t(CYAML_SEQUENCE, CYAML_FLAG_POINTER); q->smin = 1; q->smax = 3; q->entry = str_(c);
		c.top = map_(c, {{"p", p}, {"q", q}, {"r", c.a.t(CYAML_SEQUENCE, 0)}}, true); c.top->fields[2].t->smax = 2; c.top->fields[2].t->entry = str_(c); c.top->fields[2].cnt_size = 1;
		c.doc = nmap({{"p", nseq({N("1"), N("2")})}, {"q", nseq({N("3")})}, {"r", nseq({N("4"), N("5")})}});
		return; }
	}
}
static const char *const NAMES[] = {"a", "ab"};
static void decorate(mc::Ctx &m, Node &n, bool &used) {
	int k = m.choose(5);
	if (k >= 3) { n = Node::alias(NAMES[k - 3]); used = true; return; }
	if (k) { n.anchor = NAMES[k - 1]; used = true; }
	for (auto &x : n.kids) decorate(m, x, used);
}
static void assign(mc::Ctx &m) {
	int k = m.pick(DOCS);
	gen::Case c; base(c, k);
	unsigned cfg = m.pick(2) ? (unsigned)CYAML_CFG_NO_ALIAS : 0; c.cfg |= cfg;
	c.style = m.pick(2);
	bool used = false;
	decorate(m, c.doc, used);
	m.commit();
	gen::finish(m, c);
	verify_load(m, c);
}
/* Values decorated freely: every anchor has a name of its own, an alias may name any anchor begun so far. */
static void dense_node(mc::Ctx &m, Node &n, int &names) {
	int k = m.choose(2 + names);
	if (k > 1) { n = Node::alias(mc::fmt("n%d", k - 2)); return; }
	if (k) n.anchor = mc::fmt("n%d", names++);
	if (n.k == Node::MAP) for (size_t i = 1; i < n.kids.size(); i += 2) dense_node(m, n.kids[i], names);
	else for (auto &x : n.kids) dense_node(m, x, names);
}
static const int DENSE = 6;
static void dense(mc::Ctx &m) {
	int k = m.pick(DENSE);
	gen::Case c;
	auto fixed = [&](T *e, uint32_t n, bool ptr = false) { T *f = c.a.t(CYAML_SEQUENCE_FIXED, ptr ? CYAML_FLAG_POINTER : 0); f->smin = f->smax = n; f->entry = e; return f; };
	switch (k) {
	case 0: c.top = seq_(c, fixed(fixed(str_(c), 2, true), 1)); c.doc = Node::seq(); for (int i = 0; i < 3; i++) c.doc.add(nseq({nseq({Node::sc(mc::fmt("a%d", i)), Node::sc(mc::fmt("b%d", i))})})); break;
	case 1: c.top = seq_(c, map_(c, {{"m", map_(c, {{"l", seq_(c, str_(c))}}, true)}})); c.doc = Node::seq(); for (int i = 0; i < 3; i++) c.doc.add(nmap({{"m", nmap({{"l", nseq({Node::sc(mc::fmt("%d", i))})}})}})); break;
	case 2: c.top = map_(c, {{"i", c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL)}, {"p", seq_(c, map_(c, {{"v", str_(c)}}))}, {"q", seq_(c, map_(c, {{"v", str_(c)}}))}}, true);
		c.doc = nmap({{"i", nmap({{"x", nseq({nmap({{"v", N("1")}}), nmap({{"v", N("2")}})})}})}, {"p", nseq({nmap({{"v", N("3")}})})}, {"q", nseq({nmap({{"v", N("4")}})})}}); break;
	case 3: c.top = map_(c, {{"p", seq_(c, str_(c))}, {"q", seq_(c, str_(c))}, {"r", str_(c)}, {"s", str_(c)}}, true); c.cfg = CYAML_CFG_IGNORE_UNKNOWN_KEYS;
		c.doc = nmap({{"p", nseq({N("1"), N("2")})}, {"u", nseq({N("3"), N("4")})}, {"q", nseq({N("5"), N("6")})}, {"r", N("7")}, {"s", N("8")}}); break;
	case 4: { T *f = c.a.t(CYAML_FLAGS, 0, 4); f->strs = {{"one", 1}, {"two", 2}, {"four", 4}}; T *b = c.a.t(CYAML_BITFIELD, 0, 2); b->bits = {{"lo", 0, 4}, {"hi", 4, 8}};
		c.top = seq_(c, map_(c, {{"f", opt(f)}, {"b", opt(b)}})); c.doc = nseq({nmap({{"f", nseq({N("one"), N("two")})}, {"b", nmap({{"lo", N("3")}, {"hi", N("4")}})}}), nmap({{"f", nseq({N("four")})}}), nmap({{"b", nmap({{"hi", N("4")}})}})}); break; }
	default: { T *e = c.a.t(CYAML_SEQUENCE, 0); e->smax = 2; e->entry = fixed(uint_(c, 1), 1); c.top = map_(c, {{"a", e}, {"b", e}, {"c", e}}, true); for (auto &x : c.top->fields) x.cnt_size = 1;
		c.doc = nmap({{"a", nseq({nseq({N("1")}), nseq({N("2")})})}, {"b", nseq({nseq({N("3")})})}, {"c", nseq({nseq({N("4")}), nseq({N("5")})})}}); }
	}
	int names = 0;
	dense_node(m, c.doc, names);
	m.commit();
	gen::finish(m, c);
	verify_load(m, c);
}
/* n anchors, of scalars or collections, then k uses: forwards, backwards, or only the last; some redefined. */
static void many(mc::Ctx &m) {
	int n = 1 + m.pick(m.thorough ? 80 : 34), what = m.pick(4), order = m.pick(3), redef = m.pick(3), seq = m.pick(2);
	m.commit();
	gen::Case c;
	T *e; Node v;
	auto val = [&](int i) {
		std::string s = mc::fmt("%d", 100 + i);
		switch (what) {
		case 0: return Node::sc(s);
		case 1: return nmap({{"l", nseq({Node::sc(s), Node::sc(s + "1")})}});
		case 2: { Node q = Node::seq(); for (int k = 0; k < 2; k++) q.add(Node::sc(s)); return q; }
		default: { Node q = nmap({{"l", Node::seq()}}); for (int k = 0; k < i % 5; k++) q.kids[1].add(Node::sc(s)); return q; }
		}
	};
	switch (what) { case 0: e = str_(c); break; case 2: e = c.a.t(CYAML_SEQUENCE_FIXED); e->smin = e->smax = 2; e->entry = uint_(c); break; default: e = map_(c, {{"l", seq_(c, str_(c))}}); }
	Node q = Node::seq();
	auto name = [&](int i) { return seq ? mc::fmt("n%d", i) : std::string((size_t)i + 1, 'n'); };
	for (int i = 0; i < n; i++) { Node x = val(i); x.anchor = name(i); q.add(x); }
	if (redef) for (int i = redef == 1 ? 0 : n - 1; i < n && i >= 0; i += redef == 1 ? 3 : -2) { Node x = val(1000 + i); x.anchor = name(i); q.add(x); q.add(Node::alias(name(i))); }
	if (order == 2) q.add(Node::alias(name(n - 1)));
	else for (int i = 0; i < n; i++) q.add(Node::alias(name(order ? n - 1 - i : i)));
	c.top = seq_(c, e); c.doc = q;
	gen::finish(m, c);
	verify_load(m, c);
}
/* Anchors on every level of a nest (ignored, or loaded as a chain of nullable pointers), each then used. */
static void nest(mc::Ctx &m) {
	int d = 1 + m.pick(m.thorough ? 40 : 20), every = 1 + m.pick(3), use = m.pick(4), how = m.pick(3);
	m.commit();
	gen::Case c;
	/* levels[i] contains levels[i+1]; all collections. */
	std::vector<T *> lv(d + 1); lv[d] = map_(c, {{"v", uint_(c)}}, true);
	Node n = nmap({{"v", N("7")}});
	for (int i = d - 1; i >= 0; i--) {
		if ((i + 1) % every == 0) n.anchor = mc::fmt("L%d", i + 1);
		bool s = how == 1 ? i % 2 : false;
		if (s) { lv[i] = c.a.t(CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER); lv[i]->smin = lv[i]->smax = 1; lv[i]->entry = lv[i + 1]; Node q = Node::seq(); q.add(n); n = q; }
		else { lv[i] = map_(c, {{"n", lv[i + 1]}, {"w", str_(c)}}, true); Node q = Node::map(); Node w = Node::sc(mc::fmt("s%d", i)); if (how == 2) { w.anchor = mc::fmt("W%d", i); q.add("w", w); q.add("n", n); } else { q.add("n", n); q.add("w", w); } n = q; }
	}
	c.top = map_(c, {{"t", lv[0]}}, true); c.doc = Node::map(); c.doc.add("t", n);
	/* the uses */
	for (int i = 0; i <= d; i++) {
		std::string nm = how == 2 && i < d && use == 3 ? mc::fmt("W%d", i) : mc::fmt("L%d", i);
		bool w = nm[0] == 'W';
		if (!w && (i == 0 || i % every)) continue;
		if (use == 1 && i != d / 2 + (d / 2) % every) { if (i != d) continue; }
		Field f; f.key = mc::fmt("u%d", i); f.t = w ? str_(c) : lv[i]; c.top->fields.push_back(f);
		c.doc.add(f.key, Node::alias(nm));
	}
	if (use == 2) std::reverse(c.top->fields.begin(), c.top->fields.end());
	gen::finish(m, c);
	verify_load(m, c);
}
/* Anchored collections built from aliases of earlier ones; k uses of the one before at each step. */
static void doubling(mc::Ctx &m) {
	int steps = 1 + m.pick(m.thorough ? 9 : 7), k = m.pick(4), leaf = m.pick(3), ign = m.pick(2);
	if (k == 3 && steps > 6) m.prune();
	m.commit();
	gen::Case c;
	T *lt = leaf == 0 ? uint_(c) : leaf == 1 ? str_(c) : map_(c, {{"a", uint_(c)}, {"b", str_(c)}});
	Node ln = leaf == 2 ? nmap({{"a", N("1")}, {"b", N("two")}}) : N("17");
	std::vector<T *> lv; T *t = lt;
	c.doc = Node::map(); c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER);
	Node prev = ln; prev.anchor = "s0";
	for (int i = 0; i <= steps; i++) {
		Field f; f.key = mc::fmt("k%d", i);
		Node n;
		if (i == 0) n = prev;
		else {
			T *s = c.a.t(CYAML_SEQUENCE_FIXED, i % 2 ? CYAML_FLAG_POINTER : 0); s->smin = s->smax = (uint32_t)std::max(k, 1); s->entry = t; t = s;
			n = Node::seq(); for (int j = 0; j < std::max(k, 1); j++) n.add(Node::alias(mc::fmt("s%d", k ? i - 1 : i - 1)));
			n.anchor = mc::fmt("s%d", i);
		}
		f.t = t; if (ign && i % 2 == 0) f.t = c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL);
		c.top->fields.push_back(f);
		c.doc.add(f.key, n);
	}
	gen::finish(m, c);
	verify_load(m, c);
}
/* One large anchored collection, replayed. */
static void large(mc::Ctx &m) {
	int n = m.pick(m.thorough ? 300 : 90), k = 1 + m.pick(3), kind = m.pick(3), inner = m.pick(2);
	m.commit();
	gen::Case c;
	T *e = kind == 0 ? uint_(c) : kind == 1 ? str_(c) : map_(c, {{"a", uint_(c)}});
	T *s = seq_(c, e);
	Node q = Node::seq();
	for (int i = 0; i < n; i++) {
		Node x = kind == 2 ? nmap({{"a", Node::sc(mc::fmt("%d", i))}}) : Node::sc(mc::fmt("%d", i));
		if (inner && i % 7 == 3) x.anchor = mc::fmt("i%d", i);
		if (inner && i % 7 == 5) x = Node::alias(mc::fmt("i%d", i - 2));
		q.add(x);
	}
	q.anchor = "big";
	c.top = c.a.t(CYAML_MAPPING, CYAML_FLAG_POINTER); c.doc = Node::map();
	for (int i = 0; i <= k; i++) { Field f; f.key = mc::fmt("k%d", i); f.t = s; c.top->fields.push_back(f); c.doc.add(f.key, i ? Node::alias("big") : q); }
	gen::finish(m, c);
	verify_load(m, c);
}
/* Counts of anchors, recorded events, open recordings and replays around 256 and 65536. */
static void scaled(mc::Ctx &m) {
	static const int NS[] = {254, 255, 256, 257, 258, 511, 512, 513, 600};
	int what = m.pick(7), k = m.pick(9), v = m.pick(3);
	m.commit();
	int n = NS[k];
	gen::Case c;
	auto nm = [](int i) { return mc::fmt("n%d", i); };
	switch (what) {
	case 0: case 1: {      /* n anchors of scalars or of mappings; then the first, the last and some between */
		T *e = what ? map_(c, {{"a", uint_(c, 4)}, {"b", str_(c)}}) : str_(c);
		Node q = Node::seq();
		for (int i = 0; i < n; i++) { std::string t = mc::fmt("%d", 1000 + i); Node x = what ? nmap({{"a", Node::sc(t)}, {"b", Node::sc("s" + t)}}) : Node::sc(t); x.anchor = nm(v == 1 ? i % 256 : v == 2 ? i % 257 : i); q.add(x); }
		for (int i : {0, 1, 127, 128, 253, 254, 255, 256, n - 256, n - 2, n - 1}) if (i >= 0 && (v == 0 ? i < n : i < (v == 1 ? 256 : 257) && i < n)) q.add(Node::alias(nm(i)));
		c.top = seq_(c, e); c.doc = q; break; }
	case 2: {      /* n open recordings at once (ignored nests of anchored collections), then a name used by each kind */
		Node x = Node::sc("deep"); for (int i = n; i-- > 0;) { Node q = i % 2 && v == 1 ? Node::map() : Node::seq(); if (q.k == Node::MAP) q.add("k", x); else q.add(x); if (v != 2 || i % 3 == 0 || i > n - 4) q.anchor = nm(i); x = q; }
		T *ig = c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL), *ig2 = c.a.t(CYAML_IGNORE, CYAML_FLAG_OPTIONAL);
		c.top = map_(c, {{"i", ig}, {"j", ig2}, {"s", str_(c)}, {"t", str_(c)}}, true);
		Node y = Node::sc("val"); y.anchor = "y";
		Node js = Node::seq(); for (int i : {0, n / 2, n - 1, n - 2}) if (v != 2 || i % 3 == 0 || i > n - 4) js.add(Node::alias(nm(i)));
		c.doc = nmap({{"i", x}, {"j", js}, {"s", y}, {"t", Node::alias("y")}}); break; }
	case 3: {      /* a replayed sequence of n entries */
		T *s = seq_(c, v ? uint_(c) : str_(c)); Node q = Node::seq(); for (int i = 0; i < n; i++) q.add(Node::sc(mc::fmt("%d", i)));
		if (v == 2) { q.kids[(size_t)n - 1] = Node::alias("i"); q.kids[0].anchor = "i"; }
		q.anchor = "q";
		c.top = map_(c, {{"a", s}, {"b", s}, {"c", s}, {"z", str_(c)}}, true); c.doc = nmap({{"a", q}, {"b", Node::alias("q")}, {"c", Node::alias("q")}, {"z", N("end")}}); break; }
	case 4: {      /* one anchor redefined n times, the value used each time or at the end only */
		T *e = str_(c); Node q = Node::seq(); for (int i = 0; i < n; i++) { Node x = Node::sc(mc::fmt("v%d", i)); x.anchor = "r"; q.add(x); if (v == 0 || i + 2 > n) q.add(Node::alias("r")); if (v == 2 && i == n / 2) { Node o = Node::sc("other"); o.anchor = "o"; q.add(o); } }
		if (v == 2) q.add(Node::alias("o"));
		c.top = seq_(c, e); c.doc = q; break; }
	case 5: {      /* one anchor replayed n times, with an anchored copy of the whole */
		T *e = v ? map_(c, {{"a", uint_(c)}}) : str_(c); Node x = v ? nmap({{"a", N("5")}}) : N("five"); x.anchor = "x";
		Node q = Node::seq(); q.add(x); for (int i = 0; i < n; i++) q.add(Node::alias("x")); q.anchor = "q";
		T *s = seq_(c, e); c.top = map_(c, {{"a", s}, {"b", s}}, true); c.doc = nmap({{"a", q}, {"b", v == 2 ? nseq({Node::alias("x")}) : Node::alias("q")}}); break; }
	default: {     /* recorded events past 65536, made of replays of replays */
		if (k >= 3) m.prune();
		static const int BIG[] = {65000, 65540, 66000}; n = BIG[k];
		T *f = c.a.t(CYAML_SEQUENCE_FIXED); f->smin = f->smax = 200; f->entry = uint_(c, 1);
		Node a = Node::seq(); for (int i = 0; i < 200; i++) a.add(Node::sc(mc::fmt("%d", i))); a.anchor = "a";
		Node q = Node::seq(); q.add(a); for (int i = 1; i < n / 202; i++) q.add(Node::alias("a")); q.anchor = "q";
		T *s = seq_(c, f); Node e = Node::seq(); for (int i = 200; i-- > 0;) e.add(Node::sc(mc::fmt("%d", i))); e.anchor = "e";
		c.top = map_(c, {{"q", s}, {"e", f}, {"g", f}, {"h", f}, {"r", v == 1 ? s : f}}, true);
		c.doc = nmap({{"q", q}, {"e", e}, {"g", Node::alias("e")}, {"h", Node::alias("a")}, {"r", v == 1 ? Node::alias("q") : Node::alias("e")}}); }
	}
	gen::finish(m, c);
	verify_load(m, c);
}
/* Anchor names that agree up to some length, or of which one is the start of the other. */
static void alike(mc::Ctx &m) {
	static const int LEN[] = {1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 511, 512, 513, 700, 1000};
	int n = LEN[m.pick(30)], how = m.pick(4), order = m.pick(4), what = m.pick(2), missing = m.pick(2);
	m.commit();
	std::string p; for (int i = 0; i < n; i++) p += (char)('a' + (i * 7 + i / 64) % 26);
	std::string a, b;
	switch (how) { case 0: a = p + "1"; b = p + "2"; break; case 1: a = p; b = p + "x"; break; case 2: a = "1" + p; b = "2" + p; break; default: a = p + "q" + p.substr(0, 20); b = p + "Q" + p.substr(0, 20); }
	gen::Case c;
	auto val = [&](int i) { Node x = Node::sc(mc::fmt("v%d", i)); if (what) return nmap({{"l", nseq({x})}}); return x; };
	T *e = what ? map_(c, {{"l", seq_(c, str_(c))}}) : str_(c);
	Node q = Node::seq(); auto def = [&](const std::string &k, int i) { Node x = val(i); x.anchor = k; q.add(x); };
	def(order & 1 ? b : a, 1); if (!missing) def(order & 1 ? a : b, 2);
	q.add(Node::alias(order & 2 ? a : b)); q.add(Node::alias(order & 2 ? b : a));
	c.top = seq_(c, e); c.doc = q;
	gen::finish(m, c);
	verify_load(m, c);
}
static void build(std::vector<mc::Family> &f, bool) {
	f.push_back({"assignments", "12 schemas and documents (scalars, mappings, fixed and variable sequences, flags, bitfields, unknown and ignored content, nullable, deep) x every assignment of {nothing, &a, &ab, *a, *ab} to the nodes (keys and values, collections and scalars) with at most 3 (4) decorated x aliases enabled or not x block or flow", assign, 3, 4});
	f.push_back({"dense", "6 schemas and documents (nested fixed sequences, mappings with sequences, ignored and unknown content, flags and bitfields, embedded sequences) x every way of giving up to 5 (6) of their 9..12 values an anchor of its own or replacing it by an alias to any anchor begun so far", dense, 5, 6});
	f.push_back({"many", "1..34 (80) anchors of scalars and collections, used in order, reverse or only the last, with redefinitions", many, 0, 0});
	f.push_back({"names alike", "two anchor names that agree in their first or last 1..1000 characters, or one the start of the other, both or one defined, used in both orders", alike, 0, 0});
	f.push_back({"nest", "anchors on every, second or third level of nests of 1..20 (40) collections, each then used", nest, 0, 0});
	f.push_back({"doubling", "collections made of 1..3 aliases of the one before, 7 (9) steps", doubling, 0, 0});
	f.push_back({"large", "an anchored sequence of 0..89 (299) entries with anchors and aliases inside, replayed 1..3 times", large, 0, 0});
	f.push_back({"scale", "254..600 anchors, redefinitions, open recordings, recorded events and replays, and 65000..66000 recorded events", scaled, 0, 0});
}
const mc::Prop mc::PROP = {"C07", "A case is a schema and a document with anchors and aliases; the reference loads the document with every alias replaced by a copy, or names the invalid alias.", build};
