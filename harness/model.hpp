/* Reference model: schemas, documents, values; loading, saving and memory layout as documented, written
 * without reference to libcyaml's own code. */
#pragma once
#include "env.hpp"
#include <memory>
#include <set>
#include <map>

namespace md {

/* ---- values ---- */
struct Val {
	enum K { ZERO, NUL, NUM, STR, MAP, SEQ } k = ZERO;   /* ZERO: nothing stored; NUL: a NULL pointer */
	uint64_t n = 0;
	std::string s;
	std::vector<Val> v;
	static Val num(uint64_t n) { Val r; r.k = NUM; r.n = n; return r; }
	static Val str(const std::string &s) { Val r; r.k = STR; r.s = s; return r; }
	static Val nul() { Val r; r.k = NUL; return r; }
	static Val seq() { Val r; r.k = SEQ; return r; }
	static Val map() { Val r; r.k = MAP; return r; }
	bool operator==(const Val &o) const { return k == o.k && n == o.n && s == o.s && v == o.v; }
};

/* ---- documents ---- */
enum Style { PLAIN = 0, SINGLE, DOUBLE, LITERAL, FOLDED };
struct Node {
	enum K { SCALAR, SEQ, MAP, ALIAS, BAD } k = SCALAR;
	std::string s;                 /* scalar text, or alias name */
	int style = PLAIN;
	bool flow = false;
	std::string anchor, tag;
	std::vector<Node> kids;        /* MAP: key, value, key, value ... */
	int line = -1, col = -1;       /* set by render(), counted from 0 */
	static Node sc(const std::string &s, int style = PLAIN) { Node n; n.s = s; n.style = style; return n; }
	static Node seq() { Node n; n.k = SEQ; return n; }
	static Node map() { Node n; n.k = MAP; return n; }
	static Node alias(const std::string &s) { Node n; n.k = ALIAS; n.s = s; return n; }
	Node &add(const Node &c) { kids.push_back(c); return *this; }
	Node &add(const std::string &key, const Node &c) { kids.push_back(sc(key)); kids.push_back(c); return *this; }
	bool same_content(const Node &o) const;   /* ignores style, anchors, positions */
};
bool plain_ok(const std::string &s, bool flow);
std::string render(Node &doc, int indent = 2);     /* sets positions */
/* Parse with libyaml alone (no libcyaml); false on a libyaml error.  Aliases are kept. Only the first document. */
struct Parsed { bool ok; bool empty; Node doc; bool explicit_start, explicit_end; int docs; };
Parsed parse_yaml(const std::string &text);
/* Replace aliases by copies.  Unknown aliases become BAD and are counted. */
struct Expanded { Node doc; int bad; int aliases; bool unspecified; };   /* unspecified: a name reused inside its own definition */
Expanded expand(const Node &doc);

/* ---- schemas ---- */
struct T;
struct Field {
	std::string key;
	T *t = nullptr;
	/* layout requests */
	uint8_t gap = 0, cnt_gap = 0; bool cnt_first = false; uint8_t cnt_size = 4;
	/* layout results */
	uint32_t off = 0, cnt_off = 0;
};
struct Bit { std::string name; uint8_t off, bits; };
struct T {
	cyaml_type_e type = CYAML_INT;
	unsigned flags = 0;
	uint32_t size = 4;             /* data_size */
	int64_t imin = 0, imax = 0, imiss = 0;
	uint64_t umin = 0, umax = 0, umiss = 0;
	double fmiss = 0;
	bool bmiss = false;
	std::vector<std::pair<std::string, int64_t>> strs;
	std::vector<Bit> bits;
	uint32_t smin = 0, smax = 0;   /* string lengths, entry counts */
	bool has_smiss = false; std::string smiss;
	std::vector<Field> fields;
	bool reverse = false;          /* members laid out in reverse order */
	T *entry = nullptr;
	bool has_miss = false; Val miss;
	void *cb = nullptr;            /* validation callback */
	/* lowered */
	cyaml_schema_value_t *c = nullptr;

	bool ptr() const { return flags & CYAML_FLAG_POINTER; }
	bool null_ok() const { return (flags & CYAML_FLAG_POINTER_NULL) == CYAML_FLAG_POINTER_NULL; }
	bool null_str() const { return (flags & CYAML_FLAG_POINTER_NULL_STR) == CYAML_FLAG_POINTER_NULL_STR; }
	bool optional() const { return flags & CYAML_FLAG_OPTIONAL; }
	bool strict() const { return flags & CYAML_FLAG_STRICT; }
	bool is_seq() const { return type == CYAML_SEQUENCE || type == CYAML_SEQUENCE_FIXED; }
	bool has_default() const;
};
uint32_t stored_size(const T &t);

struct Arena {
	std::vector<std::unique_ptr<T>> ts;
	struct Blk { void *p; size_t n; };
	std::vector<Blk> blocks;
	T *t(cyaml_type_e type, unsigned flags = 0, uint32_t size = 4);
	/* With a pool every allocation takes the next slot of it, so that schemas made one after another share addresses. */
	char *pool = nullptr; size_t slot = 0, slots = 0, used = 0;
	void *mem(size_t n);
	char *str(const std::string &s);
	uint64_t hash() const;
	Arena() {}
	Arena(const Arena &) = delete;
	~Arena();
};
/* Compute the layout and build the libcyaml schema (into t.c, recursively). */
const cyaml_schema_value_t *lower(Arena &a, T &top);
std::string describe(const T &t, int indent = 0);
std::string describe(const Val &v);
std::string describe(const Node &n);

/* ---- reference load ---- */
const int ANY_ERR = -1;            /* some error, code not documented */
struct Done { const T *t; Val v; };
struct Ref {
	std::set<int> errs;            /* codes of all violations; empty: conforms */
	Val v;
	std::vector<Done> done;        /* values stored, in order of completion */
	int null_values = 0, defaults = 0;
	bool unspecified = false;      /* behaviour not documented: nothing asserted */
	bool ok() const { return errs.empty(); }
};
Ref ref_load(const T &t, const Node *doc, unsigned cfg);
bool name_eq(const T &t, unsigned cfg, const std::string &a, const std::string &b);
bool fold_eq(const std::string &a, const std::string &b);
bool parse_int(const std::string &s, bool &neg, uint64_t &mag, bool &overflow);   /* C base-0 syntax */
uint64_t float_bits(uint32_t size, double d);

/* ---- memory ---- */
/* Read the value at a pointer returned by the library, checking every pointer against the allocator, that no
 * block is reached twice and that bytes nobody owns are zero. */
struct Reader {
	mc::Ctx &m; env::Heap &h; const char *what;
	std::vector<const void *> reached;
	std::vector<std::string> path;
	bool exact_zero = true;        /* bytes nobody owns must be zero */
	bool anywhere = false;         /* data not made by the tracked allocator */
	Reader(mc::Ctx &m_, env::Heap &h_, const char *w) : m(m_), h(h_), what(w) {}
	Val top(const T &t, const void *data, unsigned count);     /* data as handed over by the API */
	Val at(const T &t, const uint8_t *loc, uint64_t count);    /* loc: the member */
	Val body(const T &t, const uint8_t *p, uint64_t count, uint64_t room);
	void zeros(const uint8_t *p, size_t n, const char *why);
	std::string where() const;
	void finish(size_t preexisting);   /* everything live has been reached */
};
/* Canonical form: no ZERO. */
Val canon(const T &t, const Val &v);
/* Fails with the path of the first difference. */
void same(mc::Ctx &m, const T &t, const Val &want, const Val &got, const char *what, bool canonical = false);
/* Read and compare in one go. */
void check_loaded(mc::Ctx &m, env::Heap &h, const T &t, const Val &want, const void *data, unsigned count, const char *what, size_t preexisting);

/* Build data for save and copy; blocks come from alloc. */
typedef std::function<void *(size_t)> Alloc;
void build_at(const T &t, const Val &v, uint8_t *loc, const Alloc &al);
void *build(const T &t, const Val &v, const Alloc &al, bool force_block = false);   /* t must be a pointer type */
void build_body(const T &t, const Val &v, uint8_t *p, const Alloc &al);
/* All numbers and pointers made different, everything still valid memory. */
void scribble(env::Heap &h);

/* ---- reference save ---- */
struct SaveRef {
	std::set<int> errs;
	Node doc;
	bool unspecified = false;
	bool ok() const { return errs.empty(); }
};
SaveRef ref_save(const T &t, const Val &v, unsigned cfg);

} // namespace md
