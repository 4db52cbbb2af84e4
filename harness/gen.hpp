/* Generator of schemas together with documents over them. */
#pragma once
#include "model.hpp"

namespace gen {

struct Opt {
	int nodes = 4;             /* schema nodes */
	int min_nodes = 1;         /* prune smaller trees (covered elsewhere) */
	int max_fields = 3;
	bool leaf_free = false;    /* profile, indirection and text of leaves are free choices */
	bool invalid = false;      /* plant violations in the document */
	bool vary_leaf = true, vary_text = true, vary_ind = true, vary_presence = true, vary_layout = true,
	     vary_count = true, vary_names = true, vary_order = true, vary_style = true, vary_cfg = true,
	     vary_default = true, vary_limits = true;
	bool all_optional = false; /* fields are optional by default */
	bool default_defaults = false; /* ... with defaults */
	bool nulls = true;
	bool ignore = true;        /* IGNORE fields */
	bool top_null = true;
	bool fixed_cfg = false; unsigned cfg = 0;
	bool no_empty_top = false; /* avoid NULL and empty-sequence results at top */
};

struct Case {
	md::Arena a;
	md::T *top = nullptr;
	md::Node doc;
	unsigned cfg = 0;
	int style = 0;
	const cyaml_schema_value_t *s = nullptr;
	std::string text;
	md::Ref ref;
	std::string show() const;
};

/* Number of leaf profiles and construction of each; flags are added to the profile's own. */
int profiles();
md::T *leaf(md::Arena &a, int profile);
/* Texts for a leaf: the first few are plain and valid. */
struct Texts { std::vector<md::Node> good, bad; };
const Texts &texts(const md::T &t, int profile);

struct Gen {
	mc::Ctx &m; Case &c; const Opt &o;
	int left, leaves = 0;
	std::map<const md::T *, int> prof;
	Gen(mc::Ctx &m_, Case &c_, const Opt &o_) : m(m_), c(c_), o(o_), left(o_.nodes) {}
	bool text_used = false;
	int ch_text(int n) { bool f = o.leaf_free && !text_used; text_used = true; return m.choose(n, f ? 0 : 1); }
	int ch(int n) { return m.choose(n, o.leaf_free ? 0 : 1); }
	enum Pos { TOP, FIELD, ENTRY };
	md::T *schema(Pos pos, int reserve);
	void indirection(md::T &t, Pos pos);
	void names(md::T &t);
	void defaults(md::T &t);
	md::Node doc(const md::T &t, bool plain = false);
	void style(md::Node &n);
	md::Val sample(const md::T &t);
	int inst = 0;
	bool planted = false;
	md::Node wrong(const md::T &t);
};

/* Whole case: schema, document, configuration, text, reference result. */
void make(mc::Ctx &m, Case &c, const Opt &o);
/* Lay out, lower, render and compute the reference once c.top, c.doc and c.cfg are set. */
void finish(mc::Ctx &m, Case &c);
void apply_style(md::Node &doc, int style);
std::string render_style(md::Node &doc, int style);
const int STYLES = 11;

} // namespace gen
