/* The text a save must produce: the reference's document written by libyaml itself in the requested styles. */
#pragma once
#include "common.hpp"
#include <yaml.h>

namespace com {
inline bool is_coll(const T *t) { return t && (t->type == CYAML_MAPPING || t->is_seq()); }
/* Requested style of a scalar by its own flags; -1: not one the documentation settles. */
inline int want_scalar_style(const T *t, const Node &want) {
	if (!t) return -1;
	switch (t->type) { case CYAML_INT: case CYAML_UINT: case CYAML_BOOL: case CYAML_ENUM: case CYAML_FLOAT: case CYAML_STRING: break; default: return -1; }
	if (t->null_ok() && (want.s.empty() || want.s == "null")) return -1;
	if (t->flags & CYAML_FLAG_SCALAR_QUOTE_DOUBLE) return YAML_DOUBLE_QUOTED_SCALAR_STYLE;
	if (t->flags & CYAML_FLAG_SCALAR_QUOTE_SINGLE) return YAML_SINGLE_QUOTED_SCALAR_STYLE;
	if (t->flags & CYAML_FLAG_SCALAR_LITERAL) return YAML_LITERAL_SCALAR_STYLE;
	if (t->flags & CYAML_FLAG_SCALAR_FOLDED) return YAML_FOLDED_SCALAR_STYLE;
	if (t->flags & CYAML_FLAG_SCALAR_PLAIN) return YAML_PLAIN_SCALAR_STYLE;
	return YAML_ANY_SCALAR_STYLE;
}
inline int want_flow(const T *t, unsigned cfg) {
	if (t->flags & CYAML_FLAG_BLOCK) return 0;
	if (t->flags & CYAML_FLAG_FLOW) return 1;
	if (cfg & CYAML_CFG_STYLE_BLOCK) return 0;
	return cfg & CYAML_CFG_STYLE_FLOW ? 1 : 0;
}
inline int yaml_style(int s) {
	switch (s) { case SINGLE: return YAML_SINGLE_QUOTED_SCALAR_STYLE; case DOUBLE: return YAML_DOUBLE_QUOTED_SCALAR_STYLE; case LITERAL: return YAML_LITERAL_SCALAR_STYLE; case FOLDED: return YAML_FOLDED_SCALAR_STYLE; default: return YAML_PLAIN_SCALAR_STYLE; }
}
struct Emit {
	yaml_emitter_t e; std::string out; bool ok = true; unsigned cfg;
	static int put(void *p, unsigned char *b, size_t n) { ((Emit *)p)->out.append((char *)b, n); return 1; }
	void ev(yaml_event_t &x, int r) { if (!r || !yaml_emitter_emit(&e, &x)) ok = false; }
	/* got (may be null): the text actually produced, whose styles are used where none is documented. */
	void node(const T *t, const Node &want, const Node *got) {
		if (!ok) return;
		yaml_event_t x;
		if (want.k == Node::SCALAR) {
			int st = want_scalar_style(t, want); const std::string &s = got ? got->s : want.s;
			if (st < 0) st = got ? yaml_style(got->style) : (int)YAML_ANY_SCALAR_STYLE;
			ev(x, yaml_scalar_event_initialize(&x, nullptr, nullptr, (yaml_char_t *)s.data(), (int)s.size(), 1, 1, (yaml_scalar_style_t)st));
			return;
		}
		bool fl = is_coll(t) ? want_flow(t, cfg) : got ? got->flow : false;
		if (want.k == Node::SEQ) ev(x, yaml_sequence_start_event_initialize(&x, nullptr, nullptr, 1, fl ? YAML_FLOW_SEQUENCE_STYLE : YAML_ANY_SEQUENCE_STYLE));
		else ev(x, yaml_mapping_start_event_initialize(&x, nullptr, nullptr, 1, fl ? YAML_FLOW_MAPPING_STYLE : YAML_ANY_MAPPING_STYLE));
		for (size_t i = 0; i < want.kids.size(); i++) {
			const T *k = nullptr;
			if (want.k == Node::MAP) { if (i % 2 && t && t->type == CYAML_MAPPING) for (auto &f : t->fields) if (f.key == want.kids[i - 1].s) k = f.t; }
			else if (t && t->is_seq()) k = t->entry;
			node(k, want.kids[i], got ? &got->kids[i] : nullptr);
		}
		ev(x, want.k == Node::SEQ ? yaml_sequence_end_event_initialize(&x) : yaml_mapping_end_event_initialize(&x));
	}
	bool run(const T *t, const Node &want, const Node *got, unsigned cfg_) {
		cfg = cfg_; yaml_event_t x;
		int implicit = !(cfg & CYAML_CFG_DOCUMENT_DELIM);
		if (!yaml_emitter_initialize(&e)) return false;
		yaml_emitter_set_output(&e, put, this);
		ev(x, yaml_stream_start_event_initialize(&x, YAML_UTF8_ENCODING));
		ev(x, yaml_document_start_event_initialize(&x, nullptr, nullptr, nullptr, implicit));
		node(t, want, got);
		ev(x, yaml_document_end_event_initialize(&x, implicit));
		ev(x, yaml_stream_end_event_initialize(&x));
		if (ok && !yaml_emitter_flush(&e)) ok = false;
		yaml_emitter_delete(&e);
		return ok;
	}
};
/* Whether libyaml itself can state the document in the requested styles (its emitter has defects of its own). */
inline bool expressible(const T *t, const Node &want, unsigned cfg) {
	Emit e; if (!e.run(t, want, nullptr, cfg)) return false;
	Parsed p = parse_yaml(e.out);
	return p.ok && p.docs == 1 && !p.empty && p.doc.same_content(want);
}
inline void same_style(mc::Ctx &m, const T *t, const Node &want, const Node &exp, const Node &got, const std::string &path) {
	static const char *const SN[] = {"plain", "single quoted", "double quoted", "literal", "folded"};
	if (want.k == Node::SCALAR) {
		if (want_scalar_style(t, want) >= 0 && exp.style != got.style) m.fail("saved text at %s: %s scalar where the flags request one that is %s", path.empty() ? "top level" : path.c_str(), SN[got.style], SN[exp.style]);
		return;
	}
	if (is_coll(t) && exp.flow != got.flow) m.fail("saved text at %s: %s style where %s was requested", path.empty() ? "top level" : path.c_str(), got.flow ? "flow" : "block", exp.flow ? "flow" : "block");
	for (size_t i = 0; i < want.kids.size(); i++) {
		const T *k = nullptr; std::string p = path;
		if (want.k == Node::MAP) { if (i % 2 == 0) continue; p += "/" + want.kids[i - 1].s; if (t && t->type == CYAML_MAPPING) for (auto &f : t->fields) if (f.key == want.kids[i - 1].s) k = f.t; }
		else { p += mc::fmt("[%zu]", i); if (t && t->is_seq()) k = t->entry; }
		same_style(m, k, want.kids[i], exp.kids[i], got.kids[i], p);
	}
}
/* Styles and delimiters of a saved text whose content is known to be right. */
inline void check_style(mc::Ctx &m, const T *t, const Node &want, const std::string &text, unsigned cfg) {
	Parsed got = parse_yaml(text);
	Emit e; if (!e.run(t, want, &got.doc, cfg)) { m.count("not expressible by libyaml"); return; }
	Parsed exp = parse_yaml(e.out);
	if (!exp.ok || exp.docs != 1 || exp.empty || !exp.doc.same_content(got.doc)) { m.count("not expressible by libyaml"); return; }
	if (got.explicit_start != exp.explicit_start) m.fail("saved text %s a document start mark", got.explicit_start ? "has" : "lacks");
	if (got.explicit_end != exp.explicit_end) m.fail("saved text %s a document end mark", got.explicit_end ? "has" : "lacks");
	same_style(m, t, want, exp.doc, got.doc, "");
}
} // namespace com
