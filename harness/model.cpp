#include "model.hpp"
#include "casetab.h"
#include <yaml.h>
#include <stdlib.h>
#include <math.h>
#include <errno.h>
#include <algorithm>

namespace md {
using mc::fmt;

/* ---------------------------------------------------------------- documents */

bool Node::same_content(const Node &o) const {
	if (k != o.k || s != o.s || kids.size() != o.kids.size()) return false;
	for (size_t i = 0; i < kids.size(); i++) if (!kids[i].same_content(o.kids[i])) return false;
	return true;
}

bool plain_ok(const std::string &s, bool flow) {
	(void)flow;
	if (s.empty()) return true;            /* written as nothing at all */
	if (s == "~") return true;
	for (unsigned char c : s) if (!isalnum(c) && c != '_' && c != '.' && c != '+' && c != '-' && c != '/') return false;
	if (s[0] == '-' && (s.size() == 1 || s[1] == '-')) return false;
	if (s == "..." || s.substr(0, 3) == "...") return false;
	return true;
}

struct Out {
	std::string o; int line = 0, col = 0;
	void put(const std::string &s) { for (unsigned char c : s) { o += (char)c; if (c == '\n') { line++; col = 0; } else if ((c & 0xC0) != 0x80) col++; } }
	void nl(int ind) { put("\n"); put(std::string(ind, ' ')); }
};

static bool block_scalar_ok(const std::string &s) {
	if (s.empty() || s[0] == ' ' || s[0] == '\n' || s[0] == '\t') return false;
	for (unsigned char c : s) if ((c < 32 && c != '\n') || c == 127 || c >= 0x80) return false;
	return true;
}
static std::string dq(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32 || c == 127) r += fmt("\\x%02x", c);
		else r += (char)c;
	}
	return r + "\"";
}
static bool single_ok(const std::string &s) { for (unsigned char c : s) if (c < 32 || c == 127) return false; return true; }

static void scalar(Out &o, Node &n, bool flow, bool key, int ind) {
	int st = n.style;
	if ((st == LITERAL || st == FOLDED) && (flow || key || !block_scalar_ok(n.s))) st = DOUBLE;
	if (st == SINGLE && !single_ok(n.s)) st = DOUBLE;
	if (st == PLAIN && !plain_ok(n.s, flow)) st = DOUBLE;
	if (st == PLAIN && n.s.empty() && (flow || key || !n.anchor.empty() || !n.tag.empty())) st = flow || key ? (int)SINGLE : st;
	switch (st) {
	case PLAIN: o.put(n.s); break;
	case SINGLE: { std::string r = "'"; for (char c : n.s) { r += c; if (c == '\'') r += c; } o.put(r + "'"); break; }
	case DOUBLE: o.put(dq(n.s)); break;
	default: {
		size_t end = n.s.size(); size_t trail = 0;
		while (end > 0 && n.s[end - 1] == '\n') { end--; trail++; }
		o.put(st == LITERAL ? "|" : ">");
		o.put(trail == 0 ? "-" : trail == 1 ? "" : "+");
		std::string body = n.s.substr(0, end);
		int in = ind < 0 ? 0 : ind;
		in += 2;
		size_t p = 0;
		while (p <= body.size()) {
			size_t q = body.find('\n', p);
			std::string l = body.substr(p, q == std::string::npos ? q : q - p);
			o.put("\n"); if (!l.empty()) { o.put(std::string(in, ' ')); o.put(l); }
			if (q == std::string::npos) break;
			/* In folded style a line break needs an extra empty line. */
			if (st == FOLDED) o.put("\n");
			p = q + 1;
		}
		for (size_t i = 1; i < trail; i++) o.put("\n");
	} }
}
static void props(Out &o, const Node &n) {
	if (!n.anchor.empty()) { o.put("&" + n.anchor + " "); }
	if (!n.tag.empty()) { o.put(n.tag + " "); }
}
static void flow(Out &o, Node &n, int ind);
static bool inline_only(const Node &n) { return n.k == Node::SCALAR || n.k == Node::ALIAS || n.k == Node::BAD || n.kids.empty() || n.flow; }

static void key_node(Out &o, Node &k, bool fl, int ind) {
	k.line = o.line; k.col = o.col;
	if (k.k == Node::ALIAS) { o.put("*" + k.s + " :"); return; }
	if (k.k != Node::SCALAR) { o.put("? "); flow(o, k, ind); if (fl) o.put(" :"); else { o.nl(ind); o.put(":"); } return; }
	if (!k.anchor.empty() || !k.tag.empty()) props(o, k);
	scalar(o, k, fl, true, ind);
	o.put(":");
}
static void flow(Out &o, Node &n, int ind) {
	n.line = o.line; n.col = o.col;
	if (n.k == Node::ALIAS) { o.put("*" + n.s + " "); return; }
	props(o, n);
	if (n.k == Node::SCALAR || n.k == Node::BAD) { scalar(o, n, true, false, ind); return; }
	o.put(n.k == Node::SEQ ? "[" : "{");
	for (size_t i = 0; i < n.kids.size(); i++) {
		if (n.k == Node::SEQ) { if (i) o.put(", "); flow(o, n.kids[i], ind); }
		else if (i % 2 == 0) { if (i) o.put(", "); key_node(o, n.kids[i], true, ind); o.put(" "); }
		else flow(o, n.kids[i], ind);
	}
	o.put(n.k == Node::SEQ ? "]" : "}");
}
/* n's text starts at the current position; ind is the indentation of the enclosing block. */
static void block(Out &o, Node &n, int ind, int step, bool compact_ok) {
	if (inline_only(n)) {
		if (n.k == Node::SEQ || n.k == Node::MAP || n.k == Node::ALIAS) { flow(o, n, ind); return; }
		n.line = o.line; n.col = o.col;
		props(o, n);
		scalar(o, n, false, false, ind);
		return;
	}
	int in = ind < 0 ? 0 : ind + step;
	bool p = !n.anchor.empty() || !n.tag.empty();
	if (p) {
		n.line = o.line; n.col = o.col;
		std::string s; if (!n.anchor.empty()) s += "&" + n.anchor; if (!n.tag.empty()) s += (s.empty() ? "" : " ") + n.tag;
		o.put(s);
	}
	if (p || !compact_ok) o.nl(in);
	else in = o.col;                       /* compact: starts where we are */
	if (!p) { n.line = o.line; n.col = o.col; }
	if (n.k == Node::MAP) {
		for (size_t i = 0; i < n.kids.size(); i += 2) {
			if (i) o.nl(in);
			key_node(o, n.kids[i], false, in);
			Node &v = n.kids[i + 1];
			if (!(v.k == Node::SCALAR && v.s.empty() && v.style == PLAIN && v.anchor.empty() && v.tag.empty()) && (inline_only(v) || !v.anchor.empty() || !v.tag.empty())) o.put(" ");
			if (v.k == Node::SCALAR && v.s.empty() && v.style == PLAIN) { v.line = o.line; v.col = o.col; if (!v.anchor.empty() || !v.tag.empty()) props(o, v); }
			else block(o, v, in, step, false);
		}
	} else {
		for (size_t i = 0; i < n.kids.size(); i++) {
			if (i) o.nl(in);
			Node &v = n.kids[i];
			if (v.k == Node::SCALAR && v.s.empty() && v.style == PLAIN) { o.put("-"); v.line = o.line; v.col = o.col; if (!v.anchor.empty() || !v.tag.empty()) { o.put(" "); props(o, v); } continue; }
			o.put("- ");
			block(o, v, in, step, true);
		}
	}
}
std::string render(Node &doc, int indent) {
	Out o;
	/* A bare empty scalar would be no document at all. */
	if (doc.k == Node::SCALAR && doc.s.empty() && doc.style == PLAIN && doc.anchor.empty() && doc.tag.empty()) o.put("--- ");
	block(o, doc, -1, indent, true);
	o.put("\n");
	return o.o;
}

static bool parse_node(yaml_parser_t *p, yaml_event_t *e, Node &n) {
	const char *a = nullptr, *t = nullptr;
	n.line = (int)e->start_mark.line; n.col = (int)e->start_mark.column;
	switch (e->type) {
	case YAML_ALIAS_EVENT: n.k = Node::ALIAS; n.s = (char *)e->data.alias.anchor; yaml_event_delete(e); return true;
	case YAML_SCALAR_EVENT:
		n.k = Node::SCALAR; n.s.assign((char *)e->data.scalar.value, e->data.scalar.length);
		a = (char *)e->data.scalar.anchor; if (a) n.anchor = a;
		t = (char *)e->data.scalar.tag; if (t) n.tag = t;
		switch (e->data.scalar.style) {
		case YAML_SINGLE_QUOTED_SCALAR_STYLE: n.style = SINGLE; break;
		case YAML_DOUBLE_QUOTED_SCALAR_STYLE: n.style = DOUBLE; break;
		case YAML_LITERAL_SCALAR_STYLE: n.style = LITERAL; break;
		case YAML_FOLDED_SCALAR_STYLE: n.style = FOLDED; break;
		default: n.style = PLAIN;
		}
		yaml_event_delete(e); return true;
	case YAML_SEQUENCE_START_EVENT:
		n.k = Node::SEQ; n.flow = e->data.sequence_start.style == YAML_FLOW_SEQUENCE_STYLE;
		a = (char *)e->data.sequence_start.anchor; if (a) n.anchor = a;
		t = (char *)e->data.sequence_start.tag; if (t) n.tag = t;
		break;
	case YAML_MAPPING_START_EVENT:
		n.k = Node::MAP; n.flow = e->data.mapping_start.style == YAML_FLOW_MAPPING_STYLE;
		a = (char *)e->data.mapping_start.anchor; if (a) n.anchor = a;
		t = (char *)e->data.mapping_start.tag; if (t) n.tag = t;
		break;
	default: yaml_event_delete(e); return false;
	}
	yaml_event_delete(e);
	for (;;) {
		yaml_event_t f;
		if (!yaml_parser_parse(p, &f)) return false;
		if (f.type == YAML_SEQUENCE_END_EVENT || f.type == YAML_MAPPING_END_EVENT) { yaml_event_delete(&f); return true; }
		n.kids.emplace_back();
		if (!parse_node(p, &f, n.kids.back())) return false;
	}
}
Parsed parse_yaml(const std::string &text) {
	Parsed r; r.ok = false; r.empty = true; r.explicit_start = r.explicit_end = false; r.docs = 0;
	yaml_parser_t p;
	if (!yaml_parser_initialize(&p)) return r;
	yaml_parser_set_input_string(&p, (const unsigned char *)text.data(), text.size());
	for (;;) {
		yaml_event_t e;
		if (!yaml_parser_parse(&p, &e)) break;
		if (e.type == YAML_STREAM_END_EVENT) { yaml_event_delete(&e); r.ok = true; break; }
		if (e.type == YAML_DOCUMENT_START_EVENT) { r.docs++; if (r.docs == 1) r.explicit_start = !e.data.document_start.implicit; yaml_event_delete(&e); continue; }
		if (e.type == YAML_DOCUMENT_END_EVENT) { if (r.docs == 1) r.explicit_end = !e.data.document_end.implicit; yaml_event_delete(&e); continue; }
		if (e.type == YAML_STREAM_START_EVENT) { yaml_event_delete(&e); continue; }
		Node n;
		if (!parse_node(&p, &e, n)) break;
		if (r.docs == 1) { r.doc = n; r.empty = false; }
	}
	yaml_parser_delete(&p);
	return r;
}

static void expand_(const Node &n, Node &out, std::map<std::string, Node> &anchors, std::multiset<std::string> &open, Expanded &x) {
	if (n.k == Node::ALIAS) {
		x.aliases++;
		auto it = anchors.find(n.s);
		if (it != anchors.end() && open.count(n.s)) x.unspecified = true;
		if (it == anchors.end()) { x.bad++; out = Node(); out.k = Node::BAD; }
		else out = it->second;
		return;
	}
	out = n; out.anchor.clear();
	if (!n.anchor.empty()) { if (open.count(n.anchor)) x.unspecified = true; open.insert(n.anchor); }
	for (size_t i = 0; i < n.kids.size(); i++) expand_(n.kids[i], out.kids[i], anchors, open, x);
	if (!n.anchor.empty()) { anchors[n.anchor] = out; open.erase(open.find(n.anchor)); }
}
Expanded expand(const Node &doc) {
	Expanded x; x.bad = x.aliases = 0; x.unspecified = false;
	std::map<std::string, Node> a; std::multiset<std::string> open;
	expand_(doc, x.doc, a, open, x);
	return x;
}

std::string describe(const Node &n) {
	switch (n.k) {
	case Node::SCALAR: return "'" + n.s + "'";
	case Node::ALIAS: return "*" + n.s;
	case Node::BAD: return "<bad alias>";
	default: break;
	}
	std::string r = n.k == Node::SEQ ? "[" : "{";
	for (size_t i = 0; i < n.kids.size(); i++) {
		if (i) r += (n.k == Node::MAP && i % 2) ? ": " : ", ";
		r += describe(n.kids[i]);
	}
	return r + (n.k == Node::SEQ ? "]" : "}");
}
std::string describe(const Val &v) {
	switch (v.k) {
	case Val::ZERO: return "zero";
	case Val::NUL: return "NULL";
	case Val::NUM: return fmt("0x%llx", (unsigned long long)v.n);
	case Val::STR: return v.s.size() > 60 ? fmt("\"%s...\" (%zu bytes)", env::quote(v.s.substr(0, 60)).c_str(), v.s.size()) : "\"" + env::quote(v.s) + "\"";
	default: break;
	}
	std::string r = v.k == Val::SEQ ? fmt("%zu[", v.v.size()) : "{";
	for (size_t i = 0; i < v.v.size() && i < 12; i++) { if (i) r += ", "; r += describe(v.v[i]); }
	if (v.v.size() > 12) r += ", ...";
	return r + (v.k == Val::SEQ ? "]" : "}");
}

/* ---------------------------------------------------------------- schemas */

Arena::~Arena() { if (!pool) for (auto &b : blocks) free(b.p); }
void *Arena::mem(size_t n) {
	if (pool) { if (used == slots || n > slot) abort(); void *q = pool + slot * used++; memset(q, 0, slot); blocks.push_back(Blk{q, n}); return q; }
	void *p = malloc(n ? n : 1); memset(p, 0, n); blocks.push_back(Blk{p, n}); return p; }
char *Arena::str(const std::string &s) { char *p = (char *)mem(s.size() + 1); memcpy(p, s.data(), s.size()); return p; }
uint64_t Arena::hash() const { uint64_t h = 7; for (auto &b : blocks) h = mc::hash(b.p, b.n, h); return h; }
T *Arena::t(cyaml_type_e type, unsigned flags, uint32_t size) {
	ts.emplace_back(new T);
	T *r = ts.back().get(); r->type = type; r->flags = flags; r->size = size; return r;
}
bool T::has_default() const {
	switch (type) {
	case CYAML_INT: case CYAML_ENUM: return imiss != 0;
	case CYAML_UINT: case CYAML_FLAGS: case CYAML_BITFIELD: return umiss != 0;
	case CYAML_BOOL: return bmiss;
	case CYAML_FLOAT: return fmiss != 0;
	case CYAML_STRING: return has_smiss;
	case CYAML_MAPPING: case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: return has_miss;
	default: return false;
	}
}
static uint32_t body_size(const T &t) { return t.is_seq() ? t.size * t.smax : t.type == CYAML_IGNORE ? 0 : t.size; }
uint32_t stored_size(const T &t) { return t.type == CYAML_IGNORE ? 0 : t.ptr() ? (uint32_t)sizeof(void *) : body_size(t); }
static uint32_t num_align(uint32_t n) { return (n == 2 || n == 4 || n == 8) ? n : 1; }
static uint32_t align_of(const T &t) {
	if (t.ptr()) return 8;
	switch (t.type) {
	case CYAML_STRING: case CYAML_IGNORE: return 1;
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: return align_of(*t.entry);
	case CYAML_MAPPING: { uint32_t a = 1; for (auto &f : t.fields) { a = std::max(a, align_of(*f.t)); if (f.t->type == CYAML_SEQUENCE) a = std::max(a, num_align(f.cnt_size)); } return a; }
	default: return num_align(t.size);
	}
}
static uint32_t up(uint32_t v, uint32_t a) { return (v + a - 1) / a * a; }
static void layout(T &t) {
	if (t.is_seq()) { layout(*t.entry); t.size = stored_size(*t.entry); return; }
	if (t.type != CYAML_MAPPING) return;
	for (auto &f : t.fields) layout(*f.t);
	uint32_t at = 0; int n = (int)t.fields.size();
	for (int k = 0; k < n; k++) {
		Field &f = t.fields[t.reverse ? n - 1 - k : k];
		bool cnt = f.t->type == CYAML_SEQUENCE;
		if (cnt && f.cnt_first) { at = up(at + f.cnt_gap, num_align(f.cnt_size)); f.cnt_off = at; at += f.cnt_size; }
		at = up(at + f.gap, align_of(*f.t)); f.off = at; at += stored_size(*f.t);
		if (cnt && !f.cnt_first) { at = up(at + f.cnt_gap, num_align(f.cnt_size)); f.cnt_off = at; at += f.cnt_size; }
	}
	t.size = std::max<uint32_t>(1, up(at, align_of(t)));
}
static void fill(Arena &a, T &t, cyaml_schema_value_t *c) {
	t.c = c;
	c->type = t.type; c->flags = (cyaml_flag_e)t.flags; c->data_size = t.size;
	switch (t.type) {
	case CYAML_INT: c->integer.min = t.imin; c->integer.max = t.imax; c->integer.missing = t.imiss; c->integer.validation_cb = (cyaml_validate_int_fn_t)t.cb; break;
	case CYAML_UINT: c->unsigned_integer.min = t.umin; c->unsigned_integer.max = t.umax; c->unsigned_integer.missing = t.umiss; c->unsigned_integer.validation_cb = (cyaml_validate_uint_fn_t)t.cb; break;
	case CYAML_BOOL: c->boolean.missing = t.bmiss; break;
	case CYAML_FLOAT: c->floating_point.missing = t.fmiss; c->floating_point.validation_cb = (cyaml_validate_float_fn_t)t.cb; break;
	case CYAML_STRING: c->string.min = t.smin; c->string.max = t.smax; c->string.validation_cb = (cyaml_validate_string_fn_t)t.cb;
		c->string.missing = t.has_smiss ? a.str(t.smiss) : nullptr; break;
	case CYAML_ENUM: case CYAML_FLAGS: {
		c->enumeration.count = (uint32_t)t.strs.size();
		cyaml_strval_t *s = t.strs.empty() ? nullptr : (cyaml_strval_t *)a.mem(sizeof *s * t.strs.size());
		for (size_t i = 0; i < t.strs.size(); i++) { s[i].str = a.str(t.strs[i].first); s[i].val = t.strs[i].second; }
		c->enumeration.strings = s; c->enumeration.validation_cb = (cyaml_validate_int_fn_t)t.cb;
		c->enumeration.missing = t.type == CYAML_ENUM ? t.imiss : (int64_t)t.umiss; break; }
	case CYAML_BITFIELD: {
		c->bitfield.count = (uint32_t)t.bits.size();
		cyaml_bitdef_t *b = t.bits.empty() ? nullptr : (cyaml_bitdef_t *)a.mem(sizeof *b * t.bits.size());
		for (size_t i = 0; i < t.bits.size(); i++) { b[i].name = a.str(t.bits[i].name); b[i].offset = t.bits[i].off; b[i].bits = t.bits[i].bits; }
		c->bitfield.bitdefs = b; c->bitfield.validation_cb = (cyaml_validate_uint_fn_t)t.cb; c->bitfield.missing = t.umiss; break; }
	case CYAML_MAPPING: {
		cyaml_schema_field_t *f = (cyaml_schema_field_t *)a.mem(sizeof *f * (t.fields.size() + 1));
		for (size_t i = 0; i < t.fields.size(); i++) {
			f[i].key = a.str(t.fields[i].key); f[i].data_offset = t.fields[i].off;
			if (t.fields[i].t->type == CYAML_SEQUENCE) { f[i].count_offset = t.fields[i].cnt_off; f[i].count_size = t.fields[i].cnt_size; }
			fill(a, *t.fields[i].t, &f[i].value);
		}
		c->mapping.fields = f; c->mapping.validation_cb = (cyaml_validate_mapping_fn_t)t.cb;
		if (t.has_miss) {
			uint8_t *p = (uint8_t *)a.mem(t.size);
			build_body(t, t.miss, p, [&a](size_t n) { return a.mem(n); });
			c->mapping.missing = p;
		}
		break; }
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
		cyaml_schema_value_t *e = (cyaml_schema_value_t *)a.mem(sizeof *e);
		fill(a, *t.entry, e);
		c->sequence.entry = e; c->sequence.min = t.smin; c->sequence.max = t.smax; c->sequence.validation_cb = (cyaml_validate_sequence_fn_t)t.cb;
		if (t.has_miss) {
			uint8_t *p = (uint8_t *)a.mem((size_t)t.size * t.miss.v.size());
			build_body(t, t.miss, p, [&a](size_t n) { return a.mem(n); });
			c->sequence.missing = p; c->sequence.missing_count = (uint32_t)t.miss.v.size();
		}
		break; }
	default: break;
	}
}
const cyaml_schema_value_t *lower(Arena &a, T &top) {
	layout(top);
	cyaml_schema_value_t *c = (cyaml_schema_value_t *)a.mem(sizeof *c);
	fill(a, top, c);
	return c;
}
std::string describe(const T &t, int ind) {
	static const char *const n[] = {"INT", "UINT", "BOOL", "ENUM", "FLAGS", "FLOAT", "STRING", "MAPPING", "BITFIELD", "SEQUENCE", "SEQUENCE_FIXED", "IGNORE", "?"};
	std::string p(ind, ' ');
	std::string r = fmt("%s size %u", n[std::min<int>(t.type, 12)], t.size);
	if (t.null_str()) r += " nullable-str"; else if (t.null_ok()) r += " nullable"; else if (t.ptr()) r += " pointer";
	if (t.optional()) r += " optional";
	if (t.strict()) r += " strict";
	if (t.flags & ~(CYAML_FLAG_OPTIONAL | CYAML_FLAG_POINTER_NULL_STR | CYAML_FLAG_STRICT)) r += fmt(" flags 0x%x", t.flags);
	if (t.type == CYAML_INT && (t.imin || t.imax)) r += fmt(" range %lld..%lld", (long long)t.imin, (long long)t.imax);
	if (t.type == CYAML_UINT && (t.umin || t.umax)) r += fmt(" range %llu..%llu", (unsigned long long)t.umin, (unsigned long long)t.umax);
	if (t.type == CYAML_STRING) { r += fmt(" length %u..%u", t.smin, t.smax); if (t.has_smiss) r += " default \"" + t.smiss + "\""; }
	if (t.imiss) r += fmt(" default %lld", (long long)t.imiss);
	if (t.umiss) r += fmt(" default %llu", (unsigned long long)t.umiss);
	if (t.bmiss) r += " default true";
	if (t.fmiss != 0) r += fmt(" default %g", t.fmiss);
	if (t.cb) r += " validated";
	if (t.has_miss) r += " default " + describe(t.miss);
	for (auto &s : t.strs) r += fmt(" %s=%lld", s.first.c_str(), (long long)s.second);
	for (auto &b : t.bits) r += fmt(" %s@%u:%u", b.name.c_str(), b.off, b.bits);
	if (t.is_seq()) { r += t.smax == CYAML_UNLIMITED ? fmt(" entries %u..unlimited of\n", t.smin) : fmt(" entries %u..%u of\n", t.smin, t.smax); r += p + "  " + describe(*t.entry, ind + 2); return r; }
	r += "\n";
	for (auto &f : t.fields) {
		r += p + "  '" + f.key + fmt("' @%u", f.off);
		if (f.t->type == CYAML_SEQUENCE) r += fmt(" (count @%u, %u bytes)", f.cnt_off, f.cnt_size);
		r += " " + describe(*f.t, ind + 2);
	}
	return r;
}

/* ---------------------------------------------------------------- reference load */

static unsigned next_cp(const std::string &s, size_t &i) {
	unsigned char c = (unsigned char)s[i];
	int n = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0;
	if (n == 0 || i + n > s.size()) { i++; return 0x110000u + c; }
	unsigned v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
	for (int k = 1; k < n; k++) v = (v << 6) | ((unsigned char)s[i + k] & 63);
	i += n;
	return v;
}
bool fold_eq(const std::string &a, const std::string &b) {
	size_t i = 0, j = 0;
	while (i < a.size() && j < b.size()) {
		unsigned x = next_cp(a, i), y = next_cp(b, j);
		if (x < 0x250) x = CASE_CLASS[x];
		if (y < 0x250) y = CASE_CLASS[y];
		if (x != y) return false;
	}
	return i == a.size() && j == b.size();
}
bool name_eq(const T &t, unsigned cfg, const std::string &a, const std::string &b) {
	bool sensitive = !(cfg & CYAML_CFG_CASE_INSENSITIVE);
	if (t.flags & CYAML_FLAG_CASE_INSENSITIVE) sensitive = false;
	else if (t.flags & CYAML_FLAG_CASE_SENSITIVE) sensitive = true;
	return sensitive ? a == b : fold_eq(a, b);
}
bool parse_int(const std::string &s, bool &neg, uint64_t &mag, bool &overflow) {
	size_t i = 0; neg = false; mag = 0; overflow = false;
	while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; }
	unsigned base = 10;
	if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { base = 16; i += 2; }
	else if (i < s.size() && s[i] == '0') base = 8;
	size_t digits = 0;
	for (; i < s.size(); i++) {
		int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99;
		if (d >= (int)base) return false;
		digits++;
		unsigned __int128 v = (unsigned __int128)mag * base + (unsigned)d;
		if (v >> 64) overflow = true;
		mag = (uint64_t)v;
	}
	return digits > 0;
}
uint64_t float_bits(uint32_t size, double d) {
	if (size == 4) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return b; }
	uint64_t b; memcpy(&b, &d, 8); return b;
}
static uint64_t mask_of(uint32_t size) { return size >= 8 ? ~0ull : size == 0 ? 0 : (1ull << (size * 8)) - 1; }

struct Loader {
	Ref r; unsigned cfg;
	bool int_ok(const T &t, const std::string &s, int64_t &out) {
		bool neg, over; uint64_t mag;
		if (!parse_int(s, neg, mag, over) || over) return false;
		if (neg ? mag > (1ull << 63) : mag > (uint64_t)INT64_MAX) return false;
		out = neg ? (int64_t)(0 - mag) : (int64_t)mag;
		return fits(t, out);
	}
	static bool fits(const T &t, int64_t v) {
		if (t.size < 8) { int64_t mx = (1ll << (t.size * 8 - 1)) - 1; if (v > mx || v < -mx - 1) return false; }
		return true;
	}
	bool uint_ok(const std::string &s, uint64_t max, uint64_t &out) {
		bool neg, over;
		if (!parse_int(s, neg, out, over) || over) return false;
		if (neg) { if (out == 0) r.unspecified = true; return false; }
		return out <= max;
	}
	static bool false_word(const std::string &s) {
		for (const char *w : {"false", "no", "off", "disable", "0"}) if (fold_eq(s, w)) return true;
		return false;
	}
	Val bad(int e = CYAML_ERR_INVALID_VALUE) { r.errs.insert(e); return Val(); }
	void done(const T &t, const Val &v) { r.done.push_back(Done{&t, v}); }

	Val scalar(const T &t, const std::string &s) {
		int64_t i; uint64_t u;
		switch (t.type) {
		case CYAML_INT:
			if (!int_ok(t, s, i)) return bad();
			if ((t.imin || t.imax) && (i < t.imin || i > t.imax)) return bad();
			return Val::num((uint64_t)i & mask_of(t.size));
		case CYAML_UINT:
			if (!uint_ok(s, mask_of(t.size), u)) return bad();
			if ((t.umin || t.umax) && (u < t.umin || u > t.umax)) return bad();
			return Val::num(u);
		case CYAML_BOOL: return Val::num(!false_word(s));
		case CYAML_ENUM:
			for (auto &e : t.strs) if (name_eq(t, cfg, e.first, s)) { if (!fits(t, e.second)) return bad(); return Val::num((uint64_t)e.second & mask_of(t.size)); }
			if (t.strict() || !int_ok(t, s, i)) return bad();
			return Val::num((uint64_t)i & mask_of(t.size));
		case CYAML_FLOAT: {
			/* Nearest representable value: the C library's conversion of the right precision. */
			char *end; errno = 0; uint64_t bits; bool range, inf, zero; double d;
			if (t.size == 4) { float f = strtof(s.c_str(), &end); range = errno == ERANGE; uint32_t b; memcpy(&b, &f, 4); bits = b; inf = isinf(f); zero = f == 0; d = f; }
			else { d = strtod(s.c_str(), &end); range = errno == ERANGE; memcpy(&bits, &d, 8); inf = isinf(d); zero = d == 0; }
			if (s.empty() || *end) return bad();
			if (isnan(d)) r.unspecified = true;
			if (inf && !range && t.strict()) r.unspecified = true;
			if (range && t.strict()) { if (!inf && !zero) r.unspecified = true; return bad(); }
			return Val::num(bits); }
		case CYAML_STRING:
			if (t.smin > t.smax) return bad(CYAML_ERR_BAD_MIN_MAX_SCHEMA);
			if (s.size() < t.smin) return bad(CYAML_ERR_STRING_LENGTH_MIN);
			if (s.size() > t.smax) return bad(CYAML_ERR_STRING_LENGTH_MAX);
			return Val::str(s);
		default: return bad(ANY_ERR);
		}
	}
	Val deflt(const T &t) {
		if (!t.has_default()) return Val();
		r.defaults++;
		switch (t.type) {
		case CYAML_INT: case CYAML_ENUM: return Val::num((uint64_t)t.imiss & mask_of(t.size));
		case CYAML_UINT: case CYAML_FLAGS: case CYAML_BITFIELD: return Val::num(t.umiss);
		case CYAML_BOOL: return Val::num(1);
		case CYAML_FLOAT: return Val::num(float_bits(t.size, t.fmiss));
		case CYAML_STRING: return Val::str(t.smiss);
		default: return t.miss;
		}
	}
	static bool is_null(const T &t, const std::string &s) {
		if (t.null_ok() && s.empty()) return true;
		return t.null_str() && (s == "~" || s == "null" || s == "Null" || s == "NULL");
	}
	/* cap: largest count its member can hold; in_seq: direct entry of a sequence. */
	Val value(const T &t, const Node &n, uint64_t cap, bool in_seq) {
		if (n.k == Node::BAD) return Val();
		if (n.k == Node::SCALAR && is_null(t, n.s)) { r.null_values++; return Val::nul(); }
		if (t.type == CYAML_IGNORE) return Val();
		bool want_scalar = t.type == CYAML_INT || t.type == CYAML_UINT || t.type == CYAML_BOOL || t.type == CYAML_ENUM || t.type == CYAML_FLOAT || t.type == CYAML_STRING;
		bool want_map = t.type == CYAML_MAPPING || t.type == CYAML_BITFIELD;
		if (want_scalar ? n.k != Node::SCALAR : want_map ? n.k != Node::MAP : n.k != Node::SEQ) return bad();
		Val v;
		if (want_scalar) {
			v = scalar(t, n.s);
			if (v.k != Val::ZERO) done(t, v);
			return v;
		}
		switch (t.type) {
		case CYAML_FLAGS: {
			uint64_t bits = 0; bool good = true;
			for (auto &k : n.kids) {
				if (k.k == Node::BAD) { good = false; continue; }
				if (k.k != Node::SCALAR) { bad(CYAML_ERR_UNEXPECTED_EVENT); good = false; continue; }
				bool found = false; uint64_t u;
				for (auto &e : t.strs) if (name_eq(t, cfg, e.first, k.s)) { bits |= (uint64_t)e.second; found = true; break; }
				if (found) continue;
				if (t.strict() || !uint_ok(k.s, mask_of(t.size), u)) { bad(); good = false; } else bits |= u;
			}
			if (!good) return Val();
			if (bits & ~mask_of(t.size)) return bad();
			v = Val::num(bits); done(t, v); return v; }
		case CYAML_BITFIELD: {
			uint64_t bits = 0; bool good = true; std::set<std::string> seen;
			for (size_t i = 0; i < n.kids.size(); i += 2) {
				const Node &k = n.kids[i], &x = n.kids[i + 1];
				if (k.k == Node::BAD) { good = false; continue; }
				if (k.k != Node::SCALAR) { bad(CYAML_ERR_UNEXPECTED_EVENT); good = false; continue; }
				const Bit *b = nullptr;
				for (auto &e : t.bits) {
					if (e.off + e.bits > t.size * 8) { r.errs.insert(CYAML_ERR_BAD_BITVAL_IN_SCHEMA); good = false; }
					if (name_eq(t, cfg, e.name, k.s)) { b = &e; break; }
				}
				if (!b) { bad(); good = false; continue; }
				if (!seen.insert(b->name).second) r.unspecified = true;
				if (x.k == Node::BAD) { good = false; continue; }
				if (x.k != Node::SCALAR) { bad(CYAML_ERR_UNEXPECTED_EVENT); good = false; continue; }
				uint64_t u, mx = b->bits >= 64 ? ~0ull : (1ull << b->bits) - 1;
				if (!uint_ok(x.s, mx, u)) { bad(); good = false; continue; }
				if (u) bits |= u << b->off;
			}
			if (!good) return Val();
			v = Val::num(bits); done(t, v); return v; }
		case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
			if (t.type == CYAML_SEQUENCE_FIXED && t.smin != t.smax) return bad(CYAML_ERR_SEQUENCE_FIXED_COUNT);
			if (t.type == CYAML_SEQUENCE && in_seq) return bad(CYAML_ERR_SEQUENCE_IN_SEQUENCE);
			v = Val::seq(); bool good = true;
			if (n.kids.size() > t.smax || (t.type == CYAML_SEQUENCE && n.kids.size() > cap)) { bad(CYAML_ERR_SEQUENCE_ENTRIES_MAX); good = false; }
			if (n.kids.size() < t.smin) { bad(CYAML_ERR_SEQUENCE_ENTRIES_MIN); good = false; }
			size_t e0 = r.errs.size();
			for (auto &k : n.kids) v.v.push_back(value(*t.entry, k, ~0ull, true));
			if (good && e0 == r.errs.size()) done(t, v);
			return v; }
		default: break;
		}
		/* Mapping. */
		v = Val::map(); v.v.resize(t.fields.size());
		std::vector<char> seen(t.fields.size(), 0);
		size_t e0 = r.errs.size();
		for (size_t i = 0; i < n.kids.size(); i += 2) {
			const Node &k = n.kids[i], &x = n.kids[i + 1];
			if (k.k == Node::BAD) continue;
			if (k.k != Node::SCALAR) { bad(ANY_ERR); continue; }
			size_t f = 0;
			while (f < t.fields.size() && !name_eq(t, cfg, t.fields[f].key, k.s)) f++;
			if (f == t.fields.size()) { if (!(cfg & CYAML_CFG_IGNORE_UNKNOWN_KEYS)) bad(CYAML_ERR_INVALID_KEY); continue; }
			if (seen[f] && t.fields[f].t->type != CYAML_IGNORE) { bad(CYAML_ERR_UNEXPECTED_EVENT); continue; }
			seen[f] = 1;
			uint64_t c = t.fields[f].t->type == CYAML_SEQUENCE ? mask_of(t.fields[f].cnt_size) : ~0ull;
			v.v[f] = value(*t.fields[f].t, x, c, false);
		}
		for (size_t f = 0; f < t.fields.size(); f++) if (!seen[f]) {
			if (t.fields[f].t->optional()) v.v[f] = deflt(*t.fields[f].t);
			else bad(CYAML_ERR_MAPPING_FIELD_MISSING);
		}
		if (e0 == r.errs.size()) done(t, v);
		return v;
	}
};
Ref ref_load(const T &t, const Node *doc, unsigned cfg) {
	Loader l; l.cfg = cfg;
	if (!doc) { l.r.v = Val::nul(); return l.r; }
	Expanded x = expand(*doc);
	if (x.unspecified) l.r.unspecified = true;
	if (x.bad) l.r.errs.insert(CYAML_ERR_INVALID_ALIAS);
	if (x.aliases && (cfg & CYAML_CFG_NO_ALIAS)) { l.r.errs.clear(); l.r.errs.insert(CYAML_ERR_ALIAS); }
	l.r.v = l.value(t, x.doc, UINT32_MAX, false);
	return l.r;
}

/* ---------------------------------------------------------------- memory */

std::string Reader::where() const { std::string r; for (auto &p : path) r += p; return r.empty() ? "top level" : r; }
void Reader::zeros(const uint8_t *p, size_t n, const char *why) {
	if (!exact_zero) return;
	for (size_t i = 0; i < n; i++) if (p[i]) m.fail("%s: %s at %s: byte %zu is 0x%02x instead of 0", what, why, where().c_str(), i, p[i]);
}
static uint64_t rd(const uint8_t *p, uint32_t n) { uint64_t v = 0; memcpy(&v, p, n > 8 ? 8 : n); return v; }

Val Reader::body(const T &t, const uint8_t *p, uint64_t count, uint64_t room) {
	Val v;
	switch (t.type) {
	case CYAML_STRING: {
		size_t n = strnlen((const char *)p, room);
		if (n == room) m.fail("%s: string at %s is not terminated within its %llu bytes", what, where().c_str(), (unsigned long long)room);
		if (!t.ptr()) zeros(p + n, room - n, "bytes after the string");
		return Val::str(std::string((const char *)p, n)); }
	case CYAML_MAPPING: {
		v = Val::map();
		std::vector<char> own(t.size, 0);
		for (auto &f : t.fields) {
			path.push_back("/" + f.key);
			uint64_t cnt = 0;
			if (f.t->type == CYAML_SEQUENCE) { cnt = rd(p + f.cnt_off, f.cnt_size); memset(&own[f.cnt_off], 1, f.cnt_size); }
			uint32_t st = stored_size(*f.t);
			if (st) memset(&own[f.off], 1, st);
			v.v.push_back(at(*f.t, p + f.off, cnt));
			path.pop_back();
		}
		if (exact_zero) for (uint32_t i = 0; i < t.size; i++) if (!own[i] && p[i])
			m.fail("%s: byte %u of the mapping at %s belongs to no member but is 0x%02x instead of 0", what, i, where().c_str(), p[i]);
		return v; }
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
		v = Val::seq();
		if (t.type == CYAML_SEQUENCE_FIXED) count = t.smax;
		if (t.size && count > room / t.size) m.fail("%s: %llu entries of %u bytes at %s do not fit the %llu bytes there are", what, (unsigned long long)count, t.size, where().c_str(), (unsigned long long)room);
		for (uint64_t i = 0; i < count; i++) {
			path.push_back(fmt("[%llu]", (unsigned long long)i));
			v.v.push_back(at(*t.entry, p + i * t.size, 0));
			path.pop_back();
		}
		if (!t.ptr()) zeros(p + count * t.size, room - count * t.size, "bytes after the last entry");
		return v; }
	case CYAML_IGNORE: return v;
	default: return Val::num(rd(p, t.size));
	}
}
Val Reader::at(const T &t, const uint8_t *loc, uint64_t count) {
	if (t.type == CYAML_IGNORE) return Val();
	if (!t.ptr()) return body(t, loc, count, body_size(t));
	const uint8_t *p; memcpy(&p, loc, sizeof p);
	if (!p) {
		if (t.type == CYAML_SEQUENCE && count) m.fail("%s: sequence at %s has a count of %llu but no entries", what, where().c_str(), (unsigned long long)count);
		return Val::nul();
	}
	const env::Heap::Blk *b = h.find(p);
	if (!b) m.fail("%s: pointer %p at %s is not a live block of the configured allocator", what, (const void *)p, where().c_str());
	for (const void *q : reached) if (q == p) m.fail("%s: the block at %s is referenced twice", what, where().c_str());
	reached.push_back(p);
	if (t.type != CYAML_STRING && t.type != CYAML_SEQUENCE && b->n < body_size(t)) m.fail("%s: block at %s has %zu bytes, %u needed", what, where().c_str(), b->n, body_size(t));
	return body(t, p, count, b->n);
}
Val Reader::top(const T &t, const void *data, unsigned count) {
	const uint8_t *p = (const uint8_t *)data;
	return at(t, (const uint8_t *)&p, count);
}
void Reader::finish(size_t pre) {
	if (h.live() != pre + reached.size()) m.fail("%s: %zu block(s) are allocated but the result reaches only %zu", what, h.live() - pre, reached.size());
}
Val canon(const T &t, const Val &v) {
	if (t.type == CYAML_IGNORE) return Val();
	if (v.k == Val::ZERO || v.k == Val::NUL) {
		if (t.type == CYAML_SEQUENCE) return Val::seq();
		if (t.ptr()) return Val::nul();
		Val r;
		switch (t.type) {
		case CYAML_STRING: return Val::str("");
		case CYAML_MAPPING: r = Val::map(); for (auto &f : t.fields) r.v.push_back(canon(*f.t, Val())); return r;
		case CYAML_SEQUENCE_FIXED: r = Val::seq(); for (uint32_t i = 0; i < t.smax; i++) r.v.push_back(canon(*t.entry, Val())); return r;
		default: return Val::num(0);
		}
	}
	Val r = v;
	if (v.k == Val::MAP) for (size_t i = 0; i < r.v.size(); i++) r.v[i] = canon(*t.fields[i].t, v.v[i]);
	if (v.k == Val::SEQ) for (auto &x : r.v) x = canon(*t.entry, x);
	return r;
}
static bool diff(const T &t, const Val &a, const Val &b, std::string &path, std::string &why) {
	if (a.k != b.k || a.n != b.n || a.s != b.s || a.v.size() != b.v.size()) { why = "expected " + describe(a) + ", got " + describe(b); return true; }
	for (size_t i = 0; i < a.v.size(); i++) {
		size_t l = path.size();
		path += a.k == Val::MAP ? "/" + t.fields[i].key : fmt("[%zu]", i);
		if (diff(a.k == Val::MAP ? *t.fields[i].t : *t.entry, a.v[i], b.v[i], path, why)) return true;
		path.resize(l);
	}
	return false;
}
void same(mc::Ctx &m, const T &t, const Val &want, const Val &got, const char *what, bool canonical) {
	std::string path, why;
	bool d = canonical ? diff(t, want, got, path, why) : diff(t, canon(t, want), canon(t, got), path, why);
	if (d) m.fail("%s: wrong value at %s: %s", what, path.empty() ? "top level" : path.c_str(), why.c_str());
}
void check_loaded(mc::Ctx &m, env::Heap &h, const T &t, const Val &want, const void *data, unsigned count, const char *what, size_t pre) {
	Reader r(m, h, what);
	Val got = r.top(t, data, count);
	r.finish(pre);
	same(m, t, want, got, what);
}

void build_body(const T &t, const Val &v, uint8_t *p, const Alloc &al) {
	switch (v.k) {
	case Val::ZERO: case Val::NUL: return;
	case Val::NUM: memcpy(p, &v.n, t.size > 8 ? 8 : t.size); return;
	case Val::STR: memcpy(p, v.s.c_str(), v.s.size() + 1); return;
	case Val::MAP:
		for (size_t i = 0; i < v.v.size(); i++) {
			const Field &f = t.fields[i];
			if (f.t->type == CYAML_IGNORE) continue;
			if (f.t->type == CYAML_SEQUENCE) { uint64_t n = v.v[i].v.size(); memcpy(p + f.cnt_off, &n, f.cnt_size); }
			build_at(*f.t, v.v[i], p + f.off, al);
		}
		return;
	case Val::SEQ: for (size_t i = 0; i < v.v.size(); i++) build_at(*t.entry, v.v[i], p + i * t.size, al); return;
	}
}
void *build(const T &t, const Val &v, const Alloc &al, bool) {
	if (v.k == Val::ZERO || v.k == Val::NUL) return nullptr;
	size_t n = t.type == CYAML_STRING ? v.s.size() + 1 : t.type == CYAML_SEQUENCE ? (size_t)t.size * v.v.size() : body_size(t);
	uint8_t *p = (uint8_t *)al(n);
	build_body(t, v, p, al);
	return p;
}
void build_at(const T &t, const Val &v, uint8_t *loc, const Alloc &al) {
	if (t.type == CYAML_IGNORE) return;
	if (!t.ptr()) { build_body(t, v, loc, al); return; }
	void *p = build(t, v, al);
	memcpy(loc, &p, sizeof p);
}

/* ---------------------------------------------------------------- reference save */

struct Saver {
	SaveRef r; unsigned cfg;
	static int64_t sext(uint64_t v, uint32_t size) { if (size < 8 && (v >> (size * 8 - 1) & 1)) v |= ~mask_of(size); return (int64_t)v; }
	Node bad(int e) { r.errs.insert(e); return Node(); }
	Node value(const T &t, const Val &v, bool in_seq) {
		if (v.k == Val::NUL || v.k == Val::ZERO) {
			if (t.ptr()) {
				if (t.null_str()) return Node::sc("null");
				if (t.null_ok()) return Node::sc("");
				if (t.type == CYAML_SEQUENCE) return Node::seq();
				return bad(CYAML_ERR_INVALID_VALUE);
			}
			return value(t, canon(t, v), in_seq);
		}
		Node n;
		switch (t.type) {
		case CYAML_INT: return Node::sc(fmt("%lld", (long long)sext(v.n, t.size)));
		case CYAML_UINT: return Node::sc(fmt("%llu", (unsigned long long)v.n));
		case CYAML_BOOL: return Node::sc(v.n ? "true" : "false");
		case CYAML_ENUM:
			for (auto &e : t.strs) if (((uint64_t)e.second & mask_of(t.size)) == v.n && (e.second == sext(v.n, t.size) || (uint64_t)e.second == v.n)) return Node::sc(e.first);
			if (t.strict()) return bad(CYAML_ERR_INVALID_VALUE);
			return Node::sc(fmt("%lld", (long long)sext(v.n, t.size)));
		case CYAML_FLOAT: {
			if (t.size == 4) { float f; uint32_t b = (uint32_t)v.n; memcpy(&f, &b, 4); return Node::sc(fmt("%.9g", (double)f)); }
			double d; memcpy(&d, &v.n, 8); return Node::sc(fmt("%.17g", d)); }
		case CYAML_STRING: return Node::sc(v.s);
		case CYAML_FLAGS: {
			n = Node::seq(); uint64_t left = v.n;
			for (auto &e : t.strs) if ((left & (uint64_t)e.second) && !((uint64_t)e.second & ~v.n)) { n.add(Node::sc(e.first)); left &= ~(uint64_t)e.second; }
			if (left) { if (t.strict()) return bad(CYAML_ERR_INVALID_VALUE); n.add(Node::sc(fmt("%llu", (unsigned long long)left))); }
			return n; }
		case CYAML_BITFIELD:
			n = Node::map();
			for (auto &b : t.bits) {
				if (b.off + b.bits > t.size * 8) return bad(CYAML_ERR_BAD_BITVAL_IN_SCHEMA);
				uint64_t x = b.off > 63 ? 0 : (v.n >> b.off) & (b.bits >= 64 ? ~0ull : (1ull << b.bits) - 1);
				if (x) n.add(b.name, Node::sc(fmt("0x%llx", (unsigned long long)x)));
			}
			return n;
		case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
			if (t.type == CYAML_SEQUENCE_FIXED && t.smin != t.smax) return bad(CYAML_ERR_SEQUENCE_FIXED_COUNT);
			if (t.type == CYAML_SEQUENCE && in_seq) return bad(CYAML_ERR_SEQUENCE_IN_SEQUENCE);
			n = Node::seq();
			for (auto &x : v.v) n.add(value(*t.entry, x, true));
			return n;
		case CYAML_MAPPING:
			n = Node::map();
			for (size_t i = 0; i < t.fields.size(); i++) {
				const T &f = *t.fields[i].t; const Val &x = v.v[i];
				if (f.type == CYAML_IGNORE) continue;
				if ((x.k == Val::NUL || x.k == Val::ZERO) && f.ptr() && f.optional()) {
					if (!f.has_default()) continue;
					/* Left out it would come back as the default. */
					if (!f.null_ok() && f.type != CYAML_SEQUENCE) { r.unspecified = true; continue; }
				}
				n.add(t.fields[i].key, value(f, x, false));
			}
			return n;
		default: return bad(CYAML_ERR_BAD_TYPE_IN_SCHEMA);
		}
	}
};
SaveRef ref_save(const T &t, const Val &v, unsigned cfg) {
	Saver s; s.cfg = cfg;
	s.r.doc = s.value(t, v, false);
	return s.r;
}

} // namespace md
