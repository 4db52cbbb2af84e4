"""Writes C programs that declare structures and describe them with the public schema macros.
usage: c27gen.py PART PARTS"""
import sys
part, parts = int(sys.argv[1]), int(sys.argv[2])
out = []
w = out.append
w('''#include <cyaml/cyaml.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include "props/c27.h"
#define F CYAML_FLAG_OPTIONAL
#define NEW(p, n) ((p) = c27_alloc(sizeof *(p) * (n)))
#pragma GCC diagnostic ignored "-Waddress-of-packed-member"
#pragma GCC diagnostic ignored "-Wtype-limits"
#pragma GCC diagnostic ignored "-Waddress"
static inline char *dup_(const char *s) { char *p = c27_alloc(strlen(s) + 1); strcpy(p, s); return p; }
static inline bool eq(const char *a, const char *b) { return a && !strcmp(a, b); }
typedef char str1[1]; typedef char str4[4]; typedef char str16[16];
enum colour { RED = 0, GREEN = 7, BLUE = -3 };
enum bits { B_ONE = 1, B_TWO = 2, B_TOP = 64 };
static const cyaml_strval_t colours[] = {{"red", 0}, {"green", 7}, {"blue", -3}};
static const cyaml_strval_t flagvals[] = {{"one", 1}, {"two", 2}, {"top", 64}};
static const cyaml_bitdef_t bitvals[] = {{.name = "lo", .offset = 0, .bits = 3}, {.name = "hi", .offset = 4, .bits = 4}};
struct point { int16_t x; uint8_t gap; int64_t y; };
static const cyaml_schema_field_t point_fields[] = {
	CYAML_FIELD_INT("x", CYAML_FLAG_DEFAULT, struct point, x),
	CYAML_FIELD_INT("y", CYAML_FLAG_OPTIONAL, struct point, y),
	CYAML_FIELD_END
};
struct named { uint8_t before; char *name; struct point *at; unsigned n_count; uint16_t *n; struct { uint32_t v; } in; };
static const cyaml_schema_value_t u16_entry = { CYAML_VALUE_UINT(CYAML_FLAG_DEFAULT, uint16_t) };
static const cyaml_schema_field_t named_fields[] = {
	CYAML_FIELD_STRING_PTR("name", CYAML_FLAG_OPTIONAL, struct named, name, 0, CYAML_UNLIMITED),
	CYAML_FIELD_MAPPING_PTR("at", CYAML_FLAG_OPTIONAL, struct named, at, point_fields),
	CYAML_FIELD_SEQUENCE("n", CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL, struct named, n, &u16_entry, 0, CYAML_UNLIMITED),
	CYAML_FIELD_UINT("v", CYAML_FLAG_OPTIONAL, struct named, in.v),
	CYAML_FIELD_IGNORE("skip", CYAML_FLAG_OPTIONAL),
	CYAML_FIELD_END
};
typedef int16_t arr2[2]; typedef char *sarr2[2]; typedef struct point parr2[2];
static const cyaml_schema_value_t i16_entry = { CYAML_VALUE_INT(CYAML_FLAG_DEFAULT, int16_t) };
static const cyaml_schema_value_t str_entry = { CYAML_VALUE_STRING(CYAML_FLAG_POINTER, char, 0, CYAML_UNLIMITED) };
static const cyaml_schema_value_t point_entry = { CYAML_VALUE_MAPPING(CYAML_FLAG_DEFAULT, struct point, point_fields) };
''')

class Elem:
    """A C type with the macros for it. vals: (yaml, check of an lvalue, statements setting it); bad: texts to be
    rejected. field / fieldp: macro text after (key, flags, structure, member)."""
    def __init__(s, id, ctype, kind, extra, value, vals, bad, ptr=True, emb=True, zero=True, ptrval=None):
        s.id, s.ctype, s.kind, s.extra, s.value, s.vals, s.bad, s.ptr, s.emb, s.zero, s.ptrval = id, ctype, kind, extra, value, vals, bad, ptr, emb, zero, ptrval
E = []
def ints(t, b, signed, id=None):
    if signed: lo, hi = -(1 << b-1), (1 << b-1) - 1
    else: lo, hi = 0, (1 << b) - 1
    def lit(v):
        if not signed: return "UINT64_C(%d)" % v
        return "INT64_MIN" if v == -(1 << 63) else "INT64_C(%d)" % v
    vs = sorted({lo, hi, 0, 1, hi // 3} | ({-1} if signed else set()), key=lambda v: (v not in (hi, lo), v))
    cast = "(int64_t)" if signed else "(uint64_t)"
    k = "INT" if signed else "UINT"
    E.append(Elem(id or t.replace(" ", "_"), t, k, "", f"CYAML_VALUE_{k}(%s, {t})",
        [(str(v), f"{cast}({{0}}) == {lit(v)}", f"{{0}} = ({t}){lit(v)};") for v in vs], [str(hi + 1), str(lo - 1), "x"]))
for b in (8, 16, 32, 64): ints("int%d_t" % b, b, True)
for b in (8, 16, 32, 64): ints("uint%d_t" % b, b, False)
ints("signed char", 8, True); ints("short", 16, True); ints("int", 32, True); ints("long", 64, True); ints("long long", 64, True)
ints("unsigned char", 8, False); ints("unsigned short", 16, False); ints("unsigned", 32, False); ints("unsigned long", 64, False); ints("size_t", 64, False)
for t in ("bool", "uint8_t", "int", "uint64_t"):
    E.append(Elem("bool_" + t, t, "BOOL", "", f"CYAML_VALUE_BOOL(%s, {t})", [("true", "{0} == 1", "{0} = 1;"), ("false", "{0} == 0", "{0} = 0;")], ["[]"]))
for t in ("enum colour", "int8_t", "int16_t", "int64_t"):
    E.append(Elem("enum_" + t.replace(" ", "_"), t, "ENUM", ", colours, CYAML_ARRAY_LEN(colours)", f"CYAML_VALUE_ENUM(%s, {t}, colours, CYAML_ARRAY_LEN(colours))",
        [("green", "(int64_t)({0}) == 7", "{0} = 7;"), ("blue", "(int64_t)({0}) == -3", "{0} = -3;"), ("red", "({0}) == 0", "{0} = 0;")], ["purple"]))
for t in ("enum bits", "uint8_t", "uint16_t", "uint64_t"):
    E.append(Elem("flags_" + t.replace(" ", "_"), t, "FLAGS", ", flagvals, CYAML_ARRAY_LEN(flagvals)", f"CYAML_VALUE_FLAGS(%s, {t}, flagvals, CYAML_ARRAY_LEN(flagvals))",
        [("[one, top]", "({0}) == 65", "{0} = 65;"), ("[two]", "({0}) == 2", "{0} = 2;"), ("[]", "({0}) == 0", "{0} = 0;")], ["[three]", "one"]))
for t in ("uint8_t", "uint16_t", "uint32_t", "uint64_t"):
    E.append(Elem("bits_" + t, t, "BITFIELD", ", bitvals, CYAML_ARRAY_LEN(bitvals)", f"CYAML_VALUE_BITFIELD(%s, {t}, bitvals, CYAML_ARRAY_LEN(bitvals))",
        [("{{lo: 7, hi: 9}}", "({0}) == 0x97", "{0} = 0x97;"), ("{{hi: 15}}", "({0}) == 0xf0", "{0} = 0xf0;"), ("{{}}", "({0}) == 0", "{0} = 0;")], ["{lo: 8}", "{hi: 16}", "{mid: 1}"]))
E.append(Elem("float", "float", "FLOAT", "", "CYAML_VALUE_FLOAT(%s, float)", [("1.5", "{0} == 1.5f", "{0} = 1.5f;"), ("-0.1", "{0} == -0.1f", "{0} = -0.1f;"), ("0", "{0} == 0", "{0} = 0;")], ["x"]))
E.append(Elem("double", "double", "FLOAT", "", "CYAML_VALUE_FLOAT(%s, double)", [("1.5", "{0} == 1.5", "{0} = 1.5;"), ("-0.1", "{0} == -0.1", "{0} = -0.1;"), ("1e300", "{0} == 1e300", "{0} = 1e300;")], ["x"]))
for n in (1, 4, 16):
    vs = [("'%s'" % v, '!memcmp(({0}), "%s", %d)' % (v + "\\0" * (n - len(v) - 1), n), 'strcpy({0}, "%s");' % v) for v in ("abcdefghijklmno"[:n - 1], "", "a"[:n - 1])]
    E.append(Elem("str%d" % n, "str%d" % n, "STRING", "STR", f"CYAML_VALUE_STRING(%s, str{n}, 0, {n - 1})", vs, ["abcdefghijklmnop"[:n]], ptr=False))
E.append(Elem("charp", "char", "STRING", "STRP", "CYAML_VALUE_STRING(%s, char, 0, 40)", [("text", 'eq({p}, "text")', '{p} = dup_("text");'), ("''", 'eq({p}, "")', '{p} = dup_("");'), ("a longer one", 'eq({p}, "a longer one")', '{p} = dup_("a longer one");')], ["a" * 41], emb=False))
E.append(Elem("point", "struct point", "MAPPING", ", point_fields", "CYAML_VALUE_MAPPING(%s, struct point, point_fields)",
    [("{{x: 1, y: -9000000000}}", "({0}).x == 1 && ({0}).gap == 0 && ({0}).y == -9000000000ll", "({0}).x = 1; ({0}).y = -9000000000ll;"), ("{{x: -32768}}", "({0}).x == -32768 && ({0}).gap == 0 && ({0}).y == 0", "({0}).x = -32768;")], ["{y: 1}", "{x: 32768}", "{x: 1, z: 2}"]))
E.append(Elem("named", "struct named", "MAPPING", ", named_fields", "CYAML_VALUE_MAPPING(%s, struct named, named_fields)",
    [("{{name: nm, at: {{x: 5}}, n: [1, 65535], v: 6}}", '({0}).before == 0 && eq(({0}).name, "nm") && ({0}).at && ({0}).at->x == 5 && ({0}).at->y == 0 && ({0}).n_count == 2 && ({0}).n[0] == 1 && ({0}).n[1] == 65535 && ({0}).in.v == 6',
      '({0}).name = dup_("nm"); NEW(({0}).at, 1); ({0}).at->x = 5; NEW(({0}).n, 2); ({0}).n[0] = 1; ({0}).n[1] = 65535; ({0}).n_count = 2; ({0}).in.v = 6;'),
     ("{{skip: [1, {{a: b}}]}}", "!({0}).name && !({0}).at && !({0}).n && !({0}).n_count && !({0}).in.v", "(void)({0}).in.v;"),
     ("{{at: {{x: 1, y: 2}}, n: []}}", "!({0}).name && ({0}).at && ({0}).at->x == 1 && ({0}).at->y == 2 && !({0}).n_count && !({0}).in.v", "NEW(({0}).at, 1); ({0}).at->x = 1; ({0}).at->y = 2;")], ["{at: {}}", "{n: [65536]}", "{v: -1}"]))
E.append(Elem("arr2", "arr2", "SEQF2", None, "CYAML_VALUE_SEQUENCE_FIXED(%s, int16_t, &i16_entry, 2)", [("[1, -32768]", "({0})[0] == 1 && ({0})[1] == -32768", "({0})[0] = 1; ({0})[1] = -32768;")], ["[1]", "[1, 2, 3]", "[1, 40000]"], ptr=False, emb=False))
E.append(Elem("sarr2", "sarr2", "SEQF2", None, "CYAML_VALUE_SEQUENCE_FIXED(%s, char *, &str_entry, 2)", [("[a, bc]", 'eq(({0})[0], "a") && eq(({0})[1], "bc")', '({0})[0] = dup_("a"); ({0})[1] = dup_("bc");')], ["[1]"], ptr=False, emb=False, zero=False))
E.append(Elem("parr2", "parr2", "SEQF2", None, "CYAML_VALUE_SEQUENCE_FIXED(%s, struct point, &point_entry, 2)", [("[{{x: 1}}, {{x: 2, y: 3}}]", "({0})[0].x == 1 && ({0})[0].y == 0 && ({0})[1].x == 2 && ({0})[1].y == 3", "({0})[0].x = 1; ({0})[1].x = 2; ({0})[1].y = 3;")], ["[{x: 1}]"], ptr=False, emb=False))

class Kind:
    """One way to declare a member. decl, field, own: templates with {n}; vals as above with {m} for the member."""
    def __init__(s, name, decl, field, vals, bad, own, zero=True, absent="1", defcheck=None):
        s.name, s.decl, s.field, s.vals, s.bad, s.own, s.zero, s.defcheck = name, decl, field, vals, bad, own, zero, defcheck
K = []
def fmt(t, lv, p=None): return t.replace("{0}", lv).replace("{p}", p or lv)
def yaml(t): return t.replace("{{", "{").replace("}}", "}")
ENTRY = {}
def entry(e, ptr):
    key = (e.id, ptr)
    if key not in ENTRY:
        nm = f"entry_{e.id}{'_p' if ptr else ''}"
        ENTRY[key] = (nm, "static const cyaml_schema_value_t %s = { %s };" % (nm, e.value % ("CYAML_FLAG_POINTER" if ptr else "CYAML_FLAG_DEFAULT")))
    return ENTRY[key][0]
COUNTS = ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "size_t", "unsigned"]
def field_macro(e, ptr, n="{n}", flags="F"):
    suffix = "_PTR" if ptr else ""
    if e.extra == "STR": return f'CYAML_FIELD_STRING("{n}", {flags}, S, {n}, 0)'
    if e.extra == "STRP": return f'CYAML_FIELD_STRING_PTR("{n}", {flags}, S, {n}, 0, 40)'
    return f'CYAML_FIELD_{e.kind}{suffix}("{n}", {flags}, S, {n}{e.extra})'
def generic(e, ptr, flags="F"):
    init = "{0}"
    if e.kind in ("ENUM",): init = "{ .strings = colours, .count = CYAML_ARRAY_LEN(colours) }"
    if e.kind == "FLAGS": init = "{ .strings = flagvals, .count = CYAML_ARRAY_LEN(flagvals) }"
    if e.kind == "BITFIELD": init = "{ .bitdefs = bitvals, .count = CYAML_ARRAY_LEN(bitvals) }"
    if e.kind == "STRING": init = "{ .min = 0, .max = sizeof(((S *)NULL)->{n}) - 1 }" if not ptr else "{ .min = 0, .max = 40 }"
    if e.kind == "MAPPING": init = "{ .fields =%s }" % e.extra[1:]
    return f'CYAML_FIELD{"_PTR" if ptr else ""}({e.kind}, "{{n}}", {flags}, S, {{n}}, {init})'
for e in E:
    if e.kind != "SEQF2":
        if e.emb:
            vals = [(yaml(y), fmt(c, "{m}"), fmt(st, "{m}")) for y, c, st in e.vals]
            own = "memset(&{m}, 0, sizeof {m});"
            K.append(Kind(f"FIELD_{e.kind} {e.id}", f"{e.ctype} {{n}};", field_macro(e, False), vals, e.bad, own, e.zero))
            K.append(Kind(f"FIELD_{e.kind} {e.id} with the pointer flag", f"{e.ctype} {{n}};", field_macro(e, False, flags="F | CYAML_FLAG_POINTER"), vals[:1], [], own, e.zero))
            K.append(Kind(f"FIELD({e.kind}) {e.id}", f"{e.ctype} {{n}};", generic(e, False), vals[:2], e.bad[:1], own, e.zero))
        if e.ptr:
            p = e.extra == "STRP"
            vals = [(yaml(y), "({m}) && " + fmt(c, "*{m}", "{m}"), ("" if p else "NEW({m}, 1); ") + fmt(st, "*{m}", "{m}")) for y, c, st in e.vals]
            own = "memset(&{m}, 0, sizeof {m});"
            K.append(Kind(f"FIELD_{e.kind}_PTR {e.id}", f"{e.ctype} *{{n}};", field_macro(e, True), vals, e.bad, own))
            K.append(Kind(f"FIELD_PTR({e.kind}) {e.id}", f"{e.ctype} *{{n}};", generic(e, True), vals[:2], e.bad[:1], own))
            K.append(Kind(f"FIELD_{e.kind}_PTR {e.id} with the pointer flag", f"{e.ctype} *{{n}};", field_macro(e, True, flags="F | CYAML_FLAG_POINTER"), vals[:1], [], own))
    # sequences
    big = e.id in ("int32_t", "uint8_t", "int64_t", "bool_bool", "enum_enum_colour", "flags_uint16_t", "bits_uint32_t", "float", "double", "str4", "str16", "charp", "point", "named", "arr2", "sarr2", "parr2")
    if not big: continue
    forms = []
    if e.emb or e.kind == "SEQF2": forms.append((e.ctype, entry(e, False), False))
    if e.ptr: forms.append((e.ctype + " *", entry(e, True), True))
    for ct, en, ep in forms:
        def chk(i, lv):
            y, c, st = e.vals[i % len(e.vals)]
            return (("(%s) && " % lv) if ep else "") + "(" + fmt(c, f"(*{lv})" if ep else lv, lv) + ")"
        def st(i, lv):
            y, c, s = e.vals[i % len(e.vals)]
            p = e.extra == "STRP"
            return (f"NEW({lv}, 1); " if ep and not p else "") + fmt(s, f"(*{lv})" if ep else lv, lv)
        def seqvals(cnt, alloc, ns):
            r = []
            for n in ns:
                y = "[" + ", ".join(yaml(e.vals[i % len(e.vals)][0]) for i in range(n)) + "]"
                c = " && ".join(([f"{cnt} == {n}"] if cnt else []) + ([f"{{m}} != NULL"] if alloc and n else []) + [chk(i, "{m}[%d]" % i) for i in range(n)]) or "1"
                s = (f"NEW({{m}}, {n}); " if alloc and n else "") + " ".join(st(i, "{m}[%d]" % i) for i in range(n)) + (f" {cnt} = {n};" if cnt else "")
                r.append((y, c, s))
            return r
        tag = e.id + (" pointer" if ep else "")
        badseq = ["[%s]" % ", ".join([yaml(e.vals[0][0])] * 5)]
        own = "memset(&{m}, 0, sizeof {m}); memset(&{m}_count, 0, sizeof {m}_count);"
        for ctp in COUNTS if e.id in ("int32_t", "charp", "point") else ["unsigned", "uint8_t"]:
            K.append(Kind(f"FIELD_SEQUENCE of {tag}, {ctp} count", f"{ct} *{{n}}; {ctp} {{n}}_count;", f'CYAML_FIELD_SEQUENCE("{{n}}", F | CYAML_FLAG_POINTER, S, {{n}}, &{en}, 0, 4)', seqvals("{m}_count", True, (3, 1, 4, 0)), badseq, own))
            K.append(Kind(f"FIELD_SEQUENCE array of {tag}, {ctp} count", f"{ctp} {{n}}_count; {ct} {{n}}[4];", f'CYAML_FIELD_SEQUENCE("{{n}}", F, S, {{n}}, &{en}, 0, 4)', seqvals("{m}_count", False, (4, 2, 0)), badseq, own))
            K.append(Kind(f"FIELD_SEQUENCE_COUNT of {tag}, {ctp} count", f"{ctp} many_{{n}}; {ct} *{{n}};", f'CYAML_FIELD_SEQUENCE_COUNT("{{n}}", F | CYAML_FLAG_POINTER, S, {{n}}, many_{{n}}, &{en}, 1, 4)', seqvals("{M}many_{n}", True, (2, 4)), badseq + ["[]"], "memset(&{m}, 0, sizeof {m}); memset(&{M}many_{n}, 0, sizeof {M}many_{n});"))
            K.append(Kind(f"FIELD_SEQUENCE_COUNT array of {tag}, {ctp} count", f"{ct} {{n}}[4]; uint8_t pad_{{n}}; {ctp} many_{{n}};", f'CYAML_FIELD_SEQUENCE_COUNT("{{n}}", F, S, {{n}}, many_{{n}}, &{en}, 0, 4)', seqvals("{M}many_{n}", False, (3, 0)), badseq, "memset(&{m}, 0, sizeof {m}); memset(&{M}many_{n}, 0, sizeof {M}many_{n});"))
            K.append(Kind(f"FIELD_PTR_COUNT(SEQUENCE) of {tag}, {ctp} count", f"struct {{ {ctp} a; {ctp} b; }} in_{{n}}; {ct} *{{n}};", f'CYAML_FIELD_PTR_COUNT(SEQUENCE, "{{n}}", F | CYAML_FLAG_POINTER, S, {{n}}, in_{{n}}.b, {{ .entry = &{en}, .min = 0, .max = CYAML_UNLIMITED }})', seqvals("{M}in_{n}.b", True, (3, 17)), [], "memset(&{m}, 0, sizeof {m}); memset(&{M}in_{n}.b, 0, sizeof {M}in_{n}.b);"))
        own = "memset(&{m}, 0, sizeof {m});"
        z = e.zero and not ep and e.id != "charp"
        badf = ["[%s]" % ", ".join([yaml(e.vals[0][0])] * 2), "[%s]" % ", ".join([yaml(e.vals[0][0])] * 4)]
        K.append(Kind(f"FIELD_SEQUENCE_FIXED of {tag}", f"{ct} *{{n}};", f'CYAML_FIELD_SEQUENCE_FIXED("{{n}}", F | CYAML_FLAG_POINTER, S, {{n}}, &{en}, 3)', seqvals(None, True, (3,)), badf, own))
        K.append(Kind(f"FIELD_SEQUENCE_FIXED array of {tag}", f"{ct} {{n}}[3];", f'CYAML_FIELD_SEQUENCE_FIXED("{{n}}", F, S, {{n}}, &{en}, CYAML_ARRAY_LEN(((S *)NULL)->{{n}}))', seqvals(None, False, (3,)), badf, own, z))
# members of members
for e in E:
    if e.id in ("int16_t", "uint64_t", "double", "str4"):
        vals = [(yaml(y), fmt(c, "{M}o_{n}.in.{n}"), fmt(s, "{M}o_{n}.in.{n}")) for y, c, s in e.vals]
        K.append(Kind(f"FIELD_{e.kind} {e.id} as a member of a member", f"struct {{ uint8_t a; struct {{ uint8_t b; {e.ctype} {{n}}; }} in; }} o_{{n}};", field_macro(e, False).replace("S, {n}", "S, o_{n}.in.{n}"), vals, e.bad, "memset(&{M}o_{n}.in.{n}, 0, sizeof {M}o_{n}.in.{n});", e.zero))
# defaults and limits in the generic macros
K.append(Kind("FIELD(INT) with limits and default", "int8_t {n};", 'CYAML_FIELD(INT, "{n}", F, S, {n}, { .min = -5, .max = 100, .missing = -5 })', [("100", "{m} == 100", "{m} = 100;"), ("-5", "{m} == -5", "{m} = -5;")], ["101", "-6"], "{m} = 0;", True, defcheck="{m} == -5"))
K.append(Kind("FIELD(UINT) with default", "uint64_t {n};", 'CYAML_FIELD(UINT, "{n}", F, S, {n}, { .missing = UINT64_MAX })', [("3", "{m} == 3", "{m} = 3;")], ["-1"], "{m} = 0;", True, defcheck="{m} == UINT64_MAX"))
K.append(Kind("FIELD(BOOL) with default", "bool {n};", 'CYAML_FIELD(BOOL, "{n}", F, S, {n}, { .missing = true })', [("false", "!{m}", "{m} = false;")], [], "{m} = 0;", True, defcheck="{m} == 1"))
K.append(Kind("FIELD(FLOAT) with default", "float {n};", 'CYAML_FIELD(FLOAT, "{n}", F, S, {n}, { .missing = 2.5 })', [("4", "{m} == 4", "{m} = 4;")], [], "{m} = 0;", True, defcheck="{m} == 2.5f"))
K.append(Kind("FIELD(ENUM) with default", "enum colour {n};", 'CYAML_FIELD(ENUM, "{n}", F, S, {n}, { .strings = colours, .count = CYAML_ARRAY_LEN(colours), .missing = BLUE })', [("green", "{m} == GREEN", "{m} = GREEN;")], [], "{m} = 0;", True, defcheck="{m} == BLUE"))
K.append(Kind("FIELD(FLAGS) with default", "uint16_t {n};", 'CYAML_FIELD(FLAGS, "{n}", F, S, {n}, { .strings = flagvals, .count = CYAML_ARRAY_LEN(flagvals), .missing = B_ONE | B_TOP })', [("[two]", "{m} == 2", "{m} = 2;")], [], "{m} = 0;", True, defcheck="{m} == 65"))
K.append(Kind("FIELD(BITFIELD) with default", "uint32_t {n};", 'CYAML_FIELD(BITFIELD, "{n}", F, S, {n}, { .bitdefs = bitvals, .count = CYAML_ARRAY_LEN(bitvals), .missing = 0x93 })', [("{hi: 2}", "{m} == 0x20", "{m} = 0x20;")], [], "{m} = 0;", True, defcheck="{m} == 0x93"))
K.append(Kind("FIELD_PTR(STRING) with default", "char *{n};", 'CYAML_FIELD_PTR(STRING, "{n}", F, S, {n}, { .min = 2, .max = 20, .missing = "the default" })', [("given", 'eq({m}, "given")', '{m} = dup_("given");')], ["x"], "{m} = NULL;", False, defcheck='eq({m}, "the default")'))
K.append(Kind("FIELD(STRING) with default", "char {n}[12];", 'CYAML_FIELD(STRING, "{n}", F, S, {n}, { .min = 2, .max = 11, .missing = "the default" })', [("given", 'eq({m}, "given")', 'strcpy({m}, "given");')], ["x"], "memset({m}, 0, sizeof {m});", False, defcheck='eq({m}, "the default")'))
K.append(Kind("FIELD_PTR(SEQUENCE) with default", "int32_t *{n}; uint8_t {n}_count;", 'CYAML_FIELD_PTR(SEQUENCE, "{n}", F | CYAML_FLAG_POINTER, S, {n}, { .entry = &entry_int32_t, .min = 0, .max = 9, .missing = (const int32_t[]){ 4, -5 }, .missing_count = 2 })', [("[6]", "{m}_count == 1 && {m}[0] == 6", "NEW({m}, 1); {m}[0] = 6; {m}_count = 1;")], [], "{m} = NULL; {m}_count = 0;", False, defcheck="{m}_count == 2 && {m} && {m}[0] == 4 && {m}[1] == -5"))
K.append(Kind("FIELD_PTR(MAPPING) with default", "struct point *{n};", 'CYAML_FIELD_PTR(MAPPING, "{n}", F, S, {n}, { .fields = point_fields, .missing = &(const struct point){ .x = 3, .y = -4 } })', [("{x: 6}", "{m} && {m}->x == 6 && {m}->y == 0", "NEW({m}, 1); {m}->x = 6;")], [], "{m} = NULL;", False, defcheck="{m} && {m}->x == 3 && {m}->y == -4"))

# sizes, counts, lengths and offsets that do not fit in 8 or 16 bits
w('''static const cyaml_schema_value_t i8_entry = { CYAML_VALUE_INT(CYAML_FLAG_DEFAULT, int8_t) };
static inline int ramp(const int8_t *p, unsigned n) { for (unsigned i = 0; i < n; i++) if (p[i] != (int)(i % 10)) return 0; return 1; }
static inline void ramp_set(int8_t *p, unsigned n) { for (unsigned i = 0; i < n; i++) p[i] = (int8_t)(i % 10); }
static inline int letters(const char *p, unsigned n) { for (unsigned i = 0; i < n; i++) if (p[i] != "abcdefghij"[i % 10]) return 0; return p[n] == 0; }
static inline void letters_set(char *p, unsigned n) { for (unsigned i = 0; i < n; i++) p[i] = "abcdefghij"[i % 10]; p[n] = 0; }
static inline int blank(const uint8_t *p, unsigned n) { for (unsigned i = 0; i < n; i++) if (p[i]) return 0; return 1; }
struct wide { uint8_t pad[70000]; int16_t x; };
static const cyaml_schema_field_t wide_fields[] = { CYAML_FIELD_INT("x", CYAML_FLAG_DEFAULT, struct wide, x), CYAML_FIELD_END };
static const cyaml_schema_value_t wide_entry = { CYAML_VALUE_MAPPING(CYAML_FLAG_DEFAULT, struct wide, wide_fields) };
static const cyaml_schema_value_t widep_entry = { CYAML_VALUE_MAPPING(CYAML_FLAG_POINTER, struct wide, wide_fields) };''')
w("static const cyaml_strval_t many_names[] = { %s };" % ", ".join('{"n%d", %d}' % (i, i) for i in range(300)))
w("static const cyaml_strval_t many_bits[] = { %s };" % ", ".join(['{"z%d", 0}' % i for i in range(260)] + ['{"b%d", (int64_t)(UINT64_C(1) << %d)}' % (i, i) for i in range(64)]))
w("static const cyaml_bitdef_t many_fields[] = { %s };" % ", ".join('{ .name = "f%d", .offset = %d, .bits = 1 }' % (i, i) for i in range(64)))
w("static const cyaml_bitdef_t many_same[] = { %s, { .name = \"last\", .offset = 40, .bits = 24 } };" % ", ".join('{ .name = "s%d", .offset = %d, .bits = 1 }' % (i, i % 40) for i in range(300)))
def let(n): return ("abcdefghij" * (n // 10 + 1))[:n]
def dig(n): return "[" + ", ".join(str(i % 10) for i in range(n)) + "]"
W = "memset(&{m}, 0, sizeof {m});"
def large(name, decl, field, vals, bad, own=W, zero=True): K.append(Kind("large: " + name, decl, field, vals, bad, own, zero))
FAR = "uint8_t far_{n}[70000]; "
large("FIELD_INT at a far offset", FAR + "int32_t {n};", 'CYAML_FIELD_INT("{n}", F, S, {n})', [("-7", "{m} == -7", "{m} = -7;")], ["x"])
large("FIELD_MAPPING at a far offset", FAR + "struct point {n};", 'CYAML_FIELD_MAPPING("{n}", F, S, {n}, point_fields)', [("{x: 3}", "{m}.x == 3", "{m}.x = 3;")], ["{y: 3}"], zero=True)
large("FIELD_STRING_PTR at a far offset", FAR + "char *{n};", 'CYAML_FIELD_STRING_PTR("{n}", F, S, {n}, 0, 70000)', [("%s" % let(k), "{m} && letters({m}, %d)" % k, "NEW({m}, %d); letters_set({m}, %d);" % (k + 1, k)) for k in (3, 300, 66000, 70000)], [let(70001)])
large("FIELD_STRING_PTR of at least 300", "char *{n};", 'CYAML_FIELD_STRING_PTR("{n}", F, S, {n}, 300, 70000)', [("%s" % let(k), "{m} && letters({m}, %d)" % k, "NEW({m}, %d); letters_set({m}, %d);" % (k + 1, k)) for k in (300, 70000)], [let(299), let(70001)])
large("FIELD_STRING_PTR of at least 66000", "char *{n};", 'CYAML_FIELD_STRING_PTR("{n}", F, S, {n}, 66000, CYAML_UNLIMITED)', [("%s" % let(k), "{m} && letters({m}, %d)" % k, "NEW({m}, %d); letters_set({m}, %d);" % (k + 1, k)) for k in (66000,)], [let(65999), let(500)])
for sz in (256, 300, 65536, 66000):
    large("FIELD_STRING of %d" % sz, "char {n}[%d];" % sz, 'CYAML_FIELD_STRING("{n}", F, S, {n}, 1)', [("%s" % let(k), "letters({m}, %d)" % k, "letters_set({m}, %d);" % k) for k in (2, sz - 1)], [let(sz), "''"], zero=False)
    large("FIELD_SEQUENCE_FIXED array of %d" % sz, "int8_t {n}[%d];" % sz, 'CYAML_FIELD_SEQUENCE_FIXED("{n}", F, S, {n}, &i8_entry, %d)' % sz, [(dig(sz), "ramp({m}, %d)" % sz, "ramp_set({m}, %d);" % sz)], [dig(sz - 1), dig(sz + 1), "[]"])
    large("FIELD_SEQUENCE_FIXED pointer to %d" % sz, "int8_t *{n};", 'CYAML_FIELD_SEQUENCE_FIXED("{n}", F | CYAML_FLAG_POINTER, S, {n}, &i8_entry, %d)' % sz, [(dig(sz), "{m} && ramp({m}, %d)" % sz, "NEW({m}, %d); ramp_set({m}, %d);" % (sz, sz))], [dig(sz - 1)])
    large("FIELD_SEQUENCE of %d to %d" % (sz, sz + 1), "int8_t *{n}; uint32_t {n}_count;", 'CYAML_FIELD_SEQUENCE("{n}", F | CYAML_FLAG_POINTER, S, {n}, &i8_entry, %d, %d)' % (sz, sz + 1), [(dig(k), "{m}_count == %d && {m} && ramp({m}, %d)" % (k, k), "NEW({m}, %d); ramp_set({m}, %d); {m}_count = %d;" % (k, k, k)) for k in (sz, sz + 1)], [dig(sz - 1), dig(sz + 2), "[1]"], W + " memset(&{m}_count, 0, sizeof {m}_count);", False)
large("FIELD_SEQUENCE_COUNT, both far", FAR + "int8_t {n}[4]; uint8_t between_{n}[70000]; uint16_t many_{n};", 'CYAML_FIELD_SEQUENCE_COUNT("{n}", F, S, {n}, many_{n}, &i8_entry, 0, 4)', [("[0, 1, 2]", "{M}many_{n} == 3 && ramp({m}, 3)", "ramp_set({m}, 3); {M}many_{n} = 3;")], [dig(5)], W + " memset(&{M}many_{n}, 0, sizeof {M}many_{n});")
large("FIELD_SEQUENCE_COUNT, the count far", "int8_t *{n}; uint8_t between_{n}[70000]; uint32_t many_{n};", 'CYAML_FIELD_SEQUENCE_COUNT("{n}", F | CYAML_FLAG_POINTER, S, {n}, many_{n}, &i8_entry, 0, CYAML_UNLIMITED)', [(dig(k), "{M}many_{n} == %d && {m} && ramp({m}, %d)" % (k, k), "NEW({m}, %d); ramp_set({m}, %d); {M}many_{n} = %d;" % (k, k, k)) for k in (2, 70000)], [], W + " memset(&{M}many_{n}, 0, sizeof {M}many_{n});")
large("FIELD_MAPPING of 70002 bytes", "struct wide {n};", 'CYAML_FIELD_MAPPING("{n}", F, S, {n}, wide_fields)', [("{x: 3}", "{m}.x == 3", "{m}.x = 3;")], ["{y: 3}"])
large("FIELD_MAPPING_PTR to 70002 bytes", "struct wide *{n};", 'CYAML_FIELD_MAPPING_PTR("{n}", F, S, {n}, wide_fields)', [("{x: 3}", "{m} && {m}->x == 3 && blank({m}->pad, 70000)", "NEW({m}, 1); {m}->x = 3;")], ["{y: 3}"])
large("FIELD_SEQUENCE of 70002 byte entries", "struct wide *{n}; uint8_t {n}_count;", 'CYAML_FIELD_SEQUENCE("{n}", F | CYAML_FLAG_POINTER, S, {n}, &wide_entry, 0, 3)', [("[{x: 3}, {x: -4}]", "{m}_count == 2 && {m} && {m}[0].x == 3 && {m}[1].x == -4 && blank({m}[1].pad, 70000)", "NEW({m}, 2); {m}[0].x = 3; {m}[1].x = -4; {m}_count = 2;")], ["[{x: 1}, {x: 40000}]"], W + " memset(&{m}_count, 0, sizeof {m}_count);")
large("FIELD_SEQUENCE array of pointers to 70002 bytes", "struct wide *{n}[3]; uint8_t {n}_count;", 'CYAML_FIELD_SEQUENCE("{n}", F, S, {n}, &widep_entry, 0, 3)', [("[{x: 3}, {x: -4}]", "{m}_count == 2 && {m}[0] && {m}[0]->x == 3 && {m}[1] && {m}[1]->x == -4 && !{m}[2]", "NEW({m}[0], 1); NEW({m}[1], 1); {m}[0]->x = 3; {m}[1]->x = -4; {m}_count = 2;")], ["[{x: 1}, {x: 40000}]"], W + " memset(&{m}_count, 0, sizeof {m}_count);")
large("FIELD_SEQUENCE_FIXED array of 70002 byte entries", "struct wide {n}[2];", 'CYAML_FIELD_SEQUENCE_FIXED("{n}", F, S, {n}, &wide_entry, 2)', [("[{x: 3}, {x: -4}]", "{m}[0].x == 3 && {m}[1].x == -4", "{m}[0].x = 3; {m}[1].x = -4;")], ["[{x: 1}]"])
large("FIELD_ENUM of 300 names", "uint16_t {n};", 'CYAML_FIELD_ENUM("{n}", F, S, {n}, many_names, CYAML_ARRAY_LEN(many_names))', [("n%d" % k, "{m} == %d" % k, "{m} = %d;" % k) for k in (299, 256, 43)], ["n300"])
large("FIELD_ENUM_PTR of 300 names", "int64_t *{n};", 'CYAML_FIELD_ENUM_PTR("{n}", F, S, {n}, many_names, CYAML_ARRAY_LEN(many_names))', [("n%d" % k, "{m} && *{m} == %d" % k, "NEW({m}, 1); *{m} = %d;" % k) for k in (299, 256, 43)], ["n300"])
large("FIELD_FLAGS of 324 names", "uint64_t {n};", 'CYAML_FIELD_FLAGS("{n}", F, S, {n}, many_bits, CYAML_ARRAY_LEN(many_bits))', [("[b63, b0, b40]", "{m} == UINT64_C(0x8000010000000001)", "{m} = UINT64_C(0x8000010000000001);"), ("[b%s]" % ", b".join(map(str, range(64))), "{m} == UINT64_MAX", "{m} = UINT64_MAX;")], ["[b64]"])
large("FIELD_FLAGS_PTR of 324 names", "uint64_t *{n};", 'CYAML_FIELD_FLAGS_PTR("{n}", F, S, {n}, many_bits, CYAML_ARRAY_LEN(many_bits))', [("[b63, b0, b40]", "{m} && *{m} == UINT64_C(0x8000010000000001)", "NEW({m}, 1); *{m} = UINT64_C(0x8000010000000001);")], ["[b64]"])
large("FIELD_BITFIELD of 64 names", "uint64_t {n};", 'CYAML_FIELD_BITFIELD("{n}", F, S, {n}, many_fields, CYAML_ARRAY_LEN(many_fields))', [("{f63: 1, f0: 1, f40: 1}", "{m} == UINT64_C(0x8000010000000001)", "{m} = UINT64_C(0x8000010000000001);")], ["{f64: 1}", "{f63: 2}"])
large("FIELD_BITFIELD of 301 names", "uint64_t {n};", 'CYAML_FIELD_BITFIELD("{n}", F, S, {n}, many_same, CYAML_ARRAY_LEN(many_same))', [("{last: 16777215, s0: 1}", "{m} == UINT64_C(0xffffff0000000001)", "{m} = UINT64_C(0xffffff0000000001);")], ["{last: 16777216}"])
large("FIELD_BITFIELD_PTR of 64 names", "uint64_t *{n};", 'CYAML_FIELD_BITFIELD_PTR("{n}", F, S, {n}, many_fields, CYAML_ARRAY_LEN(many_fields))', [("{f63: 1, f0: 1, f40: 1}", "{m} && *{m} == UINT64_C(0x8000010000000001)", "NEW({m}, 1); *{m} = UINT64_C(0x8000010000000001);")], ["{f64: 1}"])
w("static const int8_t many_def[66000] = { [0] = 5, [255] = 6, [299] = 7, [65999] = 8 };")
for k in (300, 66000):
    K.append(Kind("large: FIELD_PTR(SEQUENCE) with a default of %d" % k, "int8_t *{n}; uint32_t {n}_count;", 'CYAML_FIELD_PTR(SEQUENCE, "{n}", F | CYAML_FLAG_POINTER, S, {n}, { .entry = &i8_entry, .min = 0, .max = CYAML_UNLIMITED, .missing = many_def, .missing_count = %d })' % k, [("[6]", "{m}_count == 1 && {m}[0] == 6", "NEW({m}, 1); {m}[0] = 6; {m}_count = 1;")], [], "{m} = NULL; {m}_count = 0;", False, defcheck="{m}_count == %d && {m} && !memcmp({m}, many_def, %d)" % (k, k)))

for nm, text in ENTRY.values(): w(text)
# how the structures are laid out
LAYOUTS = [("", "uint8_t g0;", "uint8_t g1;", "uint16_t g2;"), (" __attribute__((packed))", "uint8_t g0;", "uint8_t g1[3];", "uint8_t g2;"), ("", "", "", "")]
def inst(t, n, M="s->"):
    return t.replace("{M}", M).replace("{m}", M + n).replace("{n}", n)
def cstr(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
num = 0
table = []
for ki, k in enumerate(K):
    for li, (attr, g0, g1, g2) in enumerate(LAYOUTS):
        if (ki * 3 + li) % parts != part: continue
        if "with the pointer flag" in k.name and li: continue
        b = f"k{ki}_{li}"
        w(f"/* {k.name}, layout {li} */")
        w(f"typedef struct {b}_s {{ {g0} {inst(k.decl, 'm')} {g1} {inst(k.decl, 'n')} {g2} }}{attr} {b};")
        w(f"#define S {b}")
        w(f"static const cyaml_schema_field_t {b}_f[] = {{ {inst(k.field, 'm')}, {inst(k.field, 'n')}, CYAML_FIELD_END }};")
        w("#undef S")
        w(f"static const cyaml_schema_value_t {b}_v = {{ CYAML_VALUE_MAPPING(CYAML_FLAG_POINTER, {b}, {b}_f) }};")
        for n in "mn":
            w(f"static int {b}_c{n}(const void *d, int i) {{ const {b} *s = d; switch (i) {{")
            for i, (y, c, st) in enumerate(k.vals): w(f"	case {i}: return ({inst(c, n)});")
            w(f"	case -2: return ({inst(k.defcheck, n) if k.defcheck else '1'});")
            w("	} return 1; }")
            w(f"static void {b}_s{n}(void *d, int i) {{ {b} *s = d; switch (i) {{")
            for i, (y, c, st) in enumerate(k.vals): w(f"	case {i}: {inst(st, n)} break;")
            w("	} }")
            w(f"static void {b}_o{n}(void *d) {{ {b} *s = d; {inst(k.own, n)} }}")
        w(f"static const char *const {b}_y[] = {{ {', '.join(cstr(v[0]) for v in k.vals)}, NULL }};")
        w(f"static const char *const {b}_b[] = {{ {', '.join(cstr(v) for v in k.bad)}{', ' if k.bad else ''}NULL }};")
        table.append(f"	{{ {cstr(k.name)}, {li}, &{b}_v, sizeof({b}), {b}_y, {b}_b, {{ {b}_cm, {b}_cn }}, {{ {b}_sm, {b}_sn }}, {{ {b}_om, {b}_on }}, {int(k.zero)}, {int(bool(k.defcheck))} }},")
w(f"const struct c27_kind c27_kinds_{part}[] = {{")
out += table
w("	{0}\n};")
# top-level values
if part == 0:
    tops = []
    def top(name, decl, schema, vals, bad, kind, emb=True):
        i = len(tops)
        w(f"static const cyaml_schema_value_t t{i}_v = {{ {schema} }};")
        w(f"static int t{i}_c(const void *d, unsigned count, int i) {{ {decl}; (void)count; switch (i) {{")
        for j, v in enumerate(vals): w(f"	case {j}: return {v[1]};")
        w("	} return 0; }")
        w(f"static const char *const t{i}_y[] = {{ {', '.join(cstr(v[0]) for v in vals)}, NULL }};")
        w(f"static const char *const t{i}_b[] = {{ {', '.join(cstr(v) for v in bad)}{', ' if bad else ''}NULL }};")
        tops.append(f"	{{ {cstr(name)}, &t{i}_v, t{i}_y, t{i}_b, t{i}_c, {kind} }},")
    for e in E:
        f = "CYAML_FLAG_POINTER"
        sch = e.value % f
        if e.extra == "STRP": vals = [(yaml(y), fmt(c, "*s", "s"), "") for y, c, st in e.vals]
        elif e.extra == "STR": vals = [(yaml(y), "eq(*s, \"%s\")" % y.strip("'"), "") for y, c, st in e.vals]
        else: vals = [(yaml(y), fmt(c, "(*s)", "s"), "") for y, c, st in e.vals]
        top(f"VALUE_{e.kind} {e.id}", f"{e.ctype} const *s = d", sch, vals, e.bad, 2 if e.kind == "SEQF2" else 0)
        if (e.id, False) in ENTRY or (e.id, True) in ENTRY:
            for ep in (False, True):
                if (e.id, ep) not in ENTRY: continue
                en = ENTRY[(e.id, ep)][0]
                ct = e.ctype + (" *" if ep else "")
                vv = []
                for n in (1, 2, 3, 0):
                    y = "[" + ", ".join(yaml(e.vals[i % len(e.vals)][0]) for i in range(n)) + "]"
                    c = " && ".join([f"count == {n}"] + [(("s[%d] && " % i) if ep else "") + "(" + fmt(e.vals[i % len(e.vals)][1], ("(*s[%d])" if ep else "s[%d]") % i, "s[%d]" % i) + ")" for i in range(n)])
                    vv.append((y, c, ""))
                top(f"VALUE_SEQUENCE of {ct} {e.id}", f"{ct} const *s = d", f"CYAML_VALUE_SEQUENCE(CYAML_FLAG_POINTER, {ct}, &{en}, 0, 3)", vv, ["[%s]" % ", ".join([yaml(e.vals[0][0])] * 4)], 1)
                fv = [(y, c[len("count == 2 && "):], "") for y, c, s in vv if c.startswith("count == 2")]
                top(f"VALUE_SEQUENCE_FIXED of {ct} {e.id}", f"{ct} const *s = d", f"CYAML_VALUE_SEQUENCE_FIXED(CYAML_FLAG_POINTER, {ct}, &{en}, 2)", fv, ["[%s]" % ", ".join([yaml(e.vals[0][0])] * 3)], 2)
    w("const struct c27_top c27_tops[] = {")
    out += tops
    w("	{0}\n};")
    # one structure with every macro
    names, decl, fields = [], [], []
    pick = [k for k in K if not k.name.startswith("large") and "with the pointer flag" not in k.name and ("count" not in k.name or "uint16_t count" in k.name or "uint8_t count" in k.name) and not k.defcheck]
    seen, chosen = set(), []
    for k in pick:
        key = k.name.split()[0] + (" array" if " array" in k.name else "") + ("" if "SEQUENCE" in k.name else k.name.split()[-1])
        if key in seen or (len([1 for c in chosen if c.name.split()[0] == k.name.split()[0]]) > 3): continue
        seen.add(key); chosen.append(k)
    w("typedef struct all_s { uint8_t first;")
    for i, k in enumerate(chosen): w(f"	{inst(k.decl, 'a%d' % i)} uint8_t gap{i};")
    w("} all;\n#define S all\nstatic const cyaml_schema_field_t all_f[] = {")
    order = list(range(len(chosen)))
    order = order[1::2] + order[0::2]
    for i in order: w(f"	{inst(chosen[i].field, 'a%d' % i)},")
    w("	CYAML_FIELD_END };\n#undef S")
    w("const cyaml_schema_value_t c27_all = { CYAML_VALUE_MAPPING(CYAML_FLAG_POINTER, all, all_f) };\nconst size_t c27_all_size = sizeof(all);")
    w("const struct c27_member c27_members[] = {")
    fn = []
    for i, k in enumerate(chosen):
        n = "a%d" % i
        fn.append(f"static int all_c{i}(const void *d, int i) {{ const all *s = d; switch (i) {{ " + " ".join(f"case {j}: return ({inst(v[1], n)});" for j, v in enumerate(k.vals)) + " } return 1; }")
        fn.append(f"static void all_o{i}(void *d) {{ all *s = d; {inst(k.own, n)} }}")
        fn.append(f"static const char *const all_y{i}[] = {{ {', '.join(cstr(v[0]) for v in k.vals)}, NULL }};")
        w(f"	{{ {cstr(n)}, {cstr(k.name)}, all_y{i}, all_c{i}, all_o{i}, {int(k.zero)} }},")
    w("	{0}\n};")
    at = next(i for i, l in enumerate(out) if l.startswith("const struct c27_member c27_members"))
    out[at:at] = fn
print("\n".join(out))
