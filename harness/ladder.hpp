/* Size ladders: cases whose size runs past every internal growth threshold. */
#pragma once
#include "gen.hpp"
namespace gen {
/* Each builds c.top and c.doc (not yet finished). */
void ladder_fields(Case &c, int n, int kind, int order);      /* mapping of n fields */
const int FIELD_KINDS = 6, FIELD_ORDERS = 4;
void ladder_depth(Case &c, int depth, int kind);               /* nested containers */
const int DEPTH_KINDS = 6;
void ladder_seq(Case &c, int n, int kind, int form);           /* sequence of n entries */
const int SEQ_KINDS = 9, SEQ_FORMS = 8;
void ladder_string(Case &c, size_t len, int form);
const int STRING_FORMS = 5;
/* One of a fixed list of cases with a count, size, offset or depth around 256 or 65536. */
void ladder_scale(Case &c, int i);
int scales();
int scale_kind(int i);      /* 0 depths, 1 fields, 2 entries, 3 sizes, 4 strings, 5 tables of names, 6 lengths and numbers of names */
}
