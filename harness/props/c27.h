/* What the generated C programs say about themselves. */
#pragma once
#include <cyaml/cyaml.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *c27_alloc(size_t n);                       /* zeroed */
/* A structure with two members m and n of one kind. i: index of a value; -2: the schema's default. */
struct c27_kind {
	const char *name; int layout;
	const cyaml_schema_value_t *schema; size_t size;
	const char *const *yaml;                 /* values */
	const char *const *bad;                  /* texts the member cannot take */
	int (*check[2])(const void *s, int i);
	void (*set[2])(void *s, int i);
	void (*wipe[2])(void *s);                /* zero the members the field owns */
	int zero;                                /* the zero value can be saved and copied */
	int has_default;
};
/* kind 0 plain, 1 sequence, 2 fixed sequence */
struct c27_top { const char *name; const cyaml_schema_value_t *schema; const char *const *yaml; const char *const *bad; int (*check)(const void *d, unsigned count, int i); int kind; };
/* A structure with many members. */
struct c27_member { const char *key; const char *name; const char *const *yaml; int (*check)(const void *s, int i); void (*wipe)(void *s); int zero; };
extern const struct c27_kind c27_kinds_0[], c27_kinds_1[], c27_kinds_2[], c27_kinds_3[], c27_kinds_4[], c27_kinds_5[];
extern const struct c27_top c27_tops[];
extern const struct c27_member c27_members[];
extern const cyaml_schema_value_t c27_all;
extern const size_t c27_all_size;
#ifdef __cplusplus
}
#endif
