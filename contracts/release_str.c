/* C12: deleting strings and C functions. */
#include "yvh.h"
#include "interpreter/YASL_Object.h"
#include "data-structures/YASL_String.h"
static void *yv_p[2];
static int yv_freed[2], yv_else;
static void yv_free(void *p) {
	if (p == NULL) return;
	if (p == yv_p[0]) yv_freed[0]++; else if (p == yv_p[1]) yv_freed[1]++; else yv_else++;
	free(p);
}
#define free yv_free
#include "data-structures/YASL_String.c"
#undef free
static void str_unit(bool heap, int how) {
	struct YASL_String *s = malloc(sizeof *s);
	const size_t n = yv_size(0, 40);
	char *b = malloc(n + 1);
	s->str = b; s->start = 0; s->end = n; s->on_heap = heap; s->rc.refs = 0; s->rc.weak_refs = yv_size(1, 3);
	yv_p[0] = s; yv_p[1] = b; yv_freed[0] = yv_freed[1] = yv_else = 0;
	if (how == 0) {
		str_del_data(s);
		yv_assert(yv_freed[1] == (heap ? 1 : 0) && yv_freed[0] == 0, "the bytes go, when the string owns them; the counters stay");
		str_del_rc(s);
	} else str_del(s);
	yv_assert(yv_freed[1] == (heap ? 1 : 0) && yv_freed[0] == 1 && yv_else == 0, "the bytes go when the string owns them, and the string goes");
	yv_reach();
#ifdef YV_NATIVE
	if (!heap) free(b);
#endif
}
void u_str_heap(void) { str_unit(true, 0); } void u_str_const(void) { str_unit(false, 0); } void u_str_del_heap(void) { str_unit(true, 1); } void u_str_del_const(void) { str_unit(false, 1); }
void u_str_new(void) {
	struct YASL_String *s = YASL_String_new_sized(yv_size(0, 40), "");
	yv_assert(s->rc.refs == 0 && s->rc.weak_refs == 0 && !s->on_heap, "a string of constant bytes owns nothing");
	yv_reach();
#ifdef YV_NATIVE
	free(s);
#endif
}
void u_str_new_heap(void) {
	char *b = malloc(8);
	struct YASL_String *s = YASL_String_new_sized_heap(0, 7, b);
	yv_assert(s->rc.refs == 0 && s->rc.weak_refs == 0 && s->on_heap && s->str == b, "a string of heap bytes owns them");
	yv_reach();
#ifdef YV_NATIVE
	free(b); free(s);
#endif
}
