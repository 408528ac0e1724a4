/*
 * C08: data-structures/YASL_String.c on strings of any length and contents, which are slices of buffers of any size.
 *
 * yv_p is an arbitrary position of the haystack. memcmp is assumed: at the position yv_p it says whether the needle occurs there
 * (yv_occ, arbitrary), elsewhere it says anything. The scans from left to right are compared with the specification probe by
 * probe (yv_pos is where the specification looks next). What the functions put together (pieces, bytes) is recorded by the
 * functions that are called for it.
 */
#include "yvh.h"
#include "data-structures/YASL_String.h"
#include "data-structures/YASL_List.h"
#include "data-structures/YASL_ByteBuffer.h"
#include "interpreter/YASL_Object.h"

#define YV_MAX ((size_t)1 << 30)
static struct YASL_String yv_h, yv_n, yv_r, yv_piece;
static char *yv_a, *yv_b, *yv_c;
static size_t yv_st, yv_H, yv_sn, yv_N, yv_sr, yv_R;
static size_t yv_p, yv_pos, yv_end, yv_next, yv_subs, yv_apps, yv_s1, yv_e1, yv_reps;
static int yv_occ, yv_bad, yv_last, yv_lstop, yv_rstop, yv_mode, yv_pend, yv_memr;
static int64_t yv_cnt, yv_max;
static struct YASL_ByteBuffer yv_bb;
static unsigned char yv_bytes[4];
enum { M_NONE, M_FIND, M_COUNT, M_SPLIT, M_SPLITD, M_TRIM, M_TRIMD, M_REPL, M_CMP };

#define HAY(k) yv_a[yv_st + (k)]
#define WS(c) ((c) == ' ' || (c) == '\t' || (c) == '\n' || (c) == '\v' || (c) == '\r')
#define LOG yv_pos, yv_end, yv_next, yv_subs, yv_apps, yv_s1, yv_e1, yv_reps, yv_bad, yv_last, yv_lstop, yv_rstop, yv_pend, yv_memr, yv_cnt, yv_bb

int nondet_int(void);
int memcmp(const void *x, const void *y, size_t n) {
	int r = nondet_int();
	if (yv_mode == M_CMP) {
		if ((const char *)x != yv_a + yv_st || (const char *)y != yv_b + yv_sn || n != (yv_H < yv_N ? yv_H : yv_N)) yv_bad = 1;
		yv_memr = r;
		return r;
	}
	const char *h = (const char *)(__CPROVER_same_object(x, yv_a) ? x : y), *d = (const char *)(__CPROVER_same_object(x, yv_a) ? y : x);
	if (!__CPROVER_same_object(h, yv_a) || n != yv_N || d != yv_b + yv_sn || h < yv_a + yv_st || h + n > yv_a + yv_st + yv_H) { yv_bad = 1; return r; }
	size_t at = (size_t)(h - (yv_a + yv_st));
	if (at == yv_p) __CPROVER_assume((r == 0) == (yv_occ != 0));
	if (yv_mode == M_COUNT) {
		if (at != yv_pos) yv_bad = 1;
		if (r == 0) { yv_cnt++; yv_pos += yv_N; } else yv_pos++;
	} else if (yv_mode == M_TRIM) {
		if (!yv_lstop && at == yv_pos && at + yv_N <= yv_end) { if (r == 0) yv_pos += yv_N; else yv_lstop = 1; }
		else if (at + yv_N == yv_end && at >= yv_pos) { if (r == 0) yv_end -= yv_N; else yv_rstop = 1; }
		else yv_bad = 1;
	} else if (yv_mode == M_REPL) {
		if (at != yv_pos) yv_bad = 1;
		yv_pend = r == 0 ? 1 : 2;
	}
	return r;
}
void YASL_List_append(struct YASL_List *const ls, struct YASL_Object value) {
	if (value.type != Y_STR || value.value.sval != &yv_piece) yv_bad = 1;
	yv_apps++;
}
struct YASL_ByteBuffer *YASL_ByteBuffer_new(const size_t size) { yv_bb.bytes = yv_bytes; yv_bb.count = 0; return &yv_bb; }
void YASL_ByteBuffer_del(struct YASL_ByteBuffer *const bb) { if (bb->bytes) yv_bad = 1; }
void YASL_ByteBuffer_extend(struct YASL_ByteBuffer *const bb, const unsigned char *const bytes, const size_t n) {
	if ((const char *)bytes != yv_c + yv_sr || n != yv_R || yv_pend != 1 || (yv_max >= 0 && yv_cnt >= yv_max)) yv_bad = 1;
	yv_pos += yv_N; yv_pend = 0; yv_cnt++;
}
void YASL_ByteBuffer_add_byte(struct YASL_ByteBuffer *const bb, const unsigned char byte) {
	if (yv_pos >= yv_H || byte != (unsigned char)HAY(yv_pos) || !(yv_pend == 2 || yv_N > yv_H - yv_pos || (yv_max >= 0 && yv_cnt >= yv_max))) yv_bad = 1;
	yv_pos++; yv_pend = 0;
}
struct YASL_String *YASL_String_new_substring(const size_t start, const size_t end, const struct YASL_String *const string)
	YV_REQUIRES(1)
	YV_ASSIGNS(yv_bad, yv_next, yv_subs, yv_s1, yv_e1, yv_last)
	YV_ENSURES(__CPROVER_return_value == &yv_piece && yv_subs == __CPROVER_old(yv_subs) + 1 && yv_s1 == start - yv_st && yv_e1 == end - yv_st)
	YV_ENSURES(yv_next == end - yv_st + (yv_mode == M_SPLIT ? yv_N : 0) && yv_last == (end == yv_st + yv_H))
	YV_ENSURES(!yv_bad == !(__CPROVER_old(yv_bad) || string != &yv_h || start < yv_st || end < start || end > yv_st + yv_H ||
		(yv_mode == M_SPLIT && (start != yv_st + __CPROVER_old(yv_next) || __CPROVER_old(yv_last) || (start <= yv_st + yv_p && yv_st + yv_p < end && yv_p + yv_N <= yv_H && yv_occ) ||
			(end == yv_st + yv_p && end != yv_st + yv_H && !yv_occ))) ||
		(yv_mode == M_SPLITD && (start < yv_st + __CPROVER_old(yv_next) || start >= end || (__CPROVER_old(yv_subs) > 0 && start == yv_st + __CPROVER_old(yv_next)) ||
			(__CPROVER_old(yv_next) <= yv_p && yv_st + yv_p < start && !WS(HAY(yv_p))) || (start <= yv_st + yv_p && yv_st + yv_p < end && WS(HAY(yv_p)))))));
#define FN1(t, f) t f(struct YASL_String *a) YV_REQUIRES(a == &yv_h) YV_ASSIGNS(LOG);
FN1(struct YASL_String *, YASL_String_toupper)
FN1(struct YASL_String *, YASL_String_tolower)
#define FNH(t, f) t f(struct YASL_String *haystack) YV_REQUIRES(haystack == &yv_h) YV_ASSIGNS(LOG);
#define FNN(t, f) t f(struct YASL_String *haystack, struct YASL_String *needle) YV_REQUIRES(haystack == &yv_h && needle == &yv_n) YV_ASSIGNS(LOG);
FNN(bool, YASL_String_startswith)
FNN(bool, YASL_String_endswith)
FNN(yasl_int, YASL_String_count)
FNH(struct YASL_String *, YASL_String_ltrim_default)
FNH(struct YASL_String *, YASL_String_rtrim_default)
FNH(struct YASL_String *, YASL_String_trim_default)
FNN(struct YASL_String *, YASL_String_ltrim)
FNN(struct YASL_String *, YASL_String_rtrim)
FNN(struct YASL_String *, YASL_String_trim)
int64_t str_find_index(const struct YASL_String *const haystack, const struct YASL_String *const needle) YV_REQUIRES(haystack == &yv_h && needle == &yv_n) YV_ASSIGNS(LOG);
int64_t YASL_String_cmp(const struct YASL_String *const left, const struct YASL_String *const right) YV_REQUIRES(left == &yv_h && right == &yv_n) YV_ASSIGNS(LOG);
void YASL_String_split_default(struct YASL_List *data, struct YASL_String *haystack) YV_REQUIRES(haystack == &yv_h) YV_ASSIGNS(LOG);
void YASL_String_split_fast(struct YASL_List *data, struct YASL_String *haystack, struct YASL_String *needle) YV_REQUIRES(haystack == &yv_h && needle == &yv_n) YV_ASSIGNS(LOG);
struct YASL_String *YASL_String_replace_fast_default(struct YASL_String *str, struct YASL_String *search_str, struct YASL_String *replace_str)
	YV_REQUIRES(str == &yv_h && search_str == &yv_n && replace_str == &yv_r) YV_ASSIGNS(LOG);
struct YASL_String *YASL_String_replace_fast(struct YASL_String *str, struct YASL_String *search_str, struct YASL_String *replace_str, yasl_int max)
	YV_REQUIRES(str == &yv_h && search_str == &yv_n && replace_str == &yv_r) YV_ASSIGNS(LOG);

#include "data-structures/YASL_String.c"

static char *slice(struct YASL_String *s, size_t *start, size_t *len, int k) {
	size_t n = yv_size(k, 0);
	*start = yv_size(k + 1, 0);
	*len = yv_size(k + 2, 0);
	yv_assume(n <= YV_MAX && *start <= n && *len <= n - *start);
	char *b = (char *)malloc(n);
	s->str = b; s->start = *start; s->end = *start + *len; s->on_heap = yv_range(k + 3, 0, 1); s->rc = NEW_RC();
	return b;
}
static void strings(int mode) {
	yv_mode = mode;
	yv_a = slice(&yv_h, &yv_st, &yv_H, 0);
	yv_b = slice(&yv_n, &yv_sn, &yv_N, 4);
	yv_c = slice(&yv_r, &yv_sr, &yv_R, 8);
	yv_p = yv_size(12, 0);
	yv_occ = yv_range(13, 0, 1);
	yv_assume(yv_p <= YV_MAX);
	yv_pos = yv_next = yv_subs = yv_apps = yv_s1 = yv_e1 = yv_reps = 0;
	yv_bad = yv_last = yv_lstop = yv_rstop = yv_pend = yv_memr = 0;
	yv_cnt = 0;
	yv_max = -1;
	yv_end = yv_H;
}
#define OCC_AT(k) (yv_p == (k) && yv_occ)
void u_find(void) {
	strings(M_FIND);
	int64_t r = str_find_index(&yv_h, &yv_n);
	yv_assert(!yv_bad, "the needle is compared within the haystack");
	yv_assert(r >= -1 && (r < 0 || (size_t)r + yv_N <= yv_H), "a position where the needle fits, or -1");
	if (r >= 0 && yv_p == (size_t)r) yv_assert(yv_occ, "the needle occurs there");
	if (yv_p + yv_N <= yv_H && (r < 0 || yv_p < (size_t)r)) yv_assert(!yv_occ, "and nowhere before");
	yv_reach();
}
void u_count(void) {
	strings(M_COUNT);
	yv_assume(yv_N > 0);
	int64_t r = YASL_String_count(&yv_h, &yv_n);
	yv_assert(!yv_bad && yv_pos + yv_N > yv_H, "every position is looked at, from left to right");
	yv_assert(r == yv_cnt, "the number of occurrences that do not overlap");
	yv_reach();
}
void u_split(void) {
	strings(M_SPLIT);
	yv_assume(yv_N > 0);
	YASL_String_split_fast(NULL, &yv_h, &yv_n);
	yv_assert(!yv_bad, "the pieces are what is between the occurrences");
	yv_assert(yv_last, "the last piece ends with the string");
	yv_assert(yv_subs == yv_apps, "every piece is put into the list");
	yv_reach();
}
void u_splitd(void) {
	strings(M_SPLITD);
	YASL_String_split_default(NULL, &yv_h);
	yv_assert(!yv_bad, "the pieces are the runs without white space");
	yv_assert(!(yv_p >= yv_next && yv_p < yv_H) || WS(HAY(yv_p)), "nothing but white space is left");
	yv_assert(yv_subs == yv_apps, "every piece is put into the list");
	yv_reach();
}
static void trimmed(struct YASL_String *r, bool left, bool right) {
	yv_assert(r == &yv_piece && yv_subs == 1 && !yv_bad, "a piece of the string");
	yv_assert(left || yv_s1 == 0, "nothing is cut off on the left");
	yv_assert(right || yv_e1 == yv_H, "nothing is cut off on the right");
	if (yv_mode == M_TRIMD) {
		if (yv_p < yv_s1) yv_assert(WS(HAY(yv_p)), "only white space is cut off");
		if (yv_p >= yv_e1 && yv_p < yv_H) yv_assert(WS(HAY(yv_p)), "only white space is cut off");
		if (left && yv_s1 < yv_e1) yv_assert(!WS(HAY(yv_s1)), "all of it, on the left");
		if (right && yv_s1 < yv_e1) yv_assert(!WS(HAY(yv_e1 - 1)), "all of it, on the right");
	} else {
		yv_assert(yv_s1 == yv_pos && yv_e1 == yv_end, "only occurrences are cut off");
		if (left) yv_assert(yv_N == 0 || yv_lstop || yv_end - yv_pos < yv_N, "all of them, on the left");
		if (right) yv_assert(yv_N == 0 || yv_rstop || yv_end - yv_pos < yv_N, "all of them, on the right");
	}
	yv_reach();
}
void u_ltrimd(void) { strings(M_TRIMD); trimmed(YASL_String_ltrim_default(&yv_h), true, false); }
void u_rtrimd(void) { strings(M_TRIMD); trimmed(YASL_String_rtrim_default(&yv_h), false, true); }
void u_trimd(void) { strings(M_TRIMD); trimmed(YASL_String_trim_default(&yv_h), true, true); }
void u_ltrim(void) { strings(M_TRIM); trimmed(YASL_String_ltrim(&yv_h, &yv_n), true, false); }
void u_rtrim(void) { strings(M_TRIM); yv_lstop = 1; trimmed(YASL_String_rtrim(&yv_h, &yv_n), false, true); }
void u_trim(void) { strings(M_TRIM); trimmed(YASL_String_trim(&yv_h, &yv_n), true, true); }
static void replaced(struct YASL_String *r) {
	yv_assert(!yv_bad && yv_pos == yv_H, "every byte is copied and every occurrence replaced, from left to right");
	yv_assert(r->str == (char *)yv_bytes && r->start == 0 && r->end == yv_bb.count && r->on_heap, "the result is what was put together");
	yv_reach();
}
void u_replace(void) { strings(M_REPL); yv_assume(yv_N > 0); replaced(YASL_String_replace_fast_default(&yv_h, &yv_n, &yv_r)); }
void u_replace_max(void) {
	strings(M_REPL);
	yv_assume(yv_N > 0);
	int64_t max = yv_get(20);
	yv_max = max < 0 ? 0 : max;
	replaced(YASL_String_replace_fast(&yv_h, &yv_n, &yv_r, max));
}
void u_cmp(void) {
	strings(M_CMP);
	int64_t r = YASL_String_cmp(&yv_h, &yv_n);
	int s = yv_memr ? (yv_memr < 0 ? -1 : 1) : yv_H < yv_N ? -1 : yv_H > yv_N;
	yv_assert(!yv_bad, "the bytes that both have are compared");
	yv_assert((r < 0 ? -1 : r > 0) == s, "the order of the bytes, a prefix first");
	yv_reach();
}
static void with(bool atend, bool same) {
	strings(M_NONE);
	if (same) {      /* the needle is the first (last) part of the haystack */
		yv_assume(yv_N <= yv_H);
		yv_n.str = yv_a; yv_n.start = yv_st + (atend ? yv_H - yv_N : 0); yv_n.end = yv_n.start + yv_N;
	}
	bool r = atend ? YASL_String_endswith(&yv_h, &yv_n) : YASL_String_startswith(&yv_h, &yv_n);
	if (same) yv_assert(r, "a string starts and ends with its parts");
	else if (r) {
		yv_assert(yv_N <= yv_H, "the needle fits");
		yv_assert(yv_p >= yv_N || HAY((atend ? yv_H - yv_N : 0) + yv_p) == yv_b[yv_sn + yv_p], "every byte of the needle is there");
	}
	yv_reach();
}
void u_startswith(void) { with(false, false); }
void u_endswith(void) { with(true, false); }
void u_startswith_part(void) { with(false, true); }
void u_endswith_part(void) { with(true, true); }
static void cased(struct YASL_String *r, bool up) {
	yv_assert(r->start == 0 && r->end == yv_H && r->on_heap, "as long as before");
	if (yv_p < yv_H) {
		char c = HAY(yv_p), d = up ? (c >= 'a' && c <= 'z' ? c - 32 : c) : (c >= 'A' && c <= 'Z' ? c + 32 : c);
		yv_assert(r->str[yv_p] == d, "letters in the other case, everything else as it was");
	}
	yv_reach();
}
void u_toupper(void) { strings(M_NONE); cased(YASL_String_toupper(&yv_h), true); }
void u_tolower(void) { strings(M_NONE); cased(YASL_String_tolower(&yv_h), false); }
