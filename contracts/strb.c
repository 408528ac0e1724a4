/* C08: the rest of data-structures/YASL_String.c: substrings of any length; classes of characters and repetition up to a length. */
#include "yvh.h"
#ifndef YV_NATIVE
#define __NO_CTYPE
#endif
#include "data-structures/YASL_String.h"
#include "data-structures/YASL_List.h"
#include "data-structures/YASL_ByteBuffer.h"
#include "interpreter/YASL_Object.h"

#ifndef YV_NATIVE
static int yv_copies, yv_log;
static void *yv_dst; static const void *yv_src; static size_t yv_len;
void *memcpy(void *d, const void *s, size_t n) {
	if (yv_log) {
		yv_copies++; yv_dst = d; yv_src = s; yv_len = n;
		yv_assert(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "the copy is within both buffers");
		return d;
	}
	for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
	return d;
}
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
#define LEN 3
#else
#define LEN 12
#endif

#include "data-structures/YASL_String.c"

#ifndef YV_NATIVE
void u_substring(void) {
	yv_log = 1; yv_copies = 0;
	struct YASL_String s;
	size_t n = yv_size(0, 0), start = yv_size(1, 0), end = yv_size(2, 0);
	yv_assume(n <= (1 << 30) && start <= end && end <= n);
	s.str = (char *)malloc(n); s.start = yv_size(3, 0); s.end = yv_size(4, 0); s.on_heap = yv_range(5, 0, 1);
	struct YASL_String *r = YASL_String_new_substring(start, end, &s);
	if (s.on_heap) {
		yv_assert(r->on_heap && r->start == 0 && r->end == end - start, "a string of its own");
		yv_assert(yv_copies == 1 && yv_dst == r->str && yv_src == s.str + start && yv_len == end - start, "with the bytes from start to end");
	} else
		yv_assert(!r->on_heap && r->str == s.str && r->start == start && r->end == end && !yv_copies, "the same buffer, from start to end");
	yv_reach();
}
#endif
static char yv_buf[16];
static struct YASL_String yv_str;
static struct YASL_String *str(int64_t n) {
	int64_t at = yv_range(20, 0, 2);
	static const char some[] = "azAZ059 \t\n\v\r@[`{/:_\x7f\x80\xff";
	for (int i = 0; i < 16; i++) yv_buf[i] = (char)yv_range(i, -128, 127);
	if (YV_MODE_NATIVE) {
		int64_t w = yv_range(21, 0, 5), o = yv_range(22, 0, 40);
		static const char *cls[] = { "azAZmM", "059", "azAZ09", " \t\n\v\r", some, some };
		for (int i = 0; i < 16; i++) yv_buf[i] = i == (int)o ? some[(uint8_t)yv_buf[i] % (sizeof some - 1)] : cls[w][(uint8_t)yv_buf[i] % strlen(cls[w])];
	}
	yv_str.str = yv_buf; yv_str.start = at; yv_str.end = at + n; yv_str.on_heap = true; yv_str.rc = NEW_RC();
	return &yv_str;
}
static bool cls(char k, int c) {
	bool al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'), d = c >= '0' && c <= '9';
	return k == 'a' ? al : k == 'd' ? d : k == 'n' ? al || d : c == ' ' || (c >= 9 && c <= 13 && c != 12);
}
#define IS(fn, k) void u_##fn(void) { \
	int64_t n = yv_range(30, 0, LEN); \
	struct YASL_String *s = str(n); \
	bool all = true; \
	for (int i = 0; i < LEN; i++) if (i < n && !cls(k, s->str[s->start + i])) all = false; \
	yv_assert(YASL_String_##fn(s) == all, "every character is of the class"); \
	yv_reach(); }
IS(isal, 'a') IS(isnum, 'd') IS(isalnum, 'n') IS(isspace, 's')
void u_rep(void) {
	int64_t n = yv_range(30, 0, 3), m = yv_range(31, 0, 3);
	struct YASL_String *s = str(n), *r;
	yv_assume(n > 0 || m >= 0);
	r = YASL_String_rep_fast(s, m);
	yv_assert(r->end - r->start == (size_t)(n * m), "num times as long");
	for (int i = 0; i < 9; i++) if (i < n * m) yv_assert(r->str[r->start + i] == s->str[s->start + i % n], "the string, num times");
	yv_reach();
}
/* the algorithms proved in str.c, on random short strings over a small alphabet, against naive ones */
#ifdef YV_NATIVE
#include "data-structures/YASL_List.h"
static struct YASL_String yv_x[3];
static char yv_xb[3][20];
static struct YASL_String *rnd(int which, int in, int64_t max) {
	int64_t n = yv_range(in, 0, max), at = yv_range(in + 1, 0, 3), ws = yv_range(60, 0, 2);
	for (int i = 0; i < 20; i++) { int64_t c = yv_range(in + 2 + (i % 14), 0, 255); yv_xb[which][i] = ws == 0 ? "ab"[c & 1] : ws == 1 ? "aab"[(c >> 1) % 3] : " ab\n"[(c >> (i / 14)) % 4]; }
	yv_x[which].str = yv_xb[which]; yv_x[which].start = at; yv_x[which].end = at + n; yv_x[which].on_heap = yv_range(61, 0, 1); yv_x[which].rc = NEW_RC();
	return &yv_x[which];
}
#define C(s, i) ((s)->str[(s)->start + (i)])
#define L(s) ((int64_t)((s)->end - (s)->start))
static bool occ(struct YASL_String *h, struct YASL_String *n, int64_t at) {
	if (at < 0 || at + L(n) > L(h)) return false;
	for (int64_t i = 0; i < L(n); i++) if (C(h, at + i) != C(n, i)) return false;
	return true;
}
static bool is(struct YASL_String *r, struct YASL_String *h, int64_t from, int64_t to) {
	if (L(r) != to - from) return false;
	for (int64_t i = from; i < to; i++) if (C(r, i - from) != C(h, i)) return false;
	return true;
}
static bool wsc(char c) { return c == ' ' || (c >= 9 && c <= 13 && c != 12); }
#define HN struct YASL_String *h = rnd(0, 0, 10), *n = rnd(1, 16, 3)
void u_nfind(void) {
	HN;
	int64_t w = -1;
	for (int64_t i = L(h); i >= 0; i--) if (occ(h, n, i)) w = i;
	yv_assert(str_find_index(h, n) == w, "the first occurrence");
	yv_assert(YASL_String_startswith(h, n) == occ(h, n, 0), "at the start");
	yv_assert(YASL_String_endswith(h, n) == occ(h, n, L(h) - L(n)), "at the end");
	int c = 0;
	for (int64_t i = 0; !c && (i < L(h) || i < L(n)); i++) c = i >= L(h) ? -1 : i >= L(n) ? 1 : (int)(unsigned char)C(h, i) - (int)(unsigned char)C(n, i);
	int64_t r = YASL_String_cmp(h, n);
	yv_assert((r > 0) - (r < 0) == (c > 0) - (c < 0), "the order of the bytes");
}
void u_ncount(void) {
	HN;
	if (!L(n)) return;
	int64_t w = 0;
	for (int64_t i = 0; i < L(h);) if (occ(h, n, i)) { w++; i += L(n); } else i++;
	yv_assert(YASL_String_count(h, n) == w, "occurrences that do not overlap");
}
void u_ntrim(void) {
	HN;
	int64_t a = 0, b = L(h), c = L(h);
	while (L(n) && occ(h, n, a)) a += L(n);
	while (L(n) && b - L(n) >= a && occ(h, n, b - L(n))) b -= L(n);
	while (L(n) && occ(h, n, c - L(n))) c -= L(n);
	yv_assert(is(YASL_String_ltrim(h, n), h, a, L(h)), "cut off on the left");
	yv_assert(is(YASL_String_rtrim(h, n), h, 0, c), "cut off on the right");
	yv_assert(is(YASL_String_trim(h, n), h, a, b), "cut off on both sides");
	int64_t d = 0, e = L(h), f = L(h);
	while (d < L(h) && wsc(C(h, d))) d++;
	while (e > d && wsc(C(h, e - 1))) e--;
	while (f > 0 && wsc(C(h, f - 1))) f--;
	yv_assert(is(YASL_String_ltrim_default(h), h, d, L(h)), "white space on the left");
	yv_assert(is(YASL_String_rtrim_default(h), h, 0, f), "white space on the right");
	yv_assert(is(YASL_String_trim_default(h), h, d, e), "white space on both sides");
}
static void replace(bool def) {
	HN;
	struct YASL_String *r = rnd(2, 32, 4), *got;
	int64_t max = yv_range(62, -1, 5), left = def ? 1000 : max, k = 0;
	if (!L(n) || !L(h)) return;
	char want[80];
	for (int64_t i = 0; i < L(h);) if (left > 0 && occ(h, n, i)) { for (int64_t j = 0; j < L(r); j++) want[k++] = C(r, j); i += L(n); left--; } else want[k++] = C(h, i++);
	got = def ? YASL_String_replace_fast_default(h, n, r) : YASL_String_replace_fast(h, n, r, max);
	yv_assert(L(got) == k && !memcmp(got->str + got->start, want, k), "every occurrence replaced, from left to right");
}
void u_nreplace(void) { replace(true); }
void u_nreplace_max(void) { replace(false); }
static void split(bool def) {
	HN;
	if (!L(n)) return;
	struct YASL_List *ls = YASL_List_new_sized(4);
	size_t k = 0;
	if (def) YASL_String_split_default(ls, h); else YASL_String_split_fast(ls, h, n);
	if (def) {
		for (int64_t i = 0; i < L(h);) {
			int64_t j = i;
			if (wsc(C(h, i))) { i++; continue; }
			while (j < L(h) && !wsc(C(h, j))) j++;
			yv_assert(k < ls->count && is(ls->items[k].value.sval, h, i, j), "the words");
			k++; i = j;
		}
	} else {
		int64_t from = 0, i = 0;
		for (;;) {
			if (i >= L(h) || occ(h, n, i)) {
				if (i > L(h)) i = L(h);
				yv_assert(k < ls->count && is(ls->items[k].value.sval, h, from, i), "what is between the occurrences");
				k++;
				if (i >= L(h)) break;
				from = i += L(n);
				if (i == L(h)) { yv_assert(k < ls->count && is(ls->items[k].value.sval, h, i, i), "an empty piece at the end"); k++; break; }
			} else i++;
		}
	}
	yv_assert(ls->count == k, "no other pieces");
}
void u_nsplit(void) { split(false); }
void u_nsplitd(void) { split(true); }
#endif
