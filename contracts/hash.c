/* C04, C05: keys that are equal are looked for in the same slots (util/hash_function.c, isequal_typed). */
#include "yvh.h"
#include "data-structures/YASL_Table.h"
#include "interpreter/YASL_Object.h"
#include "util/hash_function.h"

size_t get_hash(const struct YASL_Object s, const size_t num_buckets, const size_t attempt)
	YV_REQUIRES(num_buckets > 0)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value < num_buckets);
#include "util/hash_function.c"

static struct YASL_String yv_s[2];
static char yv_buf[2][8];
#ifdef YV_NATIVE
#define LEN 5
#else
#define LEN 2
#endif
/* an arbitrary key of kind k */
static struct YASL_Object key(char k, int in) {
	switch (k) {
	case 'f': { struct YASL_Object o; o.type = Y_FLOAT; o.value.ival = yv_get(in); return o; }
	case 'b': return YASL_BOOL(yv_range(in, 0, 1));
	case 'p': return YASL_USERPTR((void *)yv_get(in));
	default: return YASL_INT(yv_get(in));
	}
}
static struct YASL_Object str(int which, int in) {
	struct YASL_String *s = &yv_s[which];
	int64_t n = yv_range(in, 0, LEN), at = yv_range(in + 1, 0, 2);
	for (int i = 0; i < 8; i++) yv_buf[which][i] = (char)yv_range(in + 2 + i, YV_MODE_NATIVE ? 'a' : 0, YV_MODE_NATIVE ? 'c' : 255);
	s->str = yv_buf[which]; s->start = at; s->end = at + n; s->on_heap = true; s->rc = NEW_RC();
	return YASL_STR(s);
}
static bool same(char k, struct YASL_Object a, struct YASL_Object b) {
	switch (k) {
	case 'f': return !YV_NANBITS(a.value.ival) && !YV_NANBITS(b.value.ival) && (a.value.ival == b.value.ival || ((uint64_t)a.value.ival << 1 == 0 && (uint64_t)b.value.ival << 1 == 0));
	case 's': {
		size_t n = a.value.sval->end - a.value.sval->start;
		if (b.value.sval->end - b.value.sval->start != n) return false;
		for (size_t i = 0; i < LEN; i++) if (i < n && a.value.sval->str[a.value.sval->start + i] != b.value.sval->str[b.value.sval->start + i]) return false;
		return true;
	}
	case 'p': return a.value.pval == b.value.pval;
	default: return a.value.ival == b.value.ival;
	}
}
/* the slots of a key are in the table, and equal keys have the same ones; the second key is equal to the first */
static void hash_at(struct YASL_Object a, struct YASL_Object b, int in, size_t at) {
	/* sizes of tables are primes; any size will do */
	size_t n = (size_t)yv_range(in, 1, 1LL << 62);
	size_t x = get_hash(a, n, at), y = get_hash(b, n, at);
	yv_assert(x < n, "the slot is in the table");
	yv_assert(x == y, "equal keys are looked for in the same slots");
	yv_reach();
}
static void hash(struct YASL_Object a, struct YASL_Object b, int in) { hash_at(a, b, in, (size_t)yv_range(in + 1, 0, YV_MODE_NATIVE ? 100 : 1LL << 62)); }
void u_hash_i(void) { struct YASL_Object a = key('i', 0); hash(a, a, 1); }
void u_hash_b(void) { struct YASL_Object a = key('b', 0); hash(a, a, 1); }
void u_hash_p(void) { struct YASL_Object a = key('p', 0); hash(a, a, 1); }
void u_hash_f(void) { struct YASL_Object a = key('f', 0); yv_assume(!YV_NANBITS(a.value.ival) && (uint64_t)a.value.ival << 1 != 0); hash(a, a, 1); }
void u_hash_fa(void) { struct YASL_Object a = key('f', 0); yv_assume(!YV_NANBITS(a.value.ival) && (uint64_t)a.value.ival << 1 != 0); hash_at(a, a, 1, 0); }
/* the two zeros are equal */
void u_hash_f0(void) { hash(YASL_FLOAT(0.0), YASL_FLOAT(-0.0), 0); }
/* strings are equal when their bytes are: one of them at the start of its buffer, the other a slice */
static void hash_str(size_t len) {
	for (size_t i = 0; i < len; i++) yv_buf[0][i] = yv_buf[1][i + 1] = (char)yv_range(2 + i, YV_MODE_NATIVE ? 'a' : 0, YV_MODE_NATIVE ? 'c' : 255);
	struct YASL_Object o[2];
	for (int k = 0; k < 2; k++) {
		struct YASL_String *s = &yv_s[k];
		s->str = yv_buf[k]; s->start = k; s->end = k + len; s->on_heap = true; s->rc = NEW_RC();
		o[k] = YASL_STR(s);
	}
	hash(o[0], o[1], 0);
}
void u_hash_s0(void) { hash_str(0); }
void u_hash_s1(void) { hash_str(1); }
void u_hash_s2(void) { hash_str(2); }
void u_hash_s3(void) { hash_str(3); }
/* keys are the same when they have the same type and are equal */
static void eq(char k, char l) {
	struct YASL_Object a = k == 's' ? str(0, 0) : key(k, 0), b = l == 's' ? str(1, 16) : key(l, 1);
	yv_assert(isequal_typed(&a, &b) == (k == l && same(k, a, b)), "equal and of the same type");
	yv_reach();
}
#define EQ(k, l) void u_eq_##k##l(void) { eq(#k[0], #l[0]); }
EQ(i, i) EQ(i, f) EQ(i, b) EQ(i, s) EQ(f, i) EQ(f, f) EQ(b, b) EQ(b, i) EQ(s, s) EQ(s, i) EQ(p, p) EQ(p, i)
/* double hashing: on the sizes that tables have, the first `size` attempts visit every slot (executed, not proved) */
#ifdef YV_NATIVE
void u_cover(void) {
	static const size_t base[] = { 30, 60, 120, 240, 480, 960 };
	size_t n = next_prime(base[yv_range(0, 0, 5)]);
	for (size_t d = 2; d * d <= n; d++) yv_assert(n % d != 0, "the size of a table is a prime");
	struct YASL_Object a = key("ifbp"[yv_range(1, 0, 3)], 2);
	char seen[1100] = { 0 };
	size_t c = 0;
	for (size_t i = 0; i < n; i++) { size_t h = get_hash(a, n, i); if (!seen[h]) { seen[h] = 1; c++; } }
	yv_assert(c == n, "every slot is visited");
}
#endif
