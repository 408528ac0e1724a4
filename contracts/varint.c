/* C10: util/varint.c. Every 64-bit number; the recursive functions are proved against their own contracts. */
#include "yvh.h"
#include "varint.h"
#include "util/varint.h"

int vint_encode(const size_t val, unsigned char *const buff)
	YV_REQUIRES(__CPROVER_w_ok(buff, VLEN(val)))
	YV_ASSIGNS(__CPROVER_object_upto(buff, VLEN(val)))
	YV_ENSURES(__CPROVER_return_value == VLEN(val) && VENC(buff, val));
size_t vint_decode(const unsigned char *const buff)
	YV_REQUIRES(__CPROVER_r_ok(buff, VSPAN(buff)) && VHAS(buff))
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == VVALUE(buff));
const unsigned char *vint_next(const unsigned char *buff)
	YV_REQUIRES(__CPROVER_r_ok(buff, VSPAN(buff)) && VHAS(buff))
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == __CPROVER_old(buff) + VSPAN(buff));

#include "util/varint.c"

static unsigned char yv_b[32];
void u_encode(void) {
	size_t v = (size_t)yv_get(0);
	unsigned char *b = yv_b + yv_range(1, 0, 8), before = (unsigned char)yv_range(2, 0, 255);
	b[VLEN(v)] = before;
	int n = vint_encode(v, b);
	yv_assert(n == VLEN(v), "one byte for each 7 bits");
	yv_assert(VENC(b, v), "7 bits in each byte, lowest first, the high bit on all but the last");
	yv_assert(b[VLEN(v)] == before, "nothing beyond is written");
	yv_reach();
}
/* the encoding is one that is read back: over the contracts of the three functions */
void u_round(void) {
	size_t v = (size_t)yv_get(0), w = (size_t)yv_get(1);
	unsigned char *b = yv_b + 2;
	int n = vint_encode(v, b), m = vint_encode(w, b + n);
	yv_assert(vint_decode(b) == v, "decoding gives the number that was encoded");
	yv_assert(vint_next(b) == b + n, "the next number is behind it");
	yv_assert(vint_decode(vint_next(b)) == w && m == VLEN(w), "and decodes to the number encoded there");
	yv_reach();
}
static unsigned char *some(void) {
	for (int i = 0; i < 10; i++) yv_b[i] = (unsigned char)yv_range(i, 0, 255);
	yv_assume(VHAS(yv_b));
	return yv_b;
}
void u_decode(void) { unsigned char *b = some(); yv_assert(vint_decode(b) == VVALUE(b), "the number held"); yv_reach(); }
void u_next(void) { unsigned char *b = some(); yv_assert(vint_next(b) == b + VSPAN(b), "behind the number"); yv_reach(); }
