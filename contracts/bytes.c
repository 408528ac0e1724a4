/* C10: data-structures/YASL_ByteBuffer.c. Buffers of any size; the postconditions speak of an arbitrary position yv_k. */
#include "yvh.h"
#include "varint.h"
#include "data-structures/YASL_ByteBuffer.h"
#include "util/varint.h"

#define YV_MAX ((size_t)1 << 40)
static size_t yv_k, yv_j;               /* ghost: a position in the buffer, and one among the bytes added */
static unsigned char yv_at_k, yv_at_j;

#ifndef YV_NATIVE
/* memcpy of libc, assumed: the instances of its specification for the ghost positions */
void *memcpy(void *dst, const void *src, size_t n)
	__CPROVER_requires(n == 0 || (__CPROVER_w_ok(dst, n) && __CPROVER_r_ok(src, n)))
	__CPROVER_assigns(__CPROVER_object_upto(dst, n))
	__CPROVER_ensures(yv_j >= n || ((unsigned char *)dst)[yv_j] == ((const unsigned char *)src)[yv_j]);
#endif
int vint_encode(const size_t val, unsigned char *const buff)
	YV_REQUIRES(__CPROVER_w_ok(buff, VLEN(val)))
	YV_ASSIGNS(__CPROVER_object_upto(buff, VLEN(val)))
	YV_ENSURES(__CPROVER_return_value == VLEN(val) && VENC(buff, val));

static inline bool valid(const struct YASL_ByteBuffer *bb) { return bb->count <= bb->size && bb->bytes != NULL; }
#define FRAME YV_REQUIRES(valid(bb)) YV_ASSIGNS(*bb, __CPROVER_object_whole(bb->bytes)) YV_FREES(bb->bytes) YV_ENSURES(valid(bb))
void YASL_ByteBuffer_extend(struct YASL_ByteBuffer *const bb, const unsigned char *const bytes, const size_t bytes_len) FRAME;
void YASL_ByteBuffer_add_byte(struct YASL_ByteBuffer *const bb, const unsigned char byte) FRAME;
void YASL_ByteBuffer_add_vint(struct YASL_ByteBuffer *const bb, size_t val) FRAME;
void YASL_ByteBuffer_add_float(struct YASL_ByteBuffer *const bb, const yasl_float value) FRAME;
void YASL_ByteBuffer_add_int(struct YASL_ByteBuffer *const bb, const yasl_int value) FRAME;
void YASL_ByteBuffer_rewrite_int_fast(struct YASL_ByteBuffer *const bb, const size_t index, const yasl_int value)
	YV_REQUIRES(valid(bb) && bb->count >= 8 && index <= bb->count - 8) YV_ASSIGNS(__CPROVER_object_upto(bb->bytes + index, 8)) YV_ENSURES(valid(bb));

#include "data-structures/YASL_ByteBuffer.c"

static struct YASL_ByteBuffer *yv_bb;
static size_t yv_count;
/* a buffer of any size and contents, with room for `add` more bytes or without */
static struct YASL_ByteBuffer *buffer(bool room, size_t add) {
	struct YASL_ByteBuffer *bb = malloc(sizeof *bb);
	bb->size = yv_size(0, 30); bb->count = yv_size(1, 30);
	yv_assume(bb->size >= 1 && bb->size <= YV_MAX && bb->count <= bb->size && (bb->size - bb->count >= add) == room);
	bb->bytes = yv_block(bb->size);
	yv_k = yv_size(2, 30);
	yv_j = yv_size(3, 30);
	yv_assume(yv_k < bb->count || (yv_k == 0 && bb->count == 0));
	if (yv_k < bb->count) yv_at_k = bb->bytes[yv_k];
	yv_bb = bb; yv_count = bb->count;
	return bb;
}
static void done(size_t n, unsigned char at_j) {
	struct YASL_ByteBuffer *bb = yv_bb;
	yv_assert(bb->count == yv_count + n, "as much longer as was added");
	yv_assert(bb->count <= bb->size, "the capacity covers the contents");
	yv_assert(yv_k >= yv_count || bb->bytes[yv_k] == yv_at_k, "what was there stays");
	yv_assert(yv_j >= n || bb->bytes[yv_count + yv_j] == at_j, "what was added is behind it");
	yv_reach();
#ifdef YV_NATIVE
	free(bb->bytes); free(bb);
#endif
}
static void add_byte(bool room) {
	unsigned char v = (unsigned char)yv_range(4, 0, 255);
	buffer(room, 1);
	YASL_ByteBuffer_add_byte(yv_bb, v);
	yv_j = 0;
	done(1, v);
}
void u_byte_room(void) { add_byte(true); }
void u_byte_full(void) { add_byte(false); }
static void add_int(bool room) {
	yasl_int v = yv_get(4);
	buffer(room, 8);
	YASL_ByteBuffer_add_int(yv_bb, v);
	done(8, yv_j < 8 ? (unsigned char)((uint64_t)v >> (8 * yv_j)) : 0);
}
void u_int_room(void) { add_int(true); }
void u_int_full(void) { add_int(false); }
static void add_float(bool room) {
	int64_t v = yv_get(4);
	yv_assume(!YV_NANBITS(v));
	buffer(room, 8);
	YASL_ByteBuffer_add_float(yv_bb, yv_bits2d(v));
	done(8, yv_j < 8 ? (unsigned char)((uint64_t)v >> (8 * yv_j)) : 0);
}
void u_float_room(void) { add_float(true); }
void u_float_full(void) { add_float(false); }
static void add_vint(bool room) {
	size_t v = (size_t)yv_get(4);
	buffer(room, VLEN(v));
	YASL_ByteBuffer_add_vint(yv_bb, v);
	done(VLEN(v), yv_j < 10 ? VBYTE(v, yv_j) : 0);
}
void u_vint_room(void) { add_vint(true); }
void u_vint_full(void) { add_vint(false); }
static void extend(bool room) {
	size_t n = yv_size(5, 30);
	yv_assume(n <= YV_MAX);
	unsigned char *s = yv_block(n);
	buffer(room, n);
	unsigned char v = yv_j < n ? s[yv_j] : 0;
	YASL_ByteBuffer_extend(yv_bb, s, n);
#ifdef YV_NATIVE
	free(s);
#endif
	done(n, v);
}
void u_extend_room(void) { extend(true); }
void u_extend_full(void) { extend(false); }
void u_rewrite(void) {
	yasl_int v = yv_get(4);
	buffer(true, 0);
	size_t at = yv_size(5, 30);
	yv_assume(yv_count >= 8 && at <= yv_count - 8 && !(yv_k >= at && yv_k < at + 8));
	YASL_ByteBuffer_rewrite_int_fast(yv_bb, at, v);
	yv_assert(yv_j >= 8 || yv_bb->bytes[at + yv_j] == (unsigned char)((uint64_t)v >> (8 * yv_j)), "the int is at the index");
	done(0, 0);
}
