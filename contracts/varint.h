/* What an encoded number means (shared by the contracts of util/varint.c and of those who call it). */
#ifndef YV_VARINT_H_
#define YV_VARINT_H_
#include <stddef.h>
/* number of bytes of v: one for each 7 bits */
#define VLEN(v) (1 + ((v) >> 7 != 0) + ((v) >> 14 != 0) + ((v) >> 21 != 0) + ((v) >> 28 != 0) + ((v) >> 35 != 0) + ((v) >> 42 != 0) + ((v) >> 49 != 0) + ((v) >> 56 != 0) + ((v) >> 63 != 0))
/* byte k of v: 7 bits each, lowest first; all but the last have the high bit set */
#define VBYTE(v, k) ((unsigned char)((((v) >> (7 * (k))) & 0x7F) | ((k) + 1 < VLEN(v) ? 0x80 : 0)))
#define VAT(b, v, k) ((k) >= VLEN(v) || (b)[k] == VBYTE(v, k))
/* b holds v */
#define VENC(b, v) (VAT(b, v, 0) && VAT(b, v, 1) && VAT(b, v, 2) && VAT(b, v, 3) && VAT(b, v, 4) && VAT(b, v, 5) && VAT(b, v, 6) && VAT(b, v, 7) && VAT(b, v, 8) && VAT(b, v, 9))
/* the number of bytes of what b holds (at most 10), and its value */
#define VEND(b, k) (!((b)[k] & 0x80))
#define VSPAN(b) (VEND(b, 0) ? 1 : VEND(b, 1) ? 2 : VEND(b, 2) ? 3 : VEND(b, 3) ? 4 : VEND(b, 4) ? 5 : VEND(b, 5) ? 6 : VEND(b, 6) ? 7 : VEND(b, 7) ? 8 : VEND(b, 8) ? 9 : 10)
#define VHAS(b) (VEND(b, 0) || VEND(b, 1) || VEND(b, 2) || VEND(b, 3) || VEND(b, 4) || VEND(b, 5) || VEND(b, 6) || VEND(b, 7) || VEND(b, 8) || VEND(b, 9))
#define VPART(b, k) ((size_t)((b)[k] & 0x7F) << (7 * (k)))
#define VREST(b, k, r) (VPART(b, k) | (VEND(b, k) ? 0 : (r)))
#define VVALUE(b) VREST(b, 0, VREST(b, 1, VREST(b, 2, VREST(b, 3, VREST(b, 4, VREST(b, 5, VREST(b, 6, VREST(b, 7, VREST(b, 8, VPART(b, 9))))))))))
#endif
