/*
 * What the operators of the language mean, as functions of the operands: the oracle shared by the harnesses of the VM's
 * instructions and of constant folding. It is written from the language's documentation (64-bit two's complement ints,
 * IEEE doubles, ints promoted to float when mixed), not from the code.
 */
#ifndef SPEC_OPS_H_
#define SPEC_OPS_H_

enum spec_op { S_ADD, S_SUB, S_MUL, S_FDIV, S_IDIV, S_MOD, S_POW, S_BOR, S_BXOR, S_BAND, S_BANDNOT, S_SHL, S_SHR,
	S_LT, S_LE, S_GT, S_GE, S_EQ, S_NE, S_ID, S_NID, S_NEG, S_POS, S_BNOT, S_NOT };
enum spec_tag { T_NONE, TV_INT, TV_FLOAT, TV_BOOL, TV_UNDEF };
struct spec_val { enum spec_tag t; int64_t i; double d; };
enum spec_res { SR_OK, SR_TYPE, SR_DIV0, SR_UNSPEC };

double yv_pow(double, double);

static inline struct spec_val spec_int(int64_t i) { struct spec_val v = { TV_INT, i, 0 }; return v; }
static inline struct spec_val spec_float(double d) { struct spec_val v = { TV_FLOAT, 0, d }; return v; }
static inline struct spec_val spec_bool(bool b) { struct spec_val v = { TV_BOOL, b, 0 }; return v; }
static inline struct spec_val spec_undef(void) { struct spec_val v = { TV_UNDEF, 0, 0 }; return v; }
static inline bool spec_isnum(struct spec_val v) { return v.t == TV_INT || v.t == TV_FLOAT; }
static inline double spec_num(struct spec_val v) { return v.t == TV_INT ? (double)v.i : v.d; }
static inline bool spec_falsey(struct spec_val v) {
	return v.t == TV_UNDEF || (v.t == TV_BOOL && !v.i) || (v.t == TV_FLOAT && v.d != v.d);
}

static inline enum spec_res spec_binop(enum spec_op op, struct spec_val a, struct spec_val b, struct spec_val *r) {
	bool ii = a.t == TV_INT && b.t == TV_INT, nn = spec_isnum(a) && spec_isnum(b);
	uint64_t ua = (uint64_t)a.i, ub = (uint64_t)b.i;
	switch (op) {
	case S_ADD: if (ii) { *r = spec_int((int64_t)(ua + ub)); return SR_OK; }
		if (nn) { *r = spec_float(spec_num(a) + spec_num(b)); return SR_OK; } return SR_TYPE;
	case S_SUB: if (ii) { *r = spec_int((int64_t)(ua - ub)); return SR_OK; }
		if (nn) { *r = spec_float(spec_num(a) - spec_num(b)); return SR_OK; } return SR_TYPE;
	case S_MUL: if (ii) { *r = spec_int((int64_t)(ua * ub)); return SR_OK; }
		if (nn) { *r = spec_float(spec_num(a) * spec_num(b)); return SR_OK; } return SR_TYPE;
	case S_FDIV: if (nn) { *r = spec_float(spec_num(a) / spec_num(b)); return SR_OK; } return SR_TYPE;
	case S_IDIV: if (b.t == TV_INT && b.i == 0) return SR_DIV0;
		if (!ii) return SR_TYPE;
		*r = spec_int(b.i == -1 ? (int64_t)(0 - ua) : a.i / b.i); return SR_OK;
	case S_MOD: if (b.t == TV_INT && b.i == 0) return SR_DIV0;
		if (!ii) return SR_TYPE;
		*r = spec_int(b.i == -1 ? 0 : a.i % b.i); return SR_OK;
	case S_POW: if (!nn) return SR_TYPE;
		if (ii && b.i >= 0) return SR_UNSPEC;                          /* see the units of int_pow */
		*r = spec_float(yv_pow(spec_num(a), spec_num(b))); return SR_OK;
	case S_BOR: if (!ii) return SR_TYPE; *r = spec_int((int64_t)(ua | ub)); return SR_OK;
	case S_BXOR: if (!ii) return SR_TYPE; *r = spec_int((int64_t)(ua ^ ub)); return SR_OK;
	case S_BAND: if (!ii) return SR_TYPE; *r = spec_int((int64_t)(ua & ub)); return SR_OK;
	case S_BANDNOT: if (!ii) return SR_TYPE; *r = spec_int((int64_t)(ua & ~ub)); return SR_OK;
	case S_SHL: if (!ii) return SR_TYPE; if (b.i < 0 || b.i > 63) return SR_UNSPEC;
		*r = spec_int((int64_t)(ua << ub)); return SR_OK;
	case S_SHR: if (!ii) return SR_TYPE; if (b.i < 0 || b.i > 63) return SR_UNSPEC;
		*r = spec_int(a.i < 0 ? (int64_t)~(~ua >> ub) : (int64_t)(ua >> ub)); return SR_OK;
	case S_LT: if (!nn) return SR_TYPE; *r = spec_bool(ii ? a.i < b.i : spec_num(a) < spec_num(b)); return SR_OK;
	case S_LE: if (!nn) return SR_TYPE; *r = spec_bool(ii ? a.i <= b.i : spec_num(a) <= spec_num(b)); return SR_OK;
	case S_GT: if (!nn) return SR_TYPE; *r = spec_bool(ii ? a.i > b.i : spec_num(a) > spec_num(b)); return SR_OK;
	case S_GE: if (!nn) return SR_TYPE; *r = spec_bool(ii ? a.i >= b.i : spec_num(a) >= spec_num(b)); return SR_OK;
	case S_EQ:
	case S_NE: {
		bool eq = ii ? a.i == b.i : nn ? spec_num(a) == spec_num(b) : a.t == b.t && (a.t == TV_UNDEF || (!a.i) == (!b.i));
		*r = spec_bool(op == S_EQ ? eq : !eq); return SR_OK;
	}
	case S_ID:
	case S_NID: {
		/* identity distinguishes an int from a float, which equality does not */
		if (a.t == TV_FLOAT && b.t == TV_FLOAT && (a.d != a.d || b.d != b.d || (a.d == 0 && b.d == 0))) return SR_UNSPEC;
		bool id = a.t == b.t && (a.t == TV_FLOAT ? yv_d2bits(a.d) == yv_d2bits(b.d) : a.t == TV_UNDEF ? true :
					 a.t == TV_BOOL ? (!a.i) == (!b.i) : a.i == b.i);
		*r = spec_bool(op == S_ID ? id : !id); return SR_OK;
	}
	default: return SR_UNSPEC;
	}
}

static inline enum spec_res spec_unop(enum spec_op op, struct spec_val a, struct spec_val *r) {
	switch (op) {
	case S_NEG: if (a.t == TV_INT) { *r = spec_int((int64_t)(0 - (uint64_t)a.i)); return SR_OK; }
		if (a.t == TV_FLOAT) { *r = spec_float(-a.d); return SR_OK; } return SR_TYPE;
	case S_POS: if (spec_isnum(a)) { *r = a; return SR_OK; } return SR_TYPE;
	case S_BNOT: if (a.t == TV_INT) { *r = spec_int((int64_t)~(uint64_t)a.i); return SR_OK; } return SR_TYPE;
	case S_NOT: *r = spec_bool(spec_falsey(a)); return SR_OK;
	default: return SR_UNSPEC;
	}
}

#endif
