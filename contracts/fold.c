/* C02: constant folding of one operator node, for every literal operand, against the same specification as the VM's. */
#include "yvh.h"
#define pow yv_pow
double yv_pow(double, double);
#include "spec_ops.h"
#include "compiler/ast.h"
#include "compiler/middleend.c"
#undef pow
#ifdef YV_NATIVE
double yv_pow(double a, double b) { return pow(a, b); }
#else
double __CPROVER_uninterpreted_pow(double, double);
double yv_pow(double a, double b) { return __CPROVER_uninterpreted_pow(a, b); }
#endif

static struct Node *yv_n, *yv_kids[2], yv_save[2];
static struct Node yv_leaf0, yv_leaf1, yv_node;
static struct {
	enum NodeType type;
	enum Token op;
	int kids;
	enum spec_res res;
	struct spec_val val;
	bool literal;          /* all operands are literals */
} yv_x;

static bool yv_isval(const struct Node *n, struct spec_val v) {
	return v.t == TV_INT ? n->nodetype == N_INT && n->value.ival == v.i :
		v.t == TV_BOOL ? n->nodetype == N_BOOL && (!n->value.ival) == (!v.i) :
		v.t == TV_FLOAT ? n->nodetype == N_FLOAT && YV_SAMEBITS(n->value.ival, yv_d2bits(v.d)) : false;
}
static bool yv_kept(void) {
	return yv_n->nodetype == yv_x.type && yv_n->children_len == 0 && (yv_x.kids == 2 ?
		yv_n->value.binop.op == yv_x.op && yv_n->value.binop.left == yv_kids[0] && yv_n->value.binop.right == yv_kids[1] :
		yv_n->value.unop.op == yv_x.op && yv_n->value.unop.expr == yv_kids[0]);
}
/* the node is as it was (left to the VM), or it is a literal with the specified value */
static bool yv_post_value(void) {
	return yv_kept() || (yv_x.literal && (yv_x.res == SR_UNSPEC || (yv_x.res == SR_OK && yv_isval(yv_n, yv_x.val))));
}
static bool yv_post_leaf(void) { return yv_n->children_len == 0; }
static bool yv_post_kids(void) {
	for (int i = 0; i < 2; i++)
		if (i < yv_x.kids && yv_kept() && (yv_kids[i]->nodetype != yv_save[i].nodetype ||
			yv_kids[i]->value.ival != yv_save[i].value.ival || yv_kids[i]->children_len != 0)) return false;
	return true;
}
static bool yv_post_line(void) { return yv_n->line == 7 && yv_n->next == NULL; }

static void fold_contract(struct Node *const node)
	YV_REQUIRES(node == yv_n)
	YV_ASSIGNS(__CPROVER_object_whole(node))
	YV_ENSURES(yv_post_value())
	YV_ENSURES(yv_post_leaf())
	YV_ENSURES(yv_post_kids())
	YV_ENSURES(yv_post_line())
{
	fold(node);
}

static struct Node *leaf(struct Node *n, struct spec_val v) {
	n->next = NULL; n->line = 7; n->children_len = 0;
	n->nodetype = v.t == TV_INT ? N_INT : v.t == TV_BOOL ? N_BOOL : v.t == TV_FLOAT ? N_FLOAT : N_UNDEF;
	if (v.t == TV_FLOAT) n->value.dval = v.d; else n->value.ival = v.i;
	return n;
}
static struct spec_val sym(enum spec_tag t, int k) {
	return t == TV_INT ? spec_int(yv_get(k)) : t == TV_FLOAT ? spec_float(yv_getd(k)) : t == TV_BOOL ? spec_bool(yv_range(k, 0, 1)) : spec_undef();
}
static void go(enum NodeType type, enum Token op, int kids) {
	struct Node *n = &yv_node;
	n->next = NULL; n->line = 7; n->children_len = 0; n->nodetype = type;
	if (kids == 2) {
		n->value.binop.op = op; n->value.binop.left = yv_kids[0]; n->value.binop.right = yv_kids[1];
	} else {
		n->value.unop.op = op; n->value.unop.expr = yv_kids[0];
	}
	for (int i = 0; i < kids; i++) yv_save[i] = *yv_kids[i];
	yv_n = n; yv_x.type = type; yv_x.op = op; yv_x.kids = kids;
	fold_contract(n);
	yv_assert(yv_post_value(), "folded to the specified value, or left to the VM");
	yv_assert(yv_post_leaf(), "a folded node has no children");
	yv_assert(yv_post_kids(), "the operands of a node that is not folded are unchanged");
	yv_assert(yv_post_line(), "the line of the node is kept");
	yv_reach();
}
static void bin(enum spec_op s, enum Token op, enum spec_tag ta, enum spec_tag tb) {
	struct spec_val a = sym(ta, 0), b = sym(tb, 1);
	yv_kids[0] = leaf(&yv_leaf0, a); yv_kids[1] = leaf(&yv_leaf1, b);
	yv_x.val = spec_undef();
	yv_x.literal = ta != TV_UNDEF && tb != TV_UNDEF;
	yv_x.res = spec_binop(s, a, b, &yv_x.val);
	if (yv_x.val.t == TV_UNDEF && yv_x.res == SR_OK) yv_x.res = SR_TYPE;
	go(N_BINOP, op, 2);
}
static void un(enum spec_op s, enum Token op, enum spec_tag ta) {
	struct spec_val a = sym(ta, 0);
	yv_kids[0] = leaf(&yv_leaf0, a);
	yv_x.val = spec_undef();
	yv_x.literal = ta != TV_UNDEF;
	yv_x.res = spec_unop(s, a, &yv_x.val);
	go(N_UNOP, op, 1);
}
#define B(name, S, O) \
	void u_##name##_ii(void) { bin(S, O, TV_INT, TV_INT); } \
	void u_##name##_if(void) { bin(S, O, TV_INT, TV_FLOAT); } \
	void u_##name##_fi(void) { bin(S, O, TV_FLOAT, TV_INT); } \
	void u_##name##_ff(void) { bin(S, O, TV_FLOAT, TV_FLOAT); } \
	void u_##name##_ib(void) { bin(S, O, TV_INT, TV_BOOL); } \
	void u_##name##_bf(void) { bin(S, O, TV_BOOL, TV_FLOAT); } \
	void u_##name##_bb(void) { bin(S, O, TV_BOOL, TV_BOOL); } \
	void u_##name##_ui(void) { bin(S, O, TV_UNDEF, TV_INT); } \
	void u_##name##_fu(void) { bin(S, O, TV_FLOAT, TV_UNDEF); }
#define U(name, S, O) \
	void u_##name##_i(void) { un(S, O, TV_INT); } \
	void u_##name##_f(void) { un(S, O, TV_FLOAT); } \
	void u_##name##_b(void) { un(S, O, TV_BOOL); } \
	void u_##name##_u(void) { un(S, O, TV_UNDEF); }
B(add, S_ADD, T_PLUS) B(sub, S_SUB, T_MINUS) B(mul, S_MUL, T_STAR) B(fdiv, S_FDIV, T_SLASH) B(idiv, S_IDIV, T_DSLASH)
B(mod, S_MOD, T_MOD) B(pow, S_POW, T_DSTAR) B(bor, S_BOR, T_BAR) B(bxor, S_BXOR, T_CARET) B(band, S_BAND, T_AMP)
B(bandnot, S_BANDNOT, T_AMPCARET) B(shl, S_SHL, T_DLT) B(shr, S_SHR, T_DGT)
B(lt, S_LT, T_LT) B(le, S_LE, T_LTEQ) B(gt, S_GT, T_GT) B(ge, S_GE, T_GTEQ) B(eq, S_EQ, T_DEQ) B(ne, S_NE, T_BANGEQ)
B(id, S_ID, T_TEQ) B(nid, S_NID, T_BANGDEQ)
U(neg, S_NEG, T_MINUS) U(pos, S_POS, T_PLUS) U(bnot, S_BNOT, T_CARET) U(not, S_NOT, T_BANG)

/* operators that have no folded form: the node has to be left alone whatever the literals */
static void keep(enum Token op, enum spec_tag ta, enum spec_tag tb) {
	yv_kids[0] = leaf(&yv_leaf0, sym(ta, 0)); yv_kids[1] = leaf(&yv_leaf1, sym(tb, 1));
	yv_x.literal = false;
	go(N_BINOP, op, 2);
}
#define K(name, O) \
	void u_##name##_ii(void) { keep(O, TV_INT, TV_INT); } \
	void u_##name##_if(void) { keep(O, TV_INT, TV_FLOAT); } \
	void u_##name##_ff(void) { keep(O, TV_FLOAT, TV_FLOAT); } \
	void u_##name##_bb(void) { keep(O, TV_BOOL, TV_BOOL); }
K(concat, T_TILDE) K(and, T_DAMP) K(or, T_DBAR) K(coalesce, T_DQMARK)
