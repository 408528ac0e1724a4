/* C10: visit of compiler/compiler.c: the table of lines, for any number of lines. */
#include "yvh.h"
#include "compiler/compiler.h"
#include "compiler/ast.h"
#include "data-structures/YASL_ByteBuffer.h"
static struct Compiler yv_c;
static struct YASL_ByteBuffer yv_lines, yv_cb, yv_bb;
static size_t yv_n, yv_at;
void YASL_ByteBuffer_add_vint(struct YASL_ByteBuffer *const bb, size_t val)
	YV_REQUIRES(bb == &yv_lines && val == yv_at)
	YV_ASSIGNS(yv_n)
	YV_ENSURES(yv_n == __CPROVER_old(yv_n) + 1);
static void visit(struct Compiler *const compiler, const struct Node *const node)
	YV_REQUIRES(compiler == &yv_c)
	YV_ASSIGNS(yv_c, yv_n)
	YV_ENSURES(yv_c.line >= node->line);
#include "compiler/compiler.c"
#ifndef YV_NATIVE
void u_visit(void) {
	struct Node n;
	yv_c.lines = &yv_lines; yv_c.code = &yv_cb; yv_c.buffer = &yv_bb;
	yv_cb.count = yv_size(0, 0); yv_bb.count = yv_size(1, 0);
	yv_at = yv_cb.count + yv_bb.count;
	size_t line = yv_size(2, 0);
	yv_c.line = line;
	n.line = yv_size(3, 0); n.nodetype = N_BODY; n.children_len = 0;
	yv_n = 0;
	jmp_table[N_BODY] = &visit_Body;      /* (dfcc makes statics arbitrary) */
	visit(&yv_c, &n);
	yv_assert(yv_c.line == (n.line > line ? n.line : line), "the compiler is at the line of the node, or stays at a later one");
	yv_assert(yv_n == yv_c.line - line, "the table has one entry for each line reached, with the offset of the code that follows");
	yv_reach();
}
#endif
