/* C17: what compiler/compiler.c makes of a name: load_var, store_var, decl_var. Which scopes have the name is arbitrary; env.c is proved in scopes.c. */
#include "yvh.h"
#ifdef YV_NATIVE
#error proofs only
#endif
#include "compiler/compiler.h"
#include "compiler/ast.h"
#include "opcode.h"
#include "data-structures/YASL_ByteBuffer.h"
static struct Compiler yv_c;
static struct YASL_ByteBuffer yv_buf;
static struct Env yv_env, yv_outer;
static struct Scope yv_fscope, yv_oscope, yv_stack, yv_globals;  /* of the function, a function around it, the file, the globals */
static struct YASL_Table yv_strings;
static char yv_nm[1];
static size_t yv_len;
static bool yv_L, yv_U, yv_F, yv_G, yv_ownL;      /* where the name is declared */
static int64_t yv_l, yv_u, yv_f, yv_g, yv_up, yv_str;
static int yv_n; static int64_t yv_log[4];
static int yv_decls; static const struct Scope *yv_declin;

void YASL_ByteBuffer_add_byte(struct YASL_ByteBuffer *const bb, const unsigned char x) { yv_assert(bb == &yv_buf, "into the code"); if (yv_n < 4) yv_log[yv_n] = x; yv_n++; }
void YASL_ByteBuffer_add_int(struct YASL_ByteBuffer *const bb, const yasl_int x) { yv_assert(bb == &yv_buf, "into the code"); if (yv_n < 4) yv_log[yv_n] = x; yv_n++; }
size_t strlen(const char *s) { yv_assert(s == yv_nm, "the name"); return yv_len; }
static bool has(const struct Scope *s) { return s == &yv_fscope ? yv_L : s == &yv_oscope ? yv_U : s == &yv_stack ? yv_F : s == &yv_globals ? yv_G : false; }
bool scope_contains(const struct Scope *const s, const char *const n) { yv_assert(n == yv_nm, "the name"); return has(s); }
bool scope_contains_cur_only(const struct Scope *const s, const char *const n) { yv_assert(n == yv_nm, "the name"); return has(s); }
bool env_contains_cur_only(const struct Env *const e, const char *const n) { yv_assert(e && n == yv_nm, "a function"); return has(e->scope); }
bool env_contains(const struct Env *e, const char *const n) { yv_assert(n == yv_nm, "the name"); return e != NULL && (has(e->scope) || (e == &yv_env && e->parent && yv_U)); }
int64_t scope_get(const struct Scope *const s, const char *const n) {
	yv_assert(n == yv_nm && has(s), "a name is only looked up where it is declared");
	return s == &yv_fscope ? yv_l : s == &yv_oscope ? yv_u : s == &yv_stack ? yv_f : yv_g;
}
int64_t env_resolve_upval_index(struct Env *const e, struct Scope *st, const char *const n) {
	yv_assert(e == &yv_env && st == yv_c.stack && n == yv_nm && !yv_L && (yv_U || yv_F), "only variables around the function are captured");
	return yv_up;
}
struct YASL_Object YASL_Table_search_string_int(const struct YASL_Table *const t, const char *const s, const size_t n) {
	yv_assert(t == &yv_strings && s == yv_nm && n == yv_len, "the name's constant");
	return YASL_INT(yv_str);
}
int64_t scope_decl_var(struct Scope *const s, const char *const n) { yv_assert(n == yv_nm, "the name"); yv_decls++; yv_declin = s; return yv_l; }
void scope_make_const(struct Scope *const s, const char *const n) { yv_assert(n == yv_nm, "the name"); yv_decls++; yv_declin = s; }
static void compiler_print_err(struct Compiler *compiler, const char *const fmt, ...) YV_REQUIRES(1) YV_ASSIGNS() YV_ENSURES(1);
#define ST yv_c.status, yv_n, __CPROVER_object_whole(yv_log), yv_env.isclosure, yv_env.usedinclosure, yv_outer.usedinclosure, yv_outer.isclosure, yv_decls, yv_declin
static void load_var(struct Compiler *const compiler, const char *const name, const size_t line) YV_REQUIRES(compiler == &yv_c && name == yv_nm) YV_ASSIGNS(ST);
static void store_var(struct Compiler *const compiler, const char *const name, const size_t line) YV_REQUIRES(compiler == &yv_c && name == yv_nm) YV_ASSIGNS(ST);
static int contains_var(const struct Compiler *const compiler, const char *const name) YV_REQUIRES(compiler == &yv_c && name == yv_nm) YV_ASSIGNS();
static int contains_var_in_current_scope(const struct Compiler *const compiler, const char *const name) YV_REQUIRES(compiler == &yv_c && name == yv_nm) YV_ASSIGNS();
static void make_const(const struct Compiler *const compiler, const char *const name) YV_REQUIRES(compiler == &yv_c && name == yv_nm) YV_ASSIGNS(ST);

#include "compiler/compiler.c"

static int where;   /* what the name means: 1 a local of the function, 2 a variable around it, 3 a variable of the file, 4 a global, 0 nothing */
static int64_t decl;
static void start(void) {
	yv_len = (size_t)yv_range(0, 0, (int64_t)1 << 40);
	yv_L = yv_get(1) != 0; yv_U = yv_get(2) != 0; yv_F = yv_get(3) != 0; yv_G = yv_get(4) != 0;
	yv_l = yv_range(5, -256, 255); yv_u = yv_range(6, -256, 255); yv_f = yv_range(7, -256, 255); yv_g = yv_get(8); yv_up = yv_range(9, 0, 255); yv_str = yv_range(10, 0, INT64_MAX);
	bool fn = yv_get(11) != 0, nested = yv_get(12) != 0, file = yv_get(13) != 0;
	if (!fn) yv_L = false;
	if (!fn || !nested) yv_U = false;
	if (!file) yv_F = false;
	yv_env.scope = &yv_fscope; yv_env.parent = nested ? &yv_outer : NULL; yv_outer.scope = &yv_oscope; yv_outer.parent = NULL;
	yv_env.usedinclosure = yv_outer.usedinclosure = yv_env.isclosure = false;
	yv_c.params = fn ? &yv_env : NULL; yv_c.stack = file ? &yv_stack : NULL; yv_c.globals = &yv_globals; yv_c.strings = &yv_strings; yv_c.buffer = &yv_buf;
	yv_c.status = YASL_SUCCESS; yv_n = yv_decls = 0; yv_declin = NULL;
	where = yv_L ? 1 : yv_U ? 2 : yv_F ? (fn ? 2 : 3) : yv_G ? 4 : 0;
	decl = yv_L ? yv_l : yv_U ? yv_u : yv_F ? yv_f : yv_g;
}
static int64_t slot(int64_t v) { return v < 0 ? ~v : v; }
static void captured(void) {
	yv_assert(where != 2 || yv_env.isclosure, "the function is a closure");
	yv_assert(where != 2 || !yv_U || yv_outer.usedinclosure, "the function around it keeps the variable");
}
void u_load(void) {
	start();
	load_var(&yv_c, yv_nm, 1);
	if (!where) yv_assert(yv_c.status == YASL_SYNTAX_ERROR && !yv_n, "an undeclared name is refused");
	else {
		yv_assert(yv_c.status == YASL_SUCCESS && yv_n == 2, "a declared name is accepted");
		if (where == 1 || where == 3) yv_assert(yv_log[0] == O_LLOAD && yv_log[1] == slot(decl), "the slot of the innermost declaration");
		if (where == 2) yv_assert(yv_log[0] == O_ULOAD && yv_log[1] == yv_up, "the captured variable");
		if (where == 4) yv_assert(yv_log[0] == O_GLOAD_8 && yv_log[1] == yv_str, "the global");
	}
	captured();
	yv_reach();
}
void u_store(void) {
	start();
	store_var(&yv_c, yv_nm, 1);
	if (!where || decl < 0) yv_assert(yv_c.status == YASL_SYNTAX_ERROR && !yv_n, "an undeclared name and a constant are refused");
	else {
		yv_assert(yv_c.status == YASL_SUCCESS && yv_n == 2, "a variable is accepted");
		if (where == 1 || where == 3) yv_assert(yv_log[0] == O_LSTORE && yv_log[1] == decl, "the slot of the innermost declaration");
		if (where == 2) yv_assert(yv_log[0] == O_USTORE && yv_log[1] == yv_up, "the captured variable");
		if (where == 4) yv_assert(yv_log[0] == O_GSTORE_8 && yv_log[1] == yv_str, "the global");
		captured();
	}
	yv_reach();
}
void u_known(void) { start(); bool r = contains_var(&yv_c, yv_nm) != 0; yv_assert(r == (where != 0), "declared somewhere"); yv_reach(); }
void u_here(void) {
	start();
	bool r = contains_var_in_current_scope(&yv_c, yv_nm) != 0;
	yv_assert(r == (yv_c.params ? yv_L : yv_c.stack ? yv_F : yv_G), "declared in the innermost scope");
	yv_reach();
}
void u_make(void) { start(); make_const(&yv_c, yv_nm); yv_assert(yv_decls == 1 && yv_declin == (yv_c.params ? &yv_fscope : yv_c.stack ? &yv_stack : &yv_globals), "in the innermost scope"); yv_reach(); }
