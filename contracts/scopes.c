/* C17: compiler/env.c, for one name that is looked at. The tables of the scopes are maps (C04) of which the entry of that name is known here; a scope has any number of scopes around it (contract of the recursive call). */
#include "yvh.h"
#ifdef YV_NATIVE
#error proofs only
#endif
#include "compiler/env.h"
#include "data-structures/YASL_String.h"
#include "interpreter/refcount.h"

static char yv_nm[1];                   /* the name: any text */
static size_t yv_len;
static struct YASL_String yv_key;
static struct Scope yv_sc, yv_upsc;      /* a scope, and the one around it */
static bool yv_ownhas, yv_uphas;         /* the name is in the scope itself; in one of those around it */
static int64_t yv_own, yv_upval;
static size_t yv_uplen;
#define yv_uptab yv_upsc.vars            /* the scope around it stands for the nearest one that has the name */
static struct Scope yv_file, yv_psc;     /* the scopes of the file; of the function around the function */
static bool yv_filehas, yv_phas;
static int64_t yv_fileval, yv_pval;
static struct Env yv_env, yv_par;        /* a function, and the function around it */
static int64_t yv_pup, yv_eup;           /* the index of the variable in what they capture, or -1 */
static int yv_ni, yv_nv, yv_ns;          /* log: the entries written */
static int64_t yv_ival, yv_vval, yv_sval;
static struct YASL_Table *yv_stab;
#define GHOST yv_ownhas, yv_own, yv_pup, yv_eup, yv_ni, yv_nv, yv_ns, yv_ival, yv_vval, yv_sval, yv_stab, yv_sc.vars.count, yv_env.upval_indices.count, yv_env.isclosure, yv_par.isclosure, yv_par.usedinclosure, yv_env.usedinclosure

size_t strlen(const char *s) { yv_assert(s == yv_nm, "the name"); return yv_len; }
char *copy_char_buffer(const size_t n, const char *const s) { yv_assert(s == yv_nm && (n == yv_len || n == yv_len + 1), "the name"); return yv_nm; }
struct YASL_String *YASL_String_new_sized_heap(const size_t a, const size_t b, const char *const p) { yv_assert(a == 0 && b == yv_len && p == yv_nm, "the whole name"); return &yv_key; }
struct YASL_String *YASL_String_new_sized(const size_t n, const char *const p) { yv_assert(n == yv_len && p == yv_nm, "the whole name"); return &yv_key; }
void str_del(struct YASL_String *const s) { (void)s; }
void dec_ref(struct YASL_Object *const v) { (void)v; }
static struct YASL_Object look(const struct YASL_Table *const t) {
	struct YASL_Object no = YASL_END();
	if (t == &yv_sc.vars) return yv_ownhas ? YASL_INT(yv_own) : no;
	if (t == &yv_upsc.vars) return yv_uphas ? YASL_INT(yv_upval) : no;
	if (t == &yv_file.vars) return yv_filehas ? YASL_INT(yv_fileval) : no;
	if (t == &yv_psc.vars) return yv_phas ? YASL_INT(yv_pval) : no;
	if (t == &yv_env.upval_indices) return yv_eup >= 0 ? YASL_INT(yv_eup) : no;
	if (t == &yv_env.upval_values) return yv_eup >= 0 ? YASL_INT(yv_vval) : no;
	if (t == &yv_par.upval_indices) return yv_pup >= 0 ? YASL_INT(yv_pup) : no;
	yv_assert(false, "another table");
	return no;
}
struct YASL_Object YASL_Table_search(const struct YASL_Table *const t, const struct YASL_Object k) {
	yv_assert(k.type == Y_STR && k.value.sval == &yv_key, "the name is looked up");
	return look(t);
}
struct YASL_Object YASL_Table_search_string_int(const struct YASL_Table *const t, const char *const s, const size_t n) {
	yv_assert(s == yv_nm && n == yv_len, "the name is looked up");
	return look(t);
}
static void put(struct YASL_Table *const t, int64_t v) {
	if (t == &yv_env.upval_indices) { yv_ni++; yv_ival = v; if (yv_eup < 0) t->count++; yv_eup = v; return; }
	if (t == &yv_env.upval_values) { yv_nv++; yv_vval = v; return; }
	yv_ns++; yv_stab = t; yv_sval = v;
	if (t == &yv_sc.vars) { if (!yv_ownhas) t->count++; yv_ownhas = true; yv_own = v; }
}
bool YASL_Table_insert(struct YASL_Table *const t, const struct YASL_Object k, const struct YASL_Object v) {
	yv_assert(k.type == Y_STR && k.value.sval == &yv_key && v.type == Y_INT, "a number under the name");
	put(t, v.value.ival);
	return true;
}
void YASL_Table_insert_fast(struct YASL_Table *const t, const struct YASL_Object k, const struct YASL_Object v) { (void)YASL_Table_insert(t, k, v); }
void YASL_Table_insert_string_int(struct YASL_Table *const t, const char *const s, const size_t n, const int64_t v) {
	yv_assert(s == yv_nm && n == yv_len, "under the name");
	put(t, v);
}

#define OUTER (scope == NULL || scope == &yv_sc || scope == &yv_upsc || scope == &yv_file || scope == &yv_psc)
#define HAS(r) ((scope == NULL ? !(r) : 1) && (scope != &yv_sc || (r) == (yv_ownhas || (yv_sc.parent != NULL && yv_uphas))) && (scope != &yv_upsc || (r) == yv_uphas) && (scope != &yv_file || (r) == yv_filehas) && (scope != &yv_psc || (r) == yv_phas))
#define OLDC(x) __CPROVER_old(x)
#define CANON(v) ((v) < 0 ? ~(v) : (v))
bool scope_contains(const struct Scope *const scope, const char *const name) YV_REQUIRES(OUTER && name == yv_nm) YV_ASSIGNS() YV_ENSURES(HAS(__CPROVER_return_value));
int64_t scope_get(const struct Scope *const scope, const char *const name)
	YV_REQUIRES((scope == &yv_sc && (yv_ownhas || (yv_sc.parent == &yv_upsc && yv_uphas))) || (scope == &yv_upsc && yv_uphas) || (scope == &yv_file && yv_filehas) || (scope == &yv_psc && yv_phas)) YV_REQUIRES(name == yv_nm) YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == (scope == &yv_sc ? (yv_ownhas ? yv_own : yv_upval) : scope == &yv_upsc ? yv_upval : scope == &yv_file ? yv_fileval : yv_pval));
size_t scope_len(const struct Scope *const scope) YV_REQUIRES(scope == NULL || scope == &yv_sc || scope == &yv_upsc) YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == (scope == NULL ? 0 : scope == &yv_upsc ? yv_uplen : yv_sc.vars.count + (yv_sc.parent ? yv_uplen : 0)));
bool scope_contains_cur_only(const struct Scope *const scope, const char *const name) YV_REQUIRES(scope == &yv_sc && name == yv_nm) YV_ASSIGNS() YV_ENSURES(__CPROVER_return_value == yv_ownhas);
int64_t scope_decl_var(struct Scope *const scope, const char *const name) YV_REQUIRES(scope == &yv_sc && name == yv_nm && !yv_ownhas) YV_ASSIGNS(GHOST)
	YV_ENSURES(yv_ns == 1 && yv_stab == &yv_sc.vars && yv_sval == (int64_t)(OLDC(yv_sc.vars.count) + (yv_sc.parent ? yv_uplen : 0)) && __CPROVER_return_value == yv_sval + 1);
static struct YASL_Table *get_closest_scope_with_var(struct Scope *const scope, const char *const name, const size_t name_len)
	YV_REQUIRES(name == yv_nm && name_len == yv_len && ((scope == &yv_sc && (yv_ownhas || (yv_sc.parent == &yv_upsc && yv_uphas))) || (scope == &yv_upsc && yv_uphas))) YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == (scope == &yv_sc && yv_ownhas ? &yv_sc.vars : &yv_uptab));
void scope_make_const(struct Scope *const scope, const char *const name)
	YV_REQUIRES(name == yv_nm && scope == &yv_sc && (yv_ownhas ? yv_own : yv_sc.parent == &yv_upsc && yv_uphas ? yv_upval : -1) >= 0) YV_ASSIGNS(GHOST)
	YV_ENSURES(yv_ns == 1 && yv_stab == (OLDC(yv_ownhas) ? &yv_sc.vars : &yv_uptab) && yv_sval == ~(OLDC(yv_ownhas) ? OLDC(yv_own) : yv_upval));
static int64_t env_add_upval(struct Env *env, struct Scope *stack, const char *const name)
	YV_REQUIRES(name == yv_nm && stack == &yv_file && ((env == &yv_env && yv_eup < 0 && (yv_env.parent == &yv_par || (yv_env.parent == NULL && yv_filehas))) || (env == &yv_par && !yv_phas && yv_pup < 0)))
	YV_ASSIGNS(GHOST)
	YV_ENSURES(env != &yv_par || (yv_pup >= 0 && yv_pup < 128 && __CPROVER_return_value == yv_pup && yv_eup == OLDC(yv_eup) && yv_ni == OLDC(yv_ni) && yv_nv == OLDC(yv_nv) && yv_env.upval_indices.count == OLDC(yv_env.upval_indices.count) && yv_env.isclosure == OLDC(yv_env.isclosure)))
	YV_ENSURES(env != &yv_env || (__CPROVER_return_value == (int64_t)OLDC(yv_env.upval_indices.count) && yv_ni == 1 && yv_nv == 1 && yv_ival == __CPROVER_return_value && yv_env.isclosure))
	YV_ENSURES(env != &yv_env || yv_vval == (yv_env.parent == NULL ? CANON(yv_fileval) : yv_phas ? CANON(yv_pval) : ~yv_pup))
	YV_ENSURES(env != &yv_env || yv_env.parent == NULL || !yv_phas || yv_par.usedinclosure);
int64_t env_resolve_upval_index(struct Env *const env, struct Scope *stack, const char *const name)
	YV_REQUIRES(name == yv_nm && stack == &yv_file && env == &yv_env && (yv_env.parent == &yv_par || (yv_env.parent == NULL && yv_filehas))) YV_ASSIGNS(GHOST)
	YV_ENSURES(__CPROVER_return_value == (OLDC(yv_eup) >= 0 ? OLDC(yv_eup) : (int64_t)OLDC(yv_env.upval_indices.count)) && (OLDC(yv_eup) < 0 || (yv_ni == 0 && yv_nv == 0)));

#include "compiler/env.c"

static void setup(void) {
	yv_len = (size_t)yv_range(0, 0, (int64_t)1 << 40);
	yv_sc.parent = yv_get(1) ? &yv_upsc : NULL;
	yv_ownhas = yv_get(2) != 0; yv_uphas = yv_get(3) != 0; yv_filehas = yv_get(4) != 0; yv_phas = yv_get(5) != 0;
	yv_own = yv_range(6, -256, 255); yv_upval = yv_range(7, -256, 255); yv_fileval = yv_range(8, -256, 255); yv_pval = yv_range(9, -256, 255);
	yv_uplen = (size_t)yv_range(10, 0, 1 << 30); yv_sc.vars.count = (size_t)yv_range(11, 0, 1 << 30);
	yv_upsc.vars.count = yv_uplen; yv_upsc.parent = yv_file.parent = yv_psc.parent = NULL;
	yv_env.parent = yv_get(12) ? &yv_par : NULL;
	yv_env.scope = &yv_sc; yv_par.scope = &yv_psc; yv_par.parent = NULL;
	yv_env.isclosure = yv_get(13) != 0; yv_par.isclosure = yv_get(14) != 0; yv_par.usedinclosure = yv_get(15) != 0;
	yv_pup = yv_range(16, -1, 127); yv_eup = yv_range(17, -1, 127);
	yv_env.upval_indices.count = (size_t)yv_range(18, 0, 255); yv_par.upval_indices.count = (size_t)yv_range(19, 0, 255);
	yv_ni = yv_nv = yv_ns = 0; yv_stab = NULL; yv_ival = yv_vval = yv_sval = 0;
}
void u_contains(void) { setup(); (void)scope_contains(yv_get(20) ? &yv_sc : NULL, yv_nm); yv_reach(); }
void u_contains_own(void) { setup(); (void)scope_contains_cur_only(&yv_sc, yv_nm); yv_reach(); }
void u_get(void) { setup(); yv_assume(yv_ownhas || (yv_sc.parent && yv_uphas)); (void)scope_get(&yv_sc, yv_nm); yv_reach(); }
void u_len(void) { setup(); (void)scope_len(yv_get(20) ? &yv_sc : NULL); yv_reach(); }
void u_decl(void) { setup(); yv_assume(!yv_ownhas); (void)scope_decl_var(&yv_sc, yv_nm); yv_reach(); }
void u_closest(void) { setup(); yv_assume(yv_ownhas || (yv_sc.parent && yv_uphas)); (void)get_closest_scope_with_var(&yv_sc, yv_nm, yv_len); yv_reach(); }
void u_const(void) { setup(); yv_assume(yv_ownhas ? yv_own >= 0 : yv_sc.parent && yv_uphas && yv_upval >= 0); scope_make_const(&yv_sc, yv_nm); yv_reach(); }
void u_capture(void) { setup(); yv_assume(yv_eup < 0 && (yv_env.parent || yv_filehas)); (void)env_add_upval(&yv_env, &yv_file, yv_nm); yv_reach(); }
void u_resolve(void) { setup(); yv_assume(yv_env.parent || yv_filehas); (void)env_resolve_upval_index(&yv_env, &yv_file, yv_nm); yv_reach(); }
void u_value(void) { setup(); yv_assume(yv_eup >= 0); yv_vval = yv_get(20); yv_assert(env_resolve_upval_value(&yv_env, yv_nm) == yv_vval, "where the captured variable is found"); yv_reach(); }
