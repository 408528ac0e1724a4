/* Runs sequences of calls of the C API (C15): the records of snip.c are commands, one per line; what the calls return is the output. */
#define SNIP_RUN static int run(const char *src, size_t len, long *leak);
#include "snip.c"
#include "interpreter/YASL_Object.h"
#include <stdarg.h>
#include <inttypes.h>

int YASL_peekntype(struct YASL_State *S, unsigned n);

static void out(const char *fmt, ...) {
	va_list a;
	va_start(a, fmt);
	if (buflen < sizeof buf / 2) buflen += (size_t)vsnprintf(buf + buflen, sizeof buf / 2 - buflen, fmt, a);
	va_end(a);
}
static void outbits(double d) { uint64_t b; memcpy(&b, &d, 8); if (d != d) out("nan"); else out("f%016" PRIx64, b); }

static int dead[64];
static int ids[64];
static const char *const tags[3] = { "tagA", "tagB", "tagC" };
static void destroy(void *p) { dead[(int *)p - ids]++; }

/* C functions that the histories push and call */
static int f_swap(struct YASL_State *S) {           /* (a, b) -> b, a for ints */
	yasl_int b = YASL_popint(S), a = YASL_popint(S);
	YASL_pushint(S, b); YASL_pushint(S, a);
	return 2;
}
static int f_none(struct YASL_State *S) { (void)S; return 0; }
static int f_id(struct YASL_State *S) { (void)S; return 1; }                       /* (x) -> x */
static int f_apply(struct YASL_State *S) { return YASL_functioncall(S, 1); }        /* (f, x) -> f(x), whatever it returns */
static int f_apply2(struct YASL_State *S) { return YASL_functioncall(S, 2); }
static int f_count(struct YASL_State *S) {          /* (...) -> how many, the first */
	yasl_int n = YASL_peekvargscount(S);
	YASL_pushint(S, n);
	return 1;
}
static int f_kinds(struct YASL_State *S) {          /* (a, b) -> what they are, as seen from the frame */
	YASL_pushint(S, YASL_peekntype(S, 0) * 100 + YASL_peekntype(S, 1) + 10000 * YASL_isnint(S, 0) + 100000 * YASL_isnstr(S, 1));
	return 1;
}
static int f_arg(struct YASL_State *S) {            /* (a, b): both have to be what they have to be */
	yasl_int a = YASLX_checknint(S, "arg", 0);
	yasl_float b = YASLX_checknfloat(S, "arg", 1);
	bool c = YASLX_checknbool(S, "arg", 2);
	YASL_pushfloat(S, c ? a + b : a - b);
	return 1;
}
static const struct { YASL_cfn f; int n; } fns[] = { { f_swap, 2 }, { f_none, 0 }, { f_id, 1 }, { f_apply, 2 }, { f_apply2, 3 }, { f_count, -1 }, { f_kinds, 2 }, { f_arg, 3 } };

static void showtop(struct YASL_State *S) {
	out("%s ", YASL_peektypename(S));
	out("%d%d%d%d%d%d%d%d ", YASL_isundef(S), YASL_isbool(S), YASL_isfloat(S), YASL_isint(S), YASL_isstr(S), YASL_islist(S), YASL_istable(S), YASL_isuserptr(S));
	out("%d%d ", YASL_isuserdata(S, tags[0]), YASL_isuserdata(S, tags[1]));
	out("%d %" PRId64 " ", YASL_peekbool(S), (int64_t)YASL_peekint(S));
	outbits(YASL_peekfloat(S));
	char *s = YASL_peekcstr(S);
	out(" %s|", s ? s : "NULL");
	free(s);
}
static int unhex(const char *h, char *to) {
	int n = 0;
	while (h[0] && h[1]) { unsigned v; sscanf(h, "%2x", &v); to[n++] = (char)v; h += 2; }
	to[n] = 0;
	return n;
}
/* the names of globals and metatables are not copied by the API, so they have to last */
static const char *lasting(const char *name) {
	static const char *const names[] = { "arg", "ga", "gb", "gc", "gd", "ma", "mb" };
	for (size_t i = 0; i < sizeof names / sizeof *names; i++) if (!strcmp(names[i], name)) return names[i];
	abort();
}
static char hex[1 << 16], bin[1 << 15];

static int run(const char *src, size_t len, long *leak) {
	memset(dead, 0, sizeof dead);
	size_t before = live();
	char *prog[64];
	int nprog = 0;
	struct YASL_State *S = YASL_newstate_bb("", 0);
	YASLX_decllibs(S);
	YASL_setprintout_tostr(S);
	YASL_setprinterr_tostr(S);
	buflen = errlen = 0;
	size_t shown = 0;
	const char *p = src, *end = src + len;
	while (p < end) {
		const char *nl = memchr(p, '\n', (size_t)(end - p));
		if (!nl) nl = end;
		char line[1 << 16], op[32] = "";
		int n = (int)(nl - p) < (int)sizeof line - 1 ? (int)(nl - p) : (int)sizeof line - 1;
		memcpy(line, p, (size_t)n); line[n] = 0;
		p = nl + 1;
		long long a = 0, b = 0;
		hex[0] = 0;
		sscanf(line, "%31s", op);
#define IS(s) (!strcmp(op, s))
#define A1 sscanf(line, "%*s %lld", &a)
#define A2 sscanf(line, "%*s %lld %lld", &a, &b)
#define AS (sscanf(line, "%*s %65535s", hex), unhex(hex, bin))
		if (IS("i")) { A1; YASL_pushint(S, a); }
		else if (IS("f")) { uint64_t u; double d; sscanf(line, "%*s %" SCNx64, &u); memcpy(&d, &u, 8); YASL_pushfloat(S, d); }
		else if (IS("b")) { A1; YASL_pushbool(S, a); }
		else if (IS("u")) YASL_pushundef(S);
		else if (IS("s")) { int l = AS; YASL_pushlstr(S, bin, (size_t)l); memset(bin, 'X', (size_t)l); }
		else if (IS("z")) { AS; YASL_pushzstr(S, bin); memset(bin, 'X', strlen(bin)); }
		else if (IS("lit")) { A1; YASL_pushlit(S, tags[a]); }
		else if (IS("L")) YASL_pushlist(S);
		else if (IS("T")) YASL_pushtable(S);
		else if (IS("P")) { A1; YASL_pushuserptr(S, &ids[a]); }
		else if (IS("D")) { A2; YASL_pushuserdata(S, &ids[a], tags[b], destroy); }
		else if (IS("C")) { A1; YASL_pushcfunction(S, fns[a].f, fns[a].n); }
		else if (IS("pop")) YASL_pop(S);
		else if (IS("popint")) out("%" PRId64 "\n", (int64_t)YASL_popint(S));
		else if (IS("popbool")) out("%d\n", YASL_popbool(S));
		else if (IS("popfloat")) { outbits(YASL_popfloat(S)); out("\n"); }
		else if (IS("popcstr")) { char *s = YASL_popcstr(S); out("%s\n", s ? s : "NULL"); free(s); }
		else if (IS("popud")) out("%d\n", (int)((int *)YASL_popuserdata(S) - ids));
		else if (IS("popptr")) out("%d\n", (int)((int *)YASL_popuserptr(S) - ids));
		else if (IS("top")) { showtop(S); out("\n"); }
		else if (IS("n")) {
			A1;
			out("%s %d%d%d%d%d%d%d%d %d %d %" PRId64 " ", YASL_peekntypename(S, (unsigned)a), YASL_isnundef(S, a), YASL_isnbool(S, a), YASL_isnfloat(S, a), YASL_isnint(S, a), YASL_isnstr(S, a),
			    YASL_isnlist(S, a), YASL_isntable(S, a), YASL_isnuserptr(S, a), YASL_isnuserdata(S, tags[0], a), YASL_peeknbool(S, a), (int64_t)YASL_peeknint(S, a));
			outbits(YASL_peeknfloat(S, a)); out("\n");
		}
		else if (IS("height")) out("%d\n", S->vm.sp + 1);
		else if (IS("dup")) out("%d\n", YASL_duptop(S));
		else if (IS("listpush")) out("%d\n", YASL_listpush(S));
		else if (IS("tableset")) out("%d\n", YASL_tableset(S));
		else if (IS("tablenext")) out("%d\n", YASL_tablenext(S));
		else if (IS("iter")) {
			int cnt = 0; int64_t x = 0;
			YASL_pushundef(S);
			while (YASL_tablenext(S)) {
				cnt++;
				x += 3 * YASL_popint(S);
				if (YASL_isstr(S)) { char *s = YASL_peekcstr(S); x += 1000 + s[0]; free(s); } else x += YASL_peekint(S);
			}
			out("%d %" PRId64 "\n", cnt, x);
		}
		else if (IS("listget")) { A1; out("%d\n", YASL_listget(S, a)); }
		else if (IS("len")) YASL_len(S);
		else if (IS("decl")) { AS; out("%d\n", YASL_declglobal(S, lasting(bin))); }
		else if (IS("setg")) { AS; out("%d\n", YASL_setglobal(S, lasting(bin))); }
		else if (IS("loadg")) { AS; out("%d\n", YASL_loadglobal(S, lasting(bin))); }
		else if (IS("regmt")) { AS; out("%d\n", YASL_registermt(S, lasting(bin))); }
		else if (IS("loadmt")) { AS; out("%d\n", YASL_loadmt(S, lasting(bin))); }
		else if (IS("setmt")) out("%d\n", YASL_setmt(S));
		else if (IS("call")) { A1; out("%d\n", YASL_functioncall(S, (int)a)); }
		else if (IS("dead")) { A1; out("%d\n", dead[a]); }
		else if (IS("run") || IS("runq") || IS("repl")) {
			int l = AS;
			prog[nprog] = malloc((size_t)l + 1);
			memcpy(prog[nprog], bin, (size_t)l);
			YASL_resetstate_bb(S, prog[nprog++], (size_t)l);
			YASL_setprinterr_tostr(S);
			S->vm.err.len = 0;
			int st = IS("repl") ? YASL_execute_REPL(S) : YASL_execute(S);
			out("%.*s", (int)(S->vm.out.len - shown), S->vm.out.string ? S->vm.out.string + shown : "");
			shown = S->vm.out.len;
			if (st && !IS("runq")) {      /* the lines that the message names */
				struct IO *io = S->compiler.status ? &S->compiler.parser.lex.err : &S->vm.err;
				for (size_t i = 0; i + 6 < io->len; i++) {
					if (!strncmp(io->string + i, "(line ", 6)) out("line %d\n", atoi(io->string + i + 6));
					if (!strncmp(io->string + i, "In function call on line ", 25)) out("call %d\n", atoi(io->string + i + 25));
				}
			}
			out("status %d\n", st);
		}
		else out("? %s\n", op);
		if (getenv("API_TRACE")) fprintf(stderr, "@%s %d: %s\n", op, S->vm.sp + 1, bin);
	}
	YASL_delstate(S);
	for (int i = 0; i < nprog; i++) free(prog[i]);
	out("dead");
	for (int i = 0; i < 64; i++) if (dead[i]) out(" %d:%d", i, dead[i]);
	out("\n");
	*leak = (long)(live() - before);
	return 0;
}
