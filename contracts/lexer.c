/* C16: compiler/lexer.c. The text is read through lxgetc, lxtell, lxseek and lxeof, which are stubs here: any text of any length. */
#define __NO_CTYPE 1    /* functions, not macros over tables of glibc */
#include "yvh.h"
#include <ctype.h>
#include "compiler/lexer.h"
#include "yasl_error.h"

static const struct { char s[4]; enum Token t; } ops[] = {
	{ ";", T_SEMI }, { "(", T_LPAR }, { ")", T_RPAR }, { "[", T_LSQB }, { "]", T_RSQB }, { "{", T_LBRC }, { "}", T_RBRC }, { ".", T_DOT }, { "...", T_TDOT }, { ",", T_COMMA },
	{ "^", T_CARET }, { "^=", T_CARETEQ }, { "+", T_PLUS }, { "+=", T_PLUSEQ }, { "-", T_MINUS }, { "-=", T_MINUSEQ }, { "!", T_BANG }, { "!=", T_BANGEQ }, { "!==", T_BANGDEQ }, { "!~", T_BANGTILDE },
	{ "~", T_TILDE }, { "~=", T_TILDEEQ }, { "*", T_STAR }, { "*=", T_STAREQ }, { "**", T_DSTAR }, { "**=", T_DSTAREQ }, { "/", T_SLASH }, { "/=", T_SLASHEQ }, { "//", T_DSLASH }, { "//=", T_DSLASHEQ },
	{ "%", T_MOD }, { "%=", T_MODEQ }, { "<", T_LT }, { "<=", T_LTEQ }, { "<<", T_DLT }, { "<<=", T_DLTEQ }, { ">", T_GT }, { ">=", T_GTEQ }, { ">>", T_DGT }, { ">>=", T_DGTEQ }, { "=", T_EQ }, { "==", T_DEQ },
	{ "===", T_TEQ }, { "=~", T_EQTILDE }, { "&", T_AMP }, { "&=", T_AMPEQ }, { "&&", T_DAMP }, { "&&=", T_DAMPEQ }, { "&^", T_AMPCARET }, { "&^=", T_AMPCARETEQ }, { "|", T_BAR }, { "|=", T_BAREQ }, { "||", T_DBAR },
	{ "||=", T_DBAREQ }, { "?", T_QMARK }, { "??", T_DQMARK }, { "\?\?=", T_DQMARKEQ }, { ":", T_COLON }, { ":=", T_COLONEQ }, { "->", T_RIGHT_ARR }, { "<-", T_LEFT_ARR },
};
#define NOPS ((int)(sizeof ops / sizeof *ops))
static enum Token op_of(char a, char b, char c) {
	enum Token t = T_UNKNOWN;
	for (int i = 0; i < NOPS; i++) if (ops[i].s[0] == a && ops[i].s[1] == b && (b == 0 || ops[i].s[2] == c)) t = ops[i].t;
	return t;
}
static const struct { char s[12]; enum Token t; } words[] = {
	{ "break", T_BREAK }, { "const", T_CONST }, { "continue", T_CONT }, { "else", T_ELSE }, { "elseif", T_ELSEIF }, { "export", T_EXPORT }, { "fn", T_FN }, { "for", T_FOR }, { "if", T_IF }, { "echo", T_ECHO }, { "let", T_LET },
	{ "return", T_RET }, { "undef", T_UNDEF }, { "while", T_WHILE }, { "len", T_LEN }, { "assert", T_ASS }, { "match", T_MATCH }, { "true", T_BOOL }, { "false", T_BOOL },
	{ "header", T_UNKNOWN }, { "global", T_UNKNOWN }, { "enum", T_UNKNOWN }, { "struct", T_UNKNOWN }, { "pragma", T_UNKNOWN }, { "yield", T_UNKNOWN }, { "do", T_UNKNOWN }, { "ifdef", T_UNKNOWN }, { "elseifdef", T_UNKNOWN },
	{ "use", T_UNKNOWN }, { "no", T_UNKNOWN }, { "pure", T_UNKNOWN }, { "consteval", T_UNKNOWN }, { "constexpr", T_UNKNOWN }, { "constfold", T_UNKNOWN }, { "extern", T_UNKNOWN }, { "in", T_UNKNOWN }, { "typename", T_UNKNOWN },
};

/* libc, as specified in C99 (7.21.4.2; 7.20.1.4 for texts of at most two characters in base 16) */
int strcmp(const char *a, const char *b) {
	size_t i = 0;
	while (a[i] && a[i] == b[i]) i++;
	return (unsigned char)a[i] - (unsigned char)b[i];
}
#define HEX(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : (c) >= 'a' && (c) <= 'f' ? (c) - 'a' + 10 : (c) >= 'A' && (c) <= 'F' ? (c) - 'A' + 10 : -1)
long strtol(const char *s, char **e, int base) {
	__CPROVER_assert(base == 16, "hexadecimal");
	int i = 0;
	long v = 0;
	bool neg = false, any = false;
	while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++;
	if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-';
	while (HEX(s[i]) >= 0) { v = 16 * v + HEX(s[i]); i++; any = true; }     /* 0x without a digit behind it is a 0 */
	*e = (char *)(any ? s + i : s);
	return neg ? -v : v;
}
int isxdigit(int c) { return HEX(c) >= 0; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* ---- the text: ghost counters of what was read */
static bool yv_plain;      /* the text has no backslash */
static size_t yv_pos, yv_nl, yv_cnt, yv_k, yv_lim;
static int yv_eof, yv_kth, yv_pkth, yv_first[4];  /* the yv_k-th character that is no underscore, the yv_k-th of all, the first ones */
static size_t yv_app;                   /* log: how many characters were appended, the yv_k-th of them */
static int yv_appk;
static int yv_next(void) {      /* a byte, or the end */
	int64_t v = nondet_yv();
	int c = v < 0 ? -1 : (int)(v & 255);
	if (yv_lim && yv_pos >= yv_lim) c = -1;
	return c;
}
#ifdef YV_CMT
static int yv_last, yv_pairs;     /* block comments: the character read last, how many ends were seen */
#define CMT , yv_last, yv_pairs
#else
#define CMT
#endif
int lxgetc(struct LEXINPUT *const lp) {
	(void)lp;
	int c = yv_next();
	if (c < 0 || yv_eof) { yv_eof = 1; return -1; }
	if (yv_plain) __CPROVER_assume(c != '\\');
	if (yv_pos == yv_k) yv_pkth = c;
#ifdef YV_CMT
	if (c == '/' && yv_last == '*' && yv_pos >= 2) yv_pairs++;
	yv_last = c;
#endif
	if (yv_pos < 4) yv_first[yv_pos] = c;
	yv_pos++;
	__CPROVER_assume(yv_pos < (size_t)1 << 30);
	if (c == '\n') yv_nl++;
	if (c != '_') { if (yv_cnt == yv_k) yv_kth = c; yv_cnt++; }
	return c;
}
static size_t yv_sought;
static int yv_cmd;
int lxtell(struct LEXINPUT *const lp) { (void)lp; return (int)yv_pos; }
int lxseek(struct LEXINPUT *const lp, const int w, const int cmd) { (void)lp; yv_sought = (size_t)w; yv_cmd = cmd; return 0; }
int lxeof(struct LEXINPUT *const lp) { (void)lp; return yv_eof; }

#ifndef YV_NATIVE
static void lex_print_err(struct Lexer *lex, const char *const fmt, ...) __CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(1);
#endif
static void yv_print(struct Lexer *lex) { (void)lex; }       /* for lex_print_err where it stands in a loop: the verifier cannot take a variadic call there */
#define GHOSTS yv_pos, yv_nl, yv_cnt, yv_kth, yv_pkth, yv_eof, __CPROVER_object_whole(yv_first) CMT
#define STATE *lex, GHOSTS
#define RW YV_ASSIGNS(STATE, yv_sought, yv_cmd, __CPROVER_object_whole(lex->value)) YV_FREES(lex->value)
static enum Token YASLToken_OneChar(char c1) YV_REQUIRES(1) YV_ASSIGNS();
static enum Token YASLToken_TwoChars(char c1, char c2) YV_REQUIRES(c2 != 0) YV_ASSIGNS();
static enum Token YASLToken_ThreeChars(char c1, char c2, char c3) YV_REQUIRES(c2 != 0 && c3 != 0) YV_ASSIGNS();
static void YASLKeywords(struct Lexer *const lex) YV_ASSIGNS(*lex) YV_FREES(lex->value);
#ifdef YV_LOG
/* as proved of lex_val_append (units append_*), with a log in place of the text */
void lex_val_append(struct Lexer *const lex, char c)
	YV_REQUIRES(lex->value != NULL) YV_ASSIGNS(yv_app, yv_appk, lex->val_len)
	YV_ENSURES(lex->val_len == __CPROVER_old(lex->val_len) + 1 && yv_app == __CPROVER_old(yv_app) + 1 && yv_appk == (__CPROVER_old(yv_app) == yv_k ? (unsigned char)c : __CPROVER_old(yv_appk)));
#undef RW
#define RW YV_ASSIGNS(STATE, yv_sought, yv_cmd, yv_app, yv_appk, __CPROVER_object_whole(lex->value)) YV_FREES(lex->value)
#else
void lex_val_append(struct Lexer *const lex, char c) YV_ASSIGNS(*lex, __CPROVER_object_whole(lex->value)) YV_FREES(lex->value);
#endif
static void lex_eatid_fill(struct Lexer *const lex) RW;
#ifdef YV_CMT
/* what stands before and behind the comment is left to them (proved in blank and comment): here no blank follows it */
static bool lex_eatwhitespace(struct Lexer *const lex) YV_REQUIRES(lex->c == '/' || lex->c == ' ') YV_ASSIGNS(lex->c) YV_ENSURES(!__CPROVER_return_value && lex->c == (__CPROVER_old(lex->c) == ' ' ? 'x' : '/'));
static bool lex_eatinlinecomments(struct Lexer *const lex) YV_REQUIRES(lex->c != '#') YV_ASSIGNS() YV_ENSURES(!__CPROVER_return_value);
static bool lex_eatcommentsandwhitespace(struct Lexer *lex) YV_ASSIGNS(STATE, yv_sought, yv_cmd, __CPROVER_object_whole(lex->value)) YV_FREES(lex->value);
#else
static bool lex_eatwhitespace(struct Lexer *const lex) YV_ASSIGNS(STATE);
static bool lex_eatinlinecomments(struct Lexer *const lex) YV_ASSIGNS(STATE);
#endif
#ifdef YV_LOG
static bool handle_escapes(struct Lexer *const lex, char delim) YV_REQUIRES(!yv_plain) YV_ASSIGNS();
#else
static bool handle_escapes(struct Lexer *const lex, char delim) RW;
#endif
static bool lex_eatrawstring(struct Lexer *const lex) RW;
static bool lex_eatstring(struct Lexer *const lex) RW;
void lex_eatinterpstringbody(struct Lexer *const lex) RW;
static long lex_eatnumber_fill(struct Lexer *const lex, int (*isvaliddigit)(int)) RW;
static bool lex_eatop(struct Lexer *const lex) YV_ASSIGNS(STATE, yv_sought, yv_cmd);

static struct Lexer *yv_lex;
static size_t yv_line0;
static bool yv_ends;      /* the token before can end a statement */
#define ender(t) ((t) == T_ID || (t) == T_STR || (t) == T_INT || (t) == T_FLOAT || (t) == T_BREAK || (t) == T_CONT || (t) == T_RPAR || (t) == T_RSQB || (t) == T_RBRC || (t) == T_UNDEF || (t) == T_BOOL)

#include "compiler/lexer.c"

static struct Lexer *lexer(size_t cap) {
	struct Lexer *lex = malloc(sizeof *lex);
	memset(lex, 0, sizeof *lex);
	lex->line = yv_line0 = yv_size(0, 40);
	lex->val_cap = cap;
	lex->value = cap ? malloc(cap) : NULL;
	lex->type = T_UNKNOWN;
	yv_pos = yv_nl = yv_cnt = yv_sought = yv_lim = 0; yv_app = 0; yv_appk = -1; yv_eof = 0; yv_kth = yv_pkth = -1; yv_cmd = -1;
#ifdef YV_NATIVE
	struct IO io = NEW_IO(stderr);
	lex->err = io;
	IO_str_setup(&lex->err);
#endif
	return yv_lex = lex;
}
static void end(void) {
	yv_reach();
#ifdef YV_NATIVE
	free(yv_lex->value); free(yv_lex);
#endif
}

void u_tok1(void) {
	char a = (char)yv_range(1, -128, 127);
	enum Token t = YASLToken_OneChar(a);
	yv_assert(t == op_of(a, 0, 0), "the operator of one character");
	yv_reach();
}
void u_tok2(void) {
	char a = (char)yv_range(1, -128, 127), b = (char)yv_range(2, -128, 127);
	yv_assume(b != 0);
	enum Token t = YASLToken_TwoChars(a, b);
	yv_assert(t == op_of(a, b, 0), "the operator of two characters");
	yv_reach();
}
void u_tok3(void) {
	char a = (char)yv_range(1, -128, 127), b = (char)yv_range(2, -128, 127), c = (char)yv_range(3, -128, 127);
	yv_assume(b != 0 && c != 0);
	enum Token t = YASLToken_ThreeChars(a, b, c);
	yv_assert(t == op_of(a, b, c), "the operator of three characters");
	yv_reach();
}
#define NWORDS ((int)(sizeof words / sizeof *words))
/* any word: no keyword has more than eleven characters, so what follows them does not matter */
void u_word(void) {
	struct Lexer *lex = lexer(16);
	for (int i = 0; i < 12; i++) lex->value[i] = (char)yv_range(1 + i, -128, 127);
	lex->value[12] = 0;
	char w[13];
	memcpy(w, lex->value, 13);
	lex->type = T_ID;
	YASLKeywords(lex);
	int k = -1;
	for (int i = 0; i < NWORDS; i++) {
		bool same = true;
		for (int j = 0; j < 12 && same; j++) { if (words[i].s[j] != w[j]) same = false; if (!w[j]) break; }
		if (same) k = i;
	}
	yv_assert(lex->type == (k < 0 ? T_ID : words[k].t), "a keyword is that keyword and any other word an identifier");
	yv_assert(lex->status == (k >= 0 && words[k].t == T_UNKNOWN ? YASL_SYNTAX_ERROR : YASL_SUCCESS), "only reserved words are refused");
	yv_assert(k >= 0 && words[k].t != T_BOOL || lex->value != NULL, "identifiers keep their text");
	end();
}

static size_t yv_size1(int k) { return (size_t)yv_range(k, 0, (int64_t)1 << 30); }
/* appending a character, to a text of any length */
static void append(bool full) {
	size_t cap = yv_size1(1), len = full ? cap : yv_size1(2);
	yv_assume(cap >= 1 && (full || len < cap));
	struct Lexer *lex = lexer(0);
	lex->val_cap = cap; lex->val_len = len; lex->value = yv_block(cap);
	size_t k = yv_size1(3);
	yv_assume(k < len || len == 0);
	char at = len ? lex->value[k] : 0, c = (char)yv_range(4, -128, 127);
	lex_val_append(lex, c);
	yv_assert(lex->val_len == len + 1 && lex->val_len <= lex->val_cap, "one character longer, and it fits");
	yv_assert(lex->value[len] == c, "the character is at the end");
	yv_assert(len == 0 || lex->value[k] == at, "what was there stays");
	end();
}
void u_append_room(void) { append(false); }
void u_append_full(void) { append(true); }

/* blanks and newlines: any number */
void u_blank(void) {
	struct Lexer *lex = lexer(0);
	enum Token was = (enum Token)yv_range(1, -1, 83);
	lex->type = was;
	yv_ends = ender(was);
	lex->c = (char)yv_range(2, -128, 127);
	yv_nl = lex->c == '\n';
	bool r = lex_eatwhitespace(lex);
	if (r) {
		yv_assert(ender(was) && lex->type == T_SEMI, "a newline ends a statement only behind a token that can end one");
		yv_assert(lex->c == '\n' && yv_nl == 1, "at the first newline");
	} else {
		yv_assert(lex->type == was, "blanks are no token");
		yv_assert(yv_eof || !(lex->c == ' ' || lex->c == '\t' || lex->c == '\n'), "up to what is no blank");
		yv_assert(!ender(was) || yv_nl == 0, "no newline is skipped behind a token that can end a statement");
	}
	yv_assert(lex->line == yv_line0 + yv_nl, "every newline is counted");
	end();
}
void u_comment(void) {
	struct Lexer *lex = lexer(0);
	enum Token was = (enum Token)yv_range(1, -1, 83);
	lex->type = was;
	lex->c = '#';
	bool r = lex_eatinlinecomments(lex);
	yv_assert(!r && lex->type == was, "a comment is no token");
	yv_assert(yv_eof || (lex->c == '\n' && yv_nl == 1), "a comment reaches to the end of the line");
	yv_assert(lex->line == yv_line0, "the newline is left to be counted");
	end();
}
#ifdef YV_CMT
void u_block(void) {
	struct Lexer *lex = lexer(8);
	enum Token was = (enum Token)yv_range(1, -1, 83);
	lex->type = was;
	lex->c = '/';
	yv_last = yv_pairs = 0;
	yv_ends = ender(was);
	bool r = lex_eatcommentsandwhitespace(lex);
	if (yv_first[0] != '*' || yv_pos == 0) {
		yv_assert(yv_eof ? r && lex->type == T_SLASH : !r && lex->c == '/' && lex->type == was && yv_cmd == SEEK_SET && yv_sought == 0, "a slash alone is an operator");
		yv_assert(lex->line == yv_line0, "on its line");
	} else if (lex->status == YASL_SUCCESS) {
		yv_assert(yv_pairs == 1 && yv_last == '/', "a comment reaches to the first end of a comment");
		yv_assert(lex->line == yv_line0 + yv_nl, "its newlines are counted");
		yv_assert(r == (yv_nl > 0 && ender(was)) && lex->type == (r ? T_SEMI : was), "its newlines end a statement behind a token that can end one");
	} else
		yv_assert(yv_eof && r && lex->status == YASL_SYNTAX_ERROR, "only the end of the text makes it an error");
	end();
}
#endif
/* escapes */
static int hexval(char c) { return HEX(c); }
void u_escape(void) {
	static const char from[] = "abfnrtv0'\"#\\", to[] = { 7, 8, 12, 10, 13, 9, 11, 0, 39, 34, 35, 92 };
	struct Lexer *lex = lexer(8);
	int k = (int)yv_range(1, 0, 11);
	lex->val_len = 3; lex->value[0] = 'p'; lex->value[1] = 'q'; lex->value[2] = 'r';
	lex->c = from[k];
	bool r = handle_escapes(lex, '\'');
	yv_assert(!r && lex->status == YASL_SUCCESS, "a known escape is accepted");
	yv_assert(lex->val_len == 4 && lex->value[3] == to[k] && lex->value[0] == 'p' && lex->value[2] == 'r', "and stands for its character");
	yv_assert(yv_pos == 0, "nothing else is read");
	end();
}
void u_escape_unknown(void) {
	struct Lexer *lex = lexer(8);
	lex->c = (char)yv_range(1, -128, 127);
	for (int i = 0; i < 12; i++) yv_assume(lex->c != "abfnrtv0'\"#\\"[i]);
	yv_assume(lex->c != 'x');
	yv_lim = 3;
	bool r = handle_escapes(lex, '\'');
	yv_assert(r && lex->status == YASL_SYNTAX_ERROR && lex->type == T_UNKNOWN && lex->value == NULL, "any other escape is refused");
	end();
}
void u_escape_hex(void) {
	struct Lexer *lex = lexer(8);
	lex->val_len = 2; lex->value[0] = 'p'; lex->value[1] = 'q';
	lex->c = 'x';
	yv_k = 0; yv_lim = 4;
	int a = -1, b = -1;
	bool r = handle_escapes(lex, '\'');
	a = hexval((char)yv_kth);
	b = r ? -1 : hexval((char)lex->c);
	if (!r) {
		yv_assert(yv_pos == 2 && a >= 0 && b >= 0, "two hexadecimal digits");
		yv_assert(lex->val_len == 3 && (unsigned char)lex->value[2] == 16 * a + b && lex->value[0] == 'p' && lex->value[1] == 'q', "stand for their number");
	} else
		yv_assert(lex->status == YASL_SYNTAX_ERROR && lex->value == NULL, "anything else is refused");
	end();
}
/* raw strings, the digits of numbers and identifiers, of any length */
#ifdef YV_LOG
void u_raw(void) {
	struct Lexer *lex = lexer(8);
	yv_k = yv_size1(1);
	lex->c = '`';
	bool r = lex_eatrawstring(lex);
	yv_assert(r, "a raw string is a token");
	if (lex->status == YASL_SUCCESS) {
		yv_assert(lex->type == T_STR && lex->c == '`', "it reaches to the next backtick");
		yv_assert(yv_app + 1 == yv_pos && lex->val_len == yv_app, "every character belongs to it");
		yv_assert(yv_k >= yv_app || yv_appk == yv_pkth, "in its place");
		yv_assert(lex->line == yv_line0 + yv_nl, "its newlines are counted");
	} else
		yv_assert(yv_eof && lex->status == YASL_SYNTAX_ERROR && lex->value == NULL, "only the end of the text makes it an error");
	end();
}
/* strings without escapes, and the parts of interpolated ones */
static void plain(bool interp) {
	struct Lexer *lex = lexer(8);
	yv_k = yv_size1(1); yv_plain = true;
	if (interp) { int64_t d = yv_range(2, -128, 127); lex->c = (char)d; yv_assume(d != '\\'); yv_pos = 1; if (yv_k == 0) yv_pkth = (unsigned char)d; lex_eatinterpstringbody(lex); }
	else { lex->c = '\''; bool r = lex_eatstring(lex); yv_assert(r, "a string is a token"); }
	if (lex->status == YASL_SUCCESS) {
		yv_assert(lex->type == T_STR && (interp ? lex->c == '"' || lex->c == '#' : lex->c == '\''), "it reaches to its end");
		yv_assert(yv_app + 1 == yv_pos && lex->val_len == yv_app, "every character belongs to it");
		yv_assert(yv_k >= yv_app || yv_appk == yv_pkth, "in its place");
		if (interp) yv_assert(lex->mode == (lex->c == '#' ? L_INTERP : L_NORMAL), "# begins an expression");
	} else {
		yv_assert(lex->status == YASL_SYNTAX_ERROR && lex->value == NULL, "an unclosed string is refused");
		yv_assert(yv_eof || (!interp && yv_nl == 1) || interp, "only the end of the line or of the text makes it an error");
	}
	end();
}
void u_plain(void) { plain(false); }
void u_part(void) { plain(true); }
static void first(struct Lexer *lex, char c) { lex->c = c; yv_pos = 1; yv_cnt = 1; if (yv_k == 0) yv_kth = yv_pkth = (unsigned char)c; }
static void digits(int (*valid)(int), char c) {
	struct Lexer *lex = lexer(8);
	yv_k = yv_size1(1);
	first(lex, c);
	long cur = lex_eatnumber_fill(lex, valid);
	yv_assert(yv_app + !yv_eof == yv_cnt, "every digit belongs to the number, no underscore does");
	yv_assert(yv_k >= yv_app || yv_appk == yv_kth, "in its place");
	yv_assert(yv_eof || !(*valid)(lex->c) && lex->c != '_', "up to what is neither a digit nor an underscore");
	yv_assert(cur == (long)yv_pos - !yv_eof, "what is behind it is read again");
	end();
}
void u_digits_dec(void) { int64_t d = yv_range(2, '0', '9'); digits(&isddigit, (char)d); }
void u_digits_bin(void) { int64_t d = yv_range(2, '0', '1'); digits(&isbdigit, (char)d); }
void u_digits_hex(void) { int64_t d = yv_range(2, 0, 127); yv_assume(HEX(d) >= 0); digits(&isxdigit, (char)d); }
void u_id(void) {
	struct Lexer *lex = lexer(8);
	yv_k = yv_size1(1);
	char c = (char)yv_range(2, 0, 127);
	yv_assume(isalpha(c) || c == '_' || c == '$');
	first(lex, c);
	lex_eatid_fill(lex);
	yv_assert(yv_app + !yv_eof == yv_pos, "every character belongs to the name");
	yv_assert(yv_k >= yv_app || yv_appk == yv_pkth, "in its place");
	yv_assert(yv_eof || !(isalnum(lex->c) || lex->c == '_' || lex->c == '$'), "up to what is neither a letter nor a digit nor _ nor $");
	yv_assert(yv_eof || (yv_cmd == SEEK_SET && yv_sought == yv_pos - 1), "what is behind it is read again");
	end();
}
#endif
/* operators: the longest one */
void u_op(void) {
	struct Lexer *lex = lexer(0);
	char c = (char)yv_range(1, -128, 127);
	lex->c = c; yv_pos = 1; yv_first[1] = yv_first[2] = 0;
	bool r = lex_eatop(lex);
	char c2 = yv_pos > 1 ? (char)yv_first[1] : 0, c3 = yv_pos > 2 ? (char)yv_first[2] : 0;
	enum Token t1 = op_of(c, 0, 0), t2 = c2 ? op_of(c, c2, 0) : T_UNKNOWN, t3 = c2 && c3 ? op_of(c, c2, c3) : T_UNKNOWN;
	enum Token want = t3 != T_UNKNOWN ? t3 : t2 != T_UNKNOWN ? t2 : t1;
	size_t n = t3 != T_UNKNOWN ? 3 : t2 != T_UNKNOWN ? 2 : 1;
	yv_assert(r == (want != T_UNKNOWN), "an operator or not");
	if (r) {
		yv_assert(lex->type == want, "the longest operator that the text begins with");
		yv_assert((yv_cmd < 0 && yv_pos == n) || (yv_cmd == SEEK_SET && yv_sought == n), "what is behind it is read again");
	}
	end();
}
