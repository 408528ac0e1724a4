/*
 * Runs YASL programs against the interpreter built from /repo's sources (bounded stand-ins; see DESIGN.md).
 *
 * usage: snip FILE: FILE holds records "<length>\n<bytes>". Each is compiled and executed in a fresh state. For each,
 * "R <index> <status> <leaked bytes> <length of output> <length of errors>\n<output><errors>\n" is written to
 * stdout. A crash, a sanitizer report or a hang ends the child process: the record gets
 * "C <index> <what>" and the rest goes on in a new child.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include "yasl.h"
#include "yasl_aux.h"
#include "yasl_state.h"

size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static struct sh { long idx; } *sh;

static size_t live(void) { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

static char buf[1 << 22];
static size_t buflen, errlen;

#ifdef SNIP_RUN
SNIP_RUN
#else
static int run(const char *src, size_t len, long *leak) {
	size_t before = live();
	struct YASL_State *S = YASL_newstate_bb(src, len);
	YASLX_decllibs(S);
	YASL_setprintout_tostr(S);
	YASL_setprinterr_tostr(S);
	int status = YASL_execute(S);
	buflen = errlen = 0;
	struct IO *ios[3] = { &S->vm.out, &S->vm.err, &S->compiler.parser.lex.err };
	for (int i = 0; i < 3; i++) {
		size_t n = ios[i]->len;
		if (n > sizeof buf - buflen) n = sizeof buf - buflen;
		if (n) memcpy(buf + buflen, ios[i]->string, n);
		buflen += n;
		if (i) errlen += n;
	}
	buflen -= errlen;
	YASL_delstate(S);
	*leak = (long)(live() - before);
	return status;
}
#endif

int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "rb");
	long secs = argc > 2 ? atol(argv[2]) : 10;
	fseek(f, 0, SEEK_END);
	long size = ftell(f);
	rewind(f);
	char *data = malloc(size + 1);
	if (fread(data, 1, size, f) != (size_t)size) return 3;
	data[size] = 0;
	fclose(f);
	long n = 0, cap = 1024;
	char **src = malloc(cap * sizeof *src);
	size_t *len = malloc(cap * sizeof *len);
	for (char *p = data; p < data + size; ) {
		char *e;
		size_t l = strtoul(p, &e, 10);
		p = e + 1;
		if (n == cap) { cap *= 2; src = realloc(src, cap * sizeof *src); len = realloc(len, cap * sizeof *len); }
		src[n] = p; len[n++] = l;
		p += l + 1;
	}
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	long next = 0, lost = 0;
	while (next < n) {
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			for (long i = next; i < n; i++) {
				sh->idx = i;
				alarm(secs);
				long leak;
				int st = run(src[i], len[i], &leak);
				printf("R %ld %d %ld %zu %zu\n", i, st, leak, buflen, errlen);
				fwrite(buf, 1, buflen + errlen, stdout);
				putchar('\n');
				fflush(stdout);
			}
			_exit(0);
		}
		int st;
		waitpid(pid, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
		fflush(stdout);
		printf("\nC %ld %s %d\n", sh->idx, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : WIFSIGNALED(st) ? "signal" : "exit",
		       WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		next = sh->idx + 1;
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) lost += 10;
		if (++lost > 60) break;         /* broken beyond doubt: the rest would take too long */
	}
	return 0;
}
