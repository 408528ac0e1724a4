/* Driver for the native mode of a harness: runs units on replayed or generated inputs, one child process per unit. */
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>

#define YV_NIN 48
int64_t yv_in[YV_NIN];
const char *yv_clause;
struct yv_unit { const char *name; void (*fn)(void); };
extern struct yv_unit yv_units[];

static struct shared { long done; long skipped; int64_t in[YV_NIN]; unsigned char used[YV_NIN]; char clause[200]; } *sh;
static jmp_buf yv_next;
static uint64_t rng;
static int replaying;

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }

static const double dvals[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, 1e16, -1e16, 1e300, 1e-300, 5e-324, 9007199254740992.0,
	9007199254740993.0, 9223372036854775807.0, -9223372036854775808.0, 18446744073709551616.0, 0.1, 1e22, 123456789.125};

static int64_t gen(void) {
	switch (rnd() % 10) {
	case 0: return (int64_t)(rnd() % 5) - 2;
	case 1: return (int64_t)(rnd() % 41) - 20;
	case 2: return rnd() % 2 ? INT64_MAX - (int64_t)(rnd() % 3) : INT64_MIN + (int64_t)(rnd() % 3);
	case 3: { int64_t v = (int64_t)((uint64_t)1 << (rnd() % 64)); v += (int64_t)(rnd() % 3) - 1; return rnd() % 2 ? v : (int64_t)(0 - (uint64_t)v); }
	case 4: { int64_t b; double d = dvals[rnd() % (sizeof dvals / sizeof *dvals)]; memcpy(&b, &d, 8); return b; }
	case 5: return rnd() % 2 ? 0x7ff8000000000000LL : rnd() % 2 ? 0x7ff0000000000000LL : (int64_t)0xfff0000000000000ULL;
	case 6: { double d = (double)((int64_t)rnd() >> (rnd() % 64)) / (double)(1 + rnd() % 8); int64_t b; memcpy(&b, &d, 8); return b; }
	case 7: return (int64_t)rnd() >> (rnd() % 64);
	case 8: return (int64_t)(rnd() % 256);
	default: return (int64_t)rnd();
	}
}

int64_t yv_get(int k) {
	sh->used[k] = 1;
	return sh->in[k] = yv_in[k];
}

void yv_skip(void) { sh->skipped++; longjmp(yv_next, 1); }

void yv_stop(void) { longjmp(yv_next, 1); }

static void report(const char *unit, const char *what) {
	printf("YV-FAIL unit=%s clause=%s inputs=", unit, what);
	for (int i = 0; i < YV_NIN; i++) if (sh->used[i]) printf("%d:%lld,", i, (long long)yv_in[i]);
	printf("\n");
	fflush(stdout);
}

static const char *curr;
void yv_fail(const char *what) {
	snprintf(sh->clause, sizeof sh->clause, "%s", what);
	_exit(41);
}

int main(int argc, char **argv) {
	/* usage: prog run SEED ITER SECONDS [unit...]   |   prog replay UNIT k:v,k:v,... */
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	replaying = !strcmp(argv[1], "replay");
	long iters = replaying ? 1 : atol(argv[3]);
	double secs = replaying ? 10 : atof(argv[4]);
	int bad = 0;
	for (struct yv_unit *u = yv_units; u->name; u++) {
		bool want = replaying ? !strcmp(u->name, argv[2]) : argc <= 5;
		for (int i = 5; !replaying && i < argc; i++) want |= !strcmp(u->name, argv[i]);
		if (!want) continue;
		memset(sh, 0, sizeof *sh);
		curr = u->name;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			alarm((unsigned)secs + 20);
			clock_t t0 = clock();
			rng = 88172645463325252ULL;
			if (!replaying) { rng += (uint64_t)atol(argv[2]) * 7919 * 2654435761u; for (const char *p = u->name; *p; p++) rng = rng * 31 + (unsigned char)*p; if (!rng) rng = 1; }
			for (volatile long n = 0; n < iters; n++) {
				memset(sh->used, 0, sizeof sh->used);
				if (replaying) {
					memset(yv_in, 0, sizeof yv_in);
					for (char *p = argv[3]; p && *p; ) { int k; long long v; if (sscanf(p, "%d:%lld", &k, &v) == 2 && k >= 0 && k < YV_NIN) yv_in[k] = v; p = strchr(p, ','); if (p) p++; }
				} else {
					for (int i = 0; i < YV_NIN; i++) yv_in[i] = gen();
				}
				if (!setjmp(yv_next)) u->fn();
				sh->done++;
				if ((n & 15) == 0 && (double)(clock() - t0) / CLOCKS_PER_SEC > secs) break;
			}
			_exit(0);
		}
		int st;
		waitpid(pid, &st, 0);
		memcpy(yv_in, sh->in, sizeof yv_in);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			printf("YV-OK unit=%s ran=%ld skipped=%ld\n", u->name, sh->done, sh->skipped);
		} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
			bad = 1;
			report(u->name, "termination:no-result-in-time");
		} else {
			bad = 1;
			report(u->name, sh->clause[0] ? sh->clause : "memory-safety:crash");
		}
	}
	return bad;
}
