/* C10: vm_getcurrline of interpreter/VM.c, for tables with any number of lines, over an abstract table of numbers. */
#include "yvh.h"
#include "interpreter/VM.h"
#include "util/varint.h"
static struct VM yv_vm;
static unsigned char *yv_code;
static size_t yv_off, yv_j;             /* ghost: where the loop is: offset and number of the entry */
static size_t yv_m, yv_dm, yv_k, yv_dk; /* ghost: the numbers of two entries, and what they hold */
static size_t yv_size_;
size_t vint_decode(const unsigned char *const buff)
	YV_REQUIRES(buff == yv_code + yv_off && yv_j <= yv_m)
	YV_ASSIGNS()
	YV_ENSURES((yv_j != yv_m || __CPROVER_return_value == yv_dm) && (yv_j != yv_k || __CPROVER_return_value == yv_dk));
const unsigned char *vint_next(const unsigned char *buff)
	YV_REQUIRES(buff == yv_code + yv_off && yv_j < yv_m)
	YV_ASSIGNS(yv_off, yv_j)
	YV_ENSURES(__CPROVER_return_value == yv_code + yv_off && yv_off > __CPROVER_old(yv_off) && yv_off < yv_size_ && yv_j == __CPROVER_old(yv_j) + 1);
static size_t vm_getcurrline(struct VM *vm)
	YV_REQUIRES(vm == &yv_vm && yv_j == 0)
	YV_ASSIGNS(yv_off, yv_j)
	YV_ENSURES(__CPROVER_return_value <= yv_m);

#include "interpreter/VM.c"

#ifndef YV_NATIVE
void u_line(void) {
	size_t off = yv_size(0, 0), start = yv_size(1, 0), lines = yv_size(2, 0);
	yv_size_ = yv_size(3, 0);
	yv_assume(yv_size_ <= (1UL << 40) && start >= 16 && start + off < yv_size_ && lines < yv_size_);
	yv_code = malloc(yv_size_);
	((int64_t *)yv_code)[0] = (int64_t)start; ((int64_t *)yv_code)[1] = (int64_t)lines;
	yv_vm.code = yv_code; yv_vm.pc = yv_code + start + off;
	yv_off = lines; yv_j = 0;
	yv_m = yv_size(4, 0); yv_dm = (size_t)yv_get(5); yv_k = yv_size(6, 0); yv_dk = (size_t)yv_get(7);
	yv_assume(yv_dm >= off);                        /* the last entry is the length of the code */
	yv_assume(yv_k != yv_m || yv_dk == yv_dm);
	size_t r = vm_getcurrline(&yv_vm);
	yv_assert(r <= yv_m, "a line of the table");
	yv_assert(!(yv_k < r) || yv_dk < off, "the code of each line before starts before the instruction");
	yv_assert(yv_k != r || yv_dk >= off, "the code of the next line does not");
	yv_reach();
}
#endif
