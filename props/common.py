"""Shared pieces of the property checks."""
from yv import *
from snip import *

VM_LINKS = ["interpreter/YASL_Object.c", "interpreter/refcount.c", "data-structures/YASL_String.c", "data-structures/YASL_Table.c", "data-structures/YASL_List.c",
            "interpreter/userdata.c", "interpreter/closure.c", "interpreter/upvalue.c"]


def vm_tu(src, **kw):
    return TU(src, links=VM_LINKS, native_links=native_sources(exclude=["interpreter/VM.c"]), **kw)


def N(quick, thorough):
    return thorough if TIER == "thorough" else quick


TRUSTED = ["goto-cc/goto-instrument/cbmc 6.11.0 (front end, contract instrumentation, SMT encoding)", "z3-new and MiniSat",
           "gcc -E of the harness and of /repo's source (the header functions marked `inline` are made `static inline`, nothing else is changed)"]
A_MALLOC = "malloc does not return NULL (the code under test does not handle it)"
A_LONGJMP = "longjmp is replaced by a stub that checks the thrown error against the specification and ends the path"
A_PRINT = "the printing of error messages (vm_print_err) is replaced by a contract without effects"
A_POW = "pow() of libm is an uninterpreted function: the result is pow of the two operands, not what pow is"
A_MACH = "machine integers are 64-bit two's complement as CBMC models them; no arithmetic is treated as mathematical"
A_TARGET = "LP64 data model, IEEE-754 doubles with round-to-nearest"

# The arrays of frames in struct VM are declared with fewer elements for units in which the frames have to be constants (CBMC keeps arrays of up
# to 64 elements element by element). The limits in the code stay as they are; an access above the smaller size would fail the bounds check.
SMALL_FRAMES = [(r"\bframes\[1000\]", "frames[8]"), (r"\bloopframes\[256\]", "loopframes[8]")]
A_FRAMES = "in the units of returns and loops, struct VM has room for 8 frames and 8 loops (the frames in use are the first ones)"

# The units of the instructions that move values (contracts/vm_misc.c), by what they are about.
_KS = ["0", "1", "2", "3", "s0", "s1", "s2", "s3"]
_CALLS = "0_0 0_2 1_0 1_1 2_1 2_3 3_0 3_3".split()
_RETS = "1_1_1 2_1_1 3_1_1 3_2_1 2_2_3 1_1_0 3_3_m 3_2_m 1_1_3".split()
MISC = {
    "const": "bconst_t bconst_f nconst end lit_i lit_f lit_s lit8_i lit8_s fconst".split(),
    "stack": "dup_i dup_s swap_i swap_s pop_i pop_s decsp incsp".split(),
    "locals": ["%s_%s" % (f, k) for f in "lload lstore del_fp moveup".split() for k in _KS],
    "call": ["%s_%s" % (c, k) for c in ("call", "calls") for k in _CALLS] + ["init_call", "init_call_notfn"],
    "ret": ["%s_%s" % (c, k) for c in ("ret", "rets") for k in _RETS],
    "for": "initfor_i initfor_s initfor_full endfor_0 endfor_2".split(),
    "iter": "iter_str iter_strheap iter_bad".split(),
    "slice": "slice_str_ii slice_str_iu slice_str_ui slice_str_uu slice_str_fi slice_str_ib slice_heap_ii len_str".split(),
    "full": "full_bconst full_nconst full_end full_lit full_lit8 full_lload full_fconst full_frames".split(),
    "end": "halt badop_0 badop_77 badop_fe".split(),
}
_BND = {"iter_strheap": "heap strings of up to 15 bytes", "slice_heap_ii": "heap strings of up to 5 bytes"}


def misc_tus(*groups):
    """The units of these groups, as TUs to be passed to run_harnesses."""
    a, b = vm_tu("vm_misc.c", tag="n"), vm_tu("vm_misc.c", sub=SMALL_FRAMES, tag="s")
    for g in groups:
        for n in MISC[g]:
            small = n.startswith(("ret", "endfor", "full_")) and n != "full_frames"
            (b if small else a).unit(n, contract="vm_executenext", replace=["vm_print_err"] + (["inc_ref", "dec_ref"] if small else []),
                                     about="interpreter/VM.c: vm_executenext (" + n + ")", bounded=_BND.get(n),
                                     native=n != "full_frames")  # the traceback would follow 1000 frames that the harness leaves empty
    return [t for t in (a, b) if t.units]


# Loop contract of vm_SLICE_list, over the ghost log of YASL_List_append (contracts/vm_list.c)
_SLICE_INV = ("vm_SLICE_list", 0, "__CPROVER_assigns(i, yv_cnt, yv_kth, yv_to) __CPROVER_loop_invariant(start <= i && (start >= end ? i == start : i <= end) && yv_cnt == i - start)"
              " __CPROVER_loop_invariant(yv_cnt == 0 || yv_to == new_ls->data)"
              " __CPROVER_loop_invariant(!(yv_k < yv_cnt) || (yv_kth.type == list->items[start + yv_k].type && yv_kth.value.ival == list->items[start + yv_k].value.ival))")


def list_tus(*groups):
    a, b = vm_tu("vm_list.c", sub=SMALL_FRAMES, annot=[_SLICE_INV], tag="a"), vm_tu("vm_list.c", sub=SMALL_FRAMES)
    rep = ["vm_print_err", "dec_ref", "YASL_List_append"]
    if "slice" in groups:
        for n in "ii iu ui uu if bi".split():
            a.unit("slice_" + n, contract="vm_executenext", replace=rep, about="interpreter/VM.c: vm_executenext, vm_SLICE_list (lists of any length)", timeout=200)
    if "iter" in groups:
        a.unit("iter", contract="vm_executenext", replace=rep, about="interpreter/VM.c: vm_executenext, vm_ITER_1 (lists of any length)")
    if "new" in groups:
        for n in "0138":
            b.unit("newlist_" + n, contract="vm_executenext", replace=rep, about="interpreter/VM.c: vm_executenext, list literals")
    return [t for t in (a, b) if t.units]


A_STATE = "the state around an instruction: one or two frames in the first slots of the stack; the instructions have no other dependence on the depth"
A_MEM = "memmove and memcmp of libc are assumed by contract (the instance of their specification for an arbitrary position)"
A_MEMMOVE = "memmove and realloc of libc: memmove is assumed by contract (the instance of its specification for an arbitrary position), realloc is CBMC's model"
A_PROBE = ("the invariant of tables for one key (no slot of its probe sequence before its own is unused or holds it) is assumed as precondition of each operation and its "
           "preservation is proved for the slot concerned; instances of its universally quantified part come from the contract that replaces get_hash")
