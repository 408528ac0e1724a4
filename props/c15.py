from common import *
from snip import *
import api
K = "ifbusLTDPc"
REFS = ["vm_print_err", "vvm_print_err", "inc_ref", "dec_ref"]
# a macro applied to a copy of the value: CBMC does not follow a pointer out of a union within one expression
UNION = [(r"(int64_t YASL_peekvargscount\(struct YASL_State \*\w+\) *\{)", r"static struct CFunction *yv_cv(struct YASL_Object v) { return v.value.cval; }\n\1"),
         (r"(\(\(?vm\)?->stack\[vm->fp\]\))\.value\.cval->", r"yv_cv\1->"),
         (r"ud_setmt\(\(\(&S->vm\)->stack\[\(&S->vm\)->sp\]\)\.value\.uval, ", r"ud_setmt(yv_getud((&S->vm)->stack[(&S->vm)->sp]), ")]


def api_tu():
    m = TU("api.c", sub=UNION, links=VM_LINKS + ["yasl_aux.c", "interpreter/list_methods.c"], native_links=native_sources(exclude=["interpreter/VM.c", "yasl.c"]))
    Y = "yasl.c: YASL_"

    def u(name, fn, rep=REFS):
        m.unit(name, contract="YASL_" + fn, replace=rep, about=Y + fn)
    for t in "undef bool float int str list table userptr".split():
        for k in K:
            u("is%s_%s" % (t, k), "is" + t)
            u("isn%s_%s" % (t, k), "isn" + t)
    for k in K:
        u("isuserdata_same_" + k, "isuserdata")
        u("isnuserdata_same_" + k, "isnuserdata")
        for t in "bool int float type".split():
            u("peek%s_%s" % (t, k), "peek" + t)
            u("peekn%s_%s" % (t, k), "peekn" + t)
            if t != "type":
                u("pop%s_%s" % (t, k), "pop" + t)
        if k not in "LT":
            u("peeknuserdata_" + k, "peeknuserdata")
        u("pop_" + k, "pop")
    u("isuserdata_other_D", "isuserdata")
    u("isnuserdata_other_D", "isnuserdata")
    u("popuserdata_D", "popuserdata")
    u("popuserptr_P", "popuserptr")
    u("vargs", "peekvargscount")
    for k in "isLD":
        u("pushint_" + k, "pushint")
        u("pushundef_" + k, "pushundef")
    for t in "float bool userptr".split():
        u("push" + t, "push" + t)
    for k in K[:-1]:
        u("dup_" + k, "duptop")
    for a in "LT Lu DT Du Tu Di iT su".split():
        u("setmt_" + a, "setmt")
        u("setmt_%s_had" % a, "setmt")
    for k in "LiT":
        u("listget_" + k, "listget")
    # with contracts of the containers in place of the containers: no native harness, api.py drives the whole library
    def p(name, fn, *rep):
        m.unit(name, contract="YASL_" + fn, replace=REFS + list(rep), about=Y + fn, native=False, bounded="tables of 6 slots" if fn == "tablenext" else None)
    for a in "iL fL bL uL sL PL iT ii sD".split():
        p("listpush_" + a, "listpush", "YASL_List_append")
    for a in "iiT siT uiT fbT bsT PfT usT iuT iiL sfi".split():
        p("tableset_" + a, "tableset", "YASL_Table_insert", "YASL_Table_rm")
    for k in "ifsT":
        p("setglobal_" + k, "setglobal", "YASL_Table_insert_fast", "scope_contains", "scope_get")
        p("registermt_" + k, "registermt", "YASL_Table_insert_fast")
        p("loadglobal_" + k, "loadglobal", "YASL_Table_search")
        p("loadmt_" + k, "loadmt", "YASL_Table_search")
    p("loadglobal_none", "loadglobal", "YASL_Table_search")
    p("loadmt_none", "loadmt", "YASL_Table_search")
    for a in "uT iT sT ui iL".split():
        p("tablenext_" + a, "tablenext", "YASL_Table_getindex")
    return m


def check(run):
    s = Snippets(run, "api", "api")
    api.api_histories(s, rng(run), N(6000, 60000))
    s.execute()
    units = run_harnesses(run, [api_tu()])
    return finish(run, units, "proof",
                  "The functions of the C API that look at values, push, pop, duplicate, read and write lists, tables, globals and metatables are proved against contracts for every value of every type at every "
                  "position asked for: what they answer, the effect on the stack, that every other slot stays as it was, and what is referenced and released. Random histories of calls (values, containers, "
                  "userdata with destructors, calls of functions in C and in YASL, globals, resets, programs that succeed and that fail between them) are executed with address sanitizer and compared with a model.",
                  ["the containers are replaced by contracts here (properties C04 and C05), as are the scopes of the compiler (property C07)",
                   "running programs, YASL_functioncall, resetting and deleting a state are executed in histories only (bounded)", A_PRINT, A_LONGJMP, A_MALLOC, A_MACH, A_TARGET], TRUSTED)
