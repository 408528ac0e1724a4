from common import *
import conts, lang, refs, c05

# CBMC does not follow a pointer out of a union within one expression: it is read from a copy of the value
SUB = [(r"\b(\w+)->value\.(uval|cval|lval)->", r"yv_ptr_\2(*\1)->")]



def check(run):
    R = "interpreter/refcount.c: "
    a = TU("refcount.c", sub=SUB, links=[], native_links=["interpreter/YASL_Object.c", "data-structures/YASL_List.c", "data-structures/YASL_Table.c", "interpreter/userdata.c"], native=False)
    for n in "undef int float bool fn end ptr s0 s1 list table ud".split():
        a.unit("inc_" + n, contract="inc_ref", about=R + "inc_ref", native=False)
        a.unit("dec_" + n, contract="dec_ref", about=R + "dec_ref", native=False)
    b = TU("refcount.c", sub=SUB, links=[], native_links=[], tag="f")
    for n in "undef int float bool fn end ptr str list table ud cfn closure strw listw tablew".split():
        b.unit("full_inc_" + n, about=R + "inc_ref")
        b.unit("full_dec_" + n, about=R + "dec_ref")
    c = TU("release.c", links=["interpreter/YASL_Object.c"], native=False, defs=["YV_LIST"], annot=[
        ("YASL_List_del_data", 0, "__CPROVER_assigns(i, yv_hits) __CPROVER_loop_invariant(i <= ((struct YASL_List *)ls)->count && yv_hits == ((size_t)(yv_at - yv_lo) < i ? 1 : 0))")])
    c.unit("list_del", contract="YASL_List_del_data", about="data-structures/YASL_List.c: YASL_List_del_data (lists of any length)", native=False)
    cn = TU("release.c", links=[], native_links=native_sources(exclude=["data-structures/YASL_List.c", "interpreter/refcount.c"]), defs=["YV_LIST"], tag="n")
    cn.unit("list_del", prove=False, about="data-structures/YASL_List.c: YASL_List_del_data, executed")
    d = TU("release.c", links=[], native_links=[])
    for n in "00 01 10 11".split():
        d.unit("ud_del_" + n, about="interpreter/userdata.c: ud_del_data, ud_del_rc")
    for n in "nn n0 0n 01 00".split():
        d.unit("setmt_" + n, about="interpreter/userdata.c: ud_setmt")
    d.unit("ud_new", about="interpreter/userdata.c: ud_new")
    d.unit("ud_new_mt", about="interpreter/userdata.c: ud_new")
    for n in "0 1 2 3 2s 3s".split():
        d.unit("closure_" + n, about="interpreter/closure.c: closure_del_data, closure_del_rc", bounded="closures with up to three variables")
    d.unit("upval_set", about="interpreter/upvalue.c: upval_set")
    e = TU("release_str.c", links=[], native_links=native_sources(exclude=["data-structures/YASL_String.c"]))
    for n in "heap const del_heap del_const new new_heap".split():
        e.unit("str_" + n, about="data-structures/YASL_String.c: str_del_data, str_del_rc, str_del, constructors", unwind=4)
    # the witness: at most one of yv_at, yv_b and yv_p[4] is set
    f = TU("cleanup.c", links=["interpreter/YASL_Object.c"], native=False, annot=[
        ("vm_cleanup", 0, "__CPROVER_assigns(vm->loopframe_num, yv_hits, yv_bad) __CPROVER_loop_invariant(vm->loopframe_num >= -1 && vm->loopframe_num <= yv_loops && yv_bad == 0 &&"
         " yv_hits == (yv_w == 1 && (int)yv_wk <= yv_loops && (int)yv_wk > vm->loopframe_num ? 1 : 0))"),
        ("vm_cleanup", 1, "__CPROVER_assigns(i, yv_hits, yv_bad) __CPROVER_loop_invariant(i <= 1024 && yv_bad == 0 &&"
         " yv_hits == (yv_w == 1 && (int)yv_wk <= yv_loops || yv_w == 0 && yv_wk < i ? 1 : 0))"),
        ("vm_cleanup", 2, "__CPROVER_assigns(i, yv_hits, yv_bad) __CPROVER_loop_invariant(i >= 0 && i <= vm->num_constants && yv_bad == 0 &&"
         " yv_hits == (yv_w == 1 && (int)yv_wk <= yv_loops || yv_w == 0 || yv_w == 2 && (int64_t)yv_wk < i ? 1 : 0))"),
        ("vm_cleanup", 3, "__CPROVER_assigns(i, __CPROVER_object_whole(yv_freed)) __CPROVER_loop_invariant(i <= vm->headers_size && yv_freed[0] >= 1 && yv_freed[1] >= 1 && yv_freed[0] < 1000 + (int)i && yv_freed[1] < 1000 + (int)i && yv_freed[2] >= 0 && yv_freed[2] <= (int)i && yv_freed[3] >= 0 && yv_freed[3] <= (int)i && yv_freed[4] >= 0 && yv_freed[4] <= (int)i + 8 &&  (yv_freed[4] >= 1 || !(yv_w == 3 && yv_wk < i)))"),
    ])
    for n in "stack loops consts".split():
        f.unit("cleanup_" + n, contract="vm_cleanup", replace=["vm_close_all"], about="interpreter/VM.c: vm_cleanup", native=False, solvers=("minisat", "cadical"))
    g = TU("table_all.c", links=["interpreter/YASL_Object.c"], native=False, tag="n", annot=[
        ("YASL_Table_del", 0, "__CPROVER_assigns(i, item, yv_dels) __CPROVER_loop_invariant(i <= table->size && yv_dels == (yv_g < i && yv_live ? 1 : 0))")])
    g.unit("del", contract="YASL_Table_del", replace=["del_item"], about="data-structures/YASL_Table.c: YASL_Table_del (tables of any size)", native=False)
    h = TU("set_all.c", links=["interpreter/YASL_Object.c", "util/prime.c"], native=False, tag="n", annot=[("YASL_Set_del", 0, c05.GONE), ("YASL_Set_clear", 0, c05.GONE)])
    h.unit("del", contract="YASL_Set_del", replace=["dec_ref"], about="data-structures/YASL_Set.c: YASL_Set_del (sets of any size)", native=False)
    s = Snippets(run, "references")
    r = rng(run)
    for kind in ("list", "table", "set"):
        conts.alias_programs(s, r, N(40, 800), kind, leak=True)
    lang.lang_programs(s, r, N(100, 2000), {"closure": 0, "rec": 0, "call": 2}, "everything is released at the end", 30, leak=True)
    refs.drop_programs(s, r, N(150, 4000))
    refs.error_programs(s, r, N(600, 12000))
    s.execute()
    units = run_harnesses(run, [a, b, c, cn, d, e, f, g, h] + misc_tus("stack", "locals", "iter", "slice"))
    return finish(run, units, "proof",
                  "Counting references (inc_ref, dec_ref, every kind of value and every count) is proved, with the contents and the counters deleted exactly with the last reference; what a list, table, "
                  "set, userdata, closure, string or machine holds is given up exactly once when it goes: for lists, tables, sets and the machine's stack, loops and constants of any length "
                  "by an arbitrary witness position; instructions that move values keep the counts right. Random programs, half of them ended by an error at a random place, run under "
                  "AddressSanitizer: nothing is used after it is freed, nothing is freed twice, and no byte stays allocated after the state is deleted.",
                  [A_MALLOC, A_STATE, A_MACH, "values in cycles of references are never released (reference counting)"], TRUSTED)
