from common import *
import conts

def same(a, b):
    return "((%s).type == (%s).type && (%s).value.ival == (%s).value.ival)" % (a, b, a, b)


K, M = "ls->items[yv_k]", "ls->items[ls->count - 1 - yv_k]"
DONE = "(yv_k < i || yv_k > ls->count - 1 - i)"
REV = ("YASL_reverse", 0, "__CPROVER_assigns(i, __CPROVER_object_whole(ls->items)) __CPROVER_loop_invariant(i <= ls->count / 2) "
       "__CPROVER_loop_invariant(%s ? %s && %s : %s && %s)" %
       (DONE, same(K, "yv_at_m"), same(M, "yv_at_k"), same(K, "yv_at_k"), same(M, "yv_at_m")))


def check(run):
    tu = TU("list.c", links=["interpreter/YASL_Object.c", "interpreter/refcount.c", "data-structures/YASL_String.c", "data-structures/YASL_Table.c", "interpreter/userdata.c"],
            native_links=native_sources(exclude=["data-structures/YASL_List.c"]), annot=[REV])
    L = "data-structures/YASL_List.c: "
    for u in ("append_room", "append_room_str"):
        tu.unit(u, contract="YASL_List_append", about=L + "YASL_List_append", solvers=("z3q", "minisat"), timeout=150)
    for u in ("append_full", "append_full_str"):
        tu.unit(u, contract="YASL_List_append", about=L + "YASL_List_append", solvers=("z3q", "minisat"), timeout=150)
    for u in ("insert_room", "insert_room_str", "insert_full"):
        tu.unit(u, contract="YASL_List_insert", replace=["memmove"], about=L + "YASL_List_insert", solvers=("z3q", "minisat"), timeout=150)
    tu.unit("reverse", contract="YASL_reverse", about=L + "YASL_reverse", unwind=3)
    tu.unit("length", contract="YASL_List_length", about=L + "YASL_List_length")
    tu.unit("new", contract="YASL_List_new_sized", about=L + "YASL_List_new_sized")
    s = Snippets(run, "lists")
    r = rng(run)
    conts.list_programs(s, r, N(60, 1500))
    conts.alias_programs(s, r, N(60, 1000), "list")
    s.execute()
    units = run_harnesses(run, [tu] + list_tus("new"))
    return finish(run, units, "proof",
                  "Appending, insertion, reversal, creation and the instruction that builds a list from the stack are proved for lists of every length, by an arbitrary "
                  "witness position; the remaining methods (copy, extend, pop, count, concatenation, search, clear, join) are executed against Python's lists.",
                  [A_MALLOC, A_MEMMOVE, A_MACH, "lists shorter than 2^31 elements"], TRUSTED)
