from common import *
import conts

_T = "data-structures/YASL_Table.c: "


def probe_inv(cur, key, empty, size):
    """Invariant of the probing loops: the slots probed so far are those before J (and S at last)."""
    return ("__CPROVER_loop_invariant(1 <= i && i <= %s + 1 && i - 1 <= yv_J && index < %s)" % (size, size) +
            " __CPROVER_loop_invariant(i - 1 != yv_J || yv_J == %s || index == yv_S)" % size +
            " __CPROVER_loop_invariant(i - 1 >= yv_J || (yv_t->items[index].key.type != Y_UNDEF && !(yv_t->items[index].key.type == yv_key.type && yv_t->items[index].key.value.ival == yv_key.value.ival)))" +
            " __CPROVER_loop_invariant(%s.key.type == yv_t->items[index].key.type && %s.key.value.ival == yv_t->items[index].key.value.ival)" % (cur, cur))


def val_inv(cur):
    return " __CPROVER_loop_invariant(%s.value.type == yv_t->items[index].value.type && %s.value.value.ival == yv_t->items[index].value.value.ival)" % (cur, cur)


ANNOT = [
    ("YASL_Table_search", 0, "__CPROVER_assigns(index, i, item) " + probe_inv("item", "key", "", "table->size") + val_inv("item")),
    ("YASL_Table_rm", 0, "__CPROVER_assigns(index, i, item) " + probe_inv("item", "key", "", "table->size") + val_inv("item")),
    ("YASL_Table_getindex", 0, "__CPROVER_assigns(index, i, curr_item, tombstone) " + probe_inv("curr_item", "key", "", "table->size") +
     " __CPROVER_loop_invariant(i - 1 != yv_T || yv_T >= yv_J || index == yv_TS)"
     " __CPROVER_loop_invariant(i - 1 >= yv_J || i - 1 >= yv_T || yv_t->items[index].key.type != Y_END)"
     " __CPROVER_loop_invariant(tombstone == (i - 1 > yv_T && yv_T < yv_J ? yv_TS : table->size))"),
]


def hash_tu():
    tu = TU("hash.c", links=["interpreter/YASL_Object.c", "data-structures/YASL_String.c", "data-structures/YASL_Table.c", "util/prime.c"],
            native_links=native_sources(exclude=["util/hash_function.c"]))
    for k in "i fa f0 b p".split():
        tu.unit("hash_" + k, about="util/hash_function.c: get_hash", solvers=("z3",), timeout=250)
    tu.unit("hash_f", prove=False, about="util/hash_function.c: get_hash of floats, attempts after the first")
    for k in range(4):
        tu.unit("hash_s%d" % k, about="util/hash_function.c: get_hash on strings", bounded="strings of %d bytes" % k, unwind=9)
    for k in "ii if ib is fi ff bb bi ss si pp pi".split():
        tu.unit("eq_" + k, about=_T + "isequal_typed", unwind=9, bounded="strings of up to 2 bytes (5 natively)" if k == "ss" else None)
    tu.unit("cover", prove=False, about="util/hash_function.c: get_hash, util/prime.c: next_prime")
    return tu


def check(run):
    tu = TU("table.c", links=["interpreter/YASL_Object.c"], native=False, annot=ANNOT)
    rep = ["get_hash", "isequal_typed", "inc_ref", "dec_ref"]
    for n in "present absent".split():
        tu.unit("search_" + n, contract="YASL_Table_search", replace=rep, about=_T + "YASL_Table_search", native=False)
        tu.unit("getindex_" + n, contract="YASL_Table_getindex", replace=rep, about=_T + "YASL_Table_getindex", native=False)
        for z in ("", "_resize"):
            tu.unit("rm_" + n + z, contract="YASL_Table_rm", replace=rep + ["table_resize_down"], about=_T + "YASL_Table_rm", native=False)
            tu.unit("insert_" + n + z, contract="YASL_Table_insert_fast", replace=rep + ["table_resize_up", "YASL_Table_getindex"], about=_T + "YASL_Table_insert_fast", native=False)
    tu2 = TU("table.c", links=["interpreter/YASL_Object.c"], native=False, tag="n")
    tu2.unit("insert_bad", contract="YASL_Table_insert", replace=rep + ["YASL_Table_insert_fast"], about=_T + "YASL_Table_insert", native=False)
    tu3 = TU("table.c", links=["interpreter/YASL_Object.c", "util/prime.c"], native=False, tag="n")
    tu3.unit("tombstone", about=_T + "TOMBSTONE", native=False)
    tu3.unit("new", about=_T + "YASL_Table_new", native=False, unwind=50)
    live = "(yv_items[yv_g].key.type != Y_UNDEF && yv_items[yv_g].key.type != Y_END)"
    tu4 = TU("table_all.c", links=["interpreter/YASL_Object.c"], native=False, defs=["YV_RESIZE"], annot=[
        ("table_resize", 0, "__CPROVER_assigns(i, item, yv_hits, yv_new.count) __CPROVER_loop_invariant(i <= table->size && (!(yv_g < i && yv_live) || yv_hits == 1))")])
    tu4.unit("resize", contract="table_resize", replace=["YASL_Table_insert_fast", "table_new_sized", "YASL_Table_del"], about=_T + "table_resize", native=False)
    tu5 = TU("table_all.c", links=["interpreter/YASL_Object.c"], native=False, tag="n", annot=[
        ("YASL_Table_del", 0, "__CPROVER_assigns(i, item, yv_dels) __CPROVER_loop_invariant(i <= table->size && yv_dels == (yv_g < i && yv_live ? 1 : 0))")])
    tu5.unit("del", contract="YASL_Table_del", replace=["del_item"], about=_T + "YASL_Table_del", native=False)
    s = Snippets(run, "tables")
    r = rng(run)
    conts.table_programs(s, r, N(60, 1500))
    conts.alias_programs(s, r, N(60, 1000), "table")
    s.execute()
    units = run_harnesses(run, [tu, tu2, tu3, tu4, tu5, hash_tu()])
    return finish(run, units, "proof",
                  "The probing core (search, insertion, removal, finding a slot), resizing and deletion are proved for tables of every size and any contents "
                  "against contracts over the probe sequence of a key: a key is found exactly where it was put, insertion and removal change that slot and the "
                  "counters only, resizing re-inserts every live entry exactly once. Programs compare histories of operations with a dictionary.",
                  [A_MALLOC, A_PROBE, "equality of keys and hashing agree (units eq_*, hash_*): proved for ints, bools, userptrs, the first probe of floats, strings up to 3 bytes; "
                   "later probes of floats are executed only", "the probe sequence visits every slot when the size is a prime (executed for the sizes up to 1020; the table contracts assume that it meets an empty slot)",
                   "next_prime is executed, not proved"], TRUSTED)
