from common import *
import conts
from c04 import hash_tu

_S = "data-structures/YASL_Set.c: "
PROBE = ("__CPROVER_loop_invariant(1 <= i && i <= set->size + 1 && i - 1 <= yv_J && index < set->size)"
         " __CPROVER_loop_invariant(i - 1 != yv_J || yv_J == set->size || index == yv_S)"
         " __CPROVER_loop_invariant(i - 1 >= yv_J || (yv_t->items[index].type != Y_UNDEF && !(yv_t->items[index].type == yv_key.type && yv_t->items[index].value.ival == yv_key.value.ival)))"
         " __CPROVER_loop_invariant(%s.type == yv_t->items[index].type && %s.value.ival == yv_t->items[index].value.ival)")
ANNOT = [
    ("YASL_Set_search", 0, "__CPROVER_assigns(index, i, item) " + PROBE % ("item", "item")),
    ("YASL_Set_rm", 0, "__CPROVER_assigns(index, i, item) " + PROBE % ("item", "item")),
    ("YASL_Set_insert", 0, "__CPROVER_assigns(index, i, curr_item, tombstone) " + PROBE % ("curr_item", "curr_item") +
     " __CPROVER_loop_invariant(i - 1 != yv_T || yv_T >= yv_J || index == yv_TS)"
     " __CPROVER_loop_invariant(i - 1 >= yv_J || i - 1 >= yv_T || yv_t->items[index].type != Y_END)"
     " __CPROVER_loop_invariant(tombstone == (i - 1 > yv_T && yv_T < yv_J ? yv_TS : set->size))"),
]


def for_set(i, seen):
    """A loop over the slots of an operand that has put into the new set what `seen` says."""
    return "__CPROVER_assigns(%s, yv_in_new, yv_new.count) __CPROVER_loop_invariant(%s) __CPROVER_loop_invariant(%s)" % (i[0], i[1], seen)


def member(side, also, got):
    """Loop over the slots of `side`: its item in the slot of w, if it is a member, went into the new set where `also` held."""
    L = dict(left=("yv_in_left", "yv_l"), right=("yv_in_right", "yv_r"))[side]
    return ("__CPROVER_loop_invariant(i <= %s->size) " % side +
            "__CPROVER_loop_invariant(!yv_in_new || (%s) || (%s && %s)) " % (got, L[0], also) +
            "__CPROVER_loop_invariant(!(%s) || yv_in_new) " % got +
            "__CPROVER_loop_invariant(!(%s && %s && %s < i) || yv_in_new)" % (L[0], also, L[1]))


def loops(fn, *specs):
    res = []
    for k, (side, also, got) in enumerate(specs):
        item = "item" + side[0]
        res.append((fn, k, "__CPROVER_assigns(i, %s, yv_in_new, yv_new.count) " % item + member(side, also, got)))
    return res


ALG = (loops("YASL_Set_union", ("left", "1", "0"), ("right", "1", "yv_in_left")) +
       loops("YASL_Set_intersection", ("left", "yv_in_right", "0")) +
       loops("YASL_Set_difference", ("left", "!yv_in_right", "0")) +
       loops("YASL_Set_symmetric_difference", ("left", "!yv_in_right", "0"), ("right", "!yv_in_left", "yv_in_left && !yv_in_right")))
GONE = "__CPROVER_assigns(i, item, yv_dels) __CPROVER_loop_invariant(i <= set->size && yv_dels == (yv_g < i && yv_live ? 1 : 0))"


def check(run):
    tu = TU("set.c", links=["interpreter/YASL_Object.c"], native=False, annot=ANNOT)
    rep = ["get_hash", "isequal_typed", "inc_ref", "dec_ref"]
    for n in "present absent".split():
        tu.unit("search_" + n, contract="YASL_Set_search", replace=rep, about=_S + "YASL_Set_search", native=False)
        for z in ("", "_resize"):
            tu.unit("rm_" + n + z, contract="YASL_Set_rm", replace=rep + ["set_resize_down"], about=_S + "YASL_Set_rm", native=False)
            tu.unit("insert_" + n + z, contract="YASL_Set_insert", replace=rep + ["set_resize_up"], about=_S + "YASL_Set_insert", native=False)
    tu2 = TU("set.c", links=["interpreter/YASL_Object.c", "util/prime.c"], native=False, tag="n")
    tu2.unit("new", about=_S + "YASL_Set_new", native=False, unwind=50)
    tu.unit("insert_bad", contract="YASL_Set_insert", replace=rep + ["set_resize_up"], about=_S + "YASL_Set_insert", native=False)
    tu.unit("rm_bad", contract="YASL_Set_rm", replace=rep + ["set_resize_down"], about=_S + "YASL_Set_rm", native=False)
    tu4 = TU("set_all.c", links=["interpreter/YASL_Object.c"], native=False, defs=["YV_RESIZE"], annot=ALG + [
        ("set_resize", 0, "__CPROVER_assigns(i, item, yv_in_new, yv_new.count) __CPROVER_loop_invariant(i <= set->size && (!yv_in_new || yv_in_left) && (!(yv_in_left && yv_l < i) || yv_in_new))")])
    arep = ["YASL_Set_insert", "obj_isundef"]
    for n in "union intersection difference symmetric_difference".split():
        tu4.unit(n, contract="YASL_Set_" + n, replace=arep + ["YASL_Set_new"] + (["YASL_Set_search"] if n != "union" else []), about=_S + "YASL_Set_" + n, native=False)
    tu4.unit("resize", contract="set_resize", replace=arep + ["set_new_sized", "YASL_Set_del"], about=_S + "set_resize", native=False)
    tu5 = TU("set_all.c", links=["interpreter/YASL_Object.c", "util/prime.c"], native=False, tag="n", annot=[("YASL_Set_del", 0, GONE), ("YASL_Set_clear", 0, GONE)])
    tu5.unit("del", contract="YASL_Set_del", replace=["dec_ref"], about=_S + "YASL_Set_del", native=False)
    tu5.unit("clear", contract="YASL_Set_clear", replace=["dec_ref", "next_prime"], about=_S + "YASL_Set_clear", native=False)
    s = Snippets(run, "sets")
    r = rng(run)
    conts.set_programs(s, r, N(60, 1500))
    conts.alias_programs(s, r, N(60, 1000), "set")
    s.execute()
    units = run_harnesses(run, [tu, tu2, tu4, tu5, hash_tu()])
    return finish(run, units, "proof",
                  "Membership, insertion, removal, resizing, deletion and the four operations of set algebra are proved for sets of every size and any contents, "
                  "by following an arbitrary value; the operators and methods of programs are compared with Python's sets.",
                  [A_MALLOC, A_PROBE, "equality and hashing of members agree: as for tables (units eq_*, hash_*)",
                   "that no slot holds a value that is no member is given slot by slot (contract that replaces obj_isundef)"], TRUSTED)
