from common import *
import matches

RC = ["inc_ref", "dec_ref", "vm_print_err"]


def check(run):
    OFF = "__CPROVER_POINTER_OFFSET(vm->pc)"
    PC = "__CPROVER_same_object(vm->pc, yv_p) && %s <= yv_N" % OFF
    L = [("vm_ff_subpatterns_multiple", 0, "__CPROVER_assigns(i, vm->pc) __CPROVER_loop_invariant(i <= n && %s && yv_K[%s] == yv_k0 + i)" % (PC, OFF)),
         ("MATCH_list", 0, "__CPROVER_assigns(i, vm->pc, yv_op, yv_oz) __CPROVER_loop_invariant(i <= len && %s && yv_K[%s] == i && (yv_w >= i || yv_M[yv_w] != 0))" % (PC, OFF)),
         ("vm_MATCH_table_elements", 0, "__CPROVER_assigns(i, vm->pc, yv_op, yv_oz) __CPROVER_loop_invariant(i <= len && %s && yv_K[%s] == 2 * i && (yv_w >= 2 * i || !(yv_w & 1) || yv_M[yv_w] != 0) && "
          "(i == len || (yv_p[@] == yv_op && (yv_op == 1 || yv_op == 8 || yv_op == 154 || yv_op == 155) && yv_oz == (yv_op == 1 ? 1 : yv_op == 155 ? 9 : 2) && "
          "yv_K[@ + yv_oz] == 2 * i + 1 && @ + yv_oz <= yv_N)))".replace("@", OFF) % (PC, OFF))]
    # by-value copy: CBMC does not follow a pointer out of a union within one expression
    UD = [(r"\bexpr->value\.uval->data", "yv_getud(*expr)->data")]
    a = vm_tu("match.c", native=False, sub=UD)
    V = "interpreter/VM.c: "
    leaves = "UNDEF TBOOL TINT TFLOAT TSTR TLS TTABLE ANY BIND BOOL LIT LIT8 LS VLS TABLE VTABLE ALT".split()
    for k in leaves:
        a.unit("skip_" + k, contract="vm_ff_subpattern", replace=["vm_ff_subpatterns_multiple"], about=V + "vm_ff_subpattern", native=False)
    ONE = ["vm_ff_subpatterns_multiple", "MATCH_list", "vm_MATCH_table_elements", "isequal"] + RC
    for k in "UNDEF TBOOL TINT TFLOAT TSTR TLS TTABLE ANY BOOL LIT LIT8".split():
        a.unit("one_" + k, contract="vm_MATCH_subpattern", replace=ONE, about=V + "vm_MATCH_subpattern", native=False)
    a.unit("one_ALT", contract="vm_MATCH_subpattern", replace=ONE + ["vm_MATCH_subpattern", "vm_ff_subpattern"], about=V + "vm_MATCH_subpattern (alternatives)", native=False)
    for k in "LS VLS TABLE VTABLE".split():
        for ty in "iusltd":
            a.unit("one_%s_%s" % (k, ty), contract="vm_MATCH_subpattern", replace=ONE, about=V + "vm_MATCH_subpattern", native=False)
    for k in "1i 1s 2i 2s over".split():
        a.unit("bind_" + k, contract="vm_MATCH_subpattern", replace=ONE, about=V + "vm_MATCH_subpattern (bindings)", native=False)
    for k in "is":
        a.unit("match_" + k, contract="vm_executenext", replace=["vm_MATCH_pattern"] + RC, about=V + "vm_MATCH_IF", native=False)
    b = vm_tu("match.c", defs=["YV_SEQ"], tag="seq", annot=L, native=False)
    b.unit("skips", contract="vm_ff_subpatterns_multiple", replace=["vm_ff_subpattern"], about=V + "vm_ff_subpatterns_multiple (any number)", native=False)
    b.unit("list", contract="MATCH_list", replace=["vm_MATCH_subpattern", "vm_ff_subpatterns_multiple"], about=V + "MATCH_list (any number)", native=False)
    b.unit("table", contract="vm_MATCH_table_elements", replace=["vm_MATCH_subpattern", "vm_ff_subpatterns_multiple", "YASL_Table_search", "vm_read_int"], about=V + "vm_MATCH_table_elements (any number)", solvers=("minisat", "z3"), timeout=240, native=False)
    c = vm_tu("match.c", defs=["YV_SEQ"], tag="key", native=False)
    for k in "UNDEF BOOL LIT LIT8".split():
        c.unit("key_" + k, contract="vm_MATCH_table_elements", replace=["vm_MATCH_subpattern", "vm_ff_subpatterns_multiple", "YASL_Table_search"], about=V + "vm_MATCH_table_elements (the key)", native=False)
    d = TU("patcode.c", links=["compiler/ast.c"], native=False)
    for k in "undef any tbool tint tfloat tstr tls ttable bool lit".split():
        d.unit(k, about="compiler/compiler.c: the code of a pattern", native=False)
    for k in "ls vls table vtable".split():
        for m in "02":
            d.unit("%s_%s" % (k, m), about="compiler/compiler.c: visit_CollectionPattern", native=False, bounded="no or two patterns inside")
    s = Snippets(run, "matches")
    matches.match_programs(s, rng(run), N(700, 15000))
    s.execute()
    units = run_harnesses(run, [a, b, c, d])
    return finish(run, units, "proof",
                  "The matcher is proved per pattern for every value and operand: the answer, that exactly the pattern's code is consumed, and what is stored and referenced by a binding; skipping patterns, "
                  "matching the elements of a list and the entries of a table for any number of them (loop contracts; arbitrary element, arbitrary positions). What the compiler emits for a pattern is proved "
                  "for every constant index. Random programs with nested patterns, alternatives, bindings and guards are executed against a matcher written for the purpose.",
                  ["the layout of the code of a pattern (which operands it has, that inner patterns follow one another) is assumed of the code that is matched, as the definition of a pattern",
                   "YASL_Table_search and isequal are replaced by contracts here (properties C04 and C03)", A_PRINT, A_LONGJMP, A_MACH], TRUSTED)
