from common import *
import lang, calls


def name_tus():
    E = "compiler/env.c: "
    t = TU("scopes.c", native=False)
    for n, f, rep in (("contains", "scope_contains", ["scope_contains"]), ("contains_own", "scope_contains_cur_only", []), ("get", "scope_get", ["scope_get"]), ("len", "scope_len", ["scope_len"]),
                      ("decl", "scope_decl_var", ["scope_len"]), ("closest", "get_closest_scope_with_var", ["get_closest_scope_with_var"]), ("const", "scope_make_const", ["get_closest_scope_with_var"]),
                      ("capture", "env_add_upval", ["env_add_upval", "scope_contains", "scope_get"]), ("resolve", "env_resolve_upval_index", ["env_add_upval"])):
        t.unit(n, contract=f, replace=rep, about=E + f)
    t.unit("value", about=E + "env_resolve_upval_value")
    n = TU("names.c", native=False)
    for u, f in (("load", "load_var"), ("store", "store_var"), ("known", "contains_var"), ("here", "contains_var_in_current_scope"), ("make", "make_const")):
        n.unit(u, contract=f, replace=["compiler_print_err"] if u in ("load", "store") else [], about="compiler/compiler.c: " + f, unwind=24)
    return [t, n]


def check(run):
    s = Snippets(run, "scopes")
    r = rng(run)
    lang.lang_programs(s, r, N(300, 6000), {"call": .5, "closure": .3, "loop": 2}, "variables: scopes, shadowing, assignment", 30)
    lang.lang_programs(s, r, N(100, 2000), {"call": 1, "closure": 1, "loop": 2}, "variables: scopes, shadowing, assignment", 70)
    calls.scope_programs(s, r, N(40, 800))
    s.execute()
    units = run_harnesses(run, misc_tus("locals", "stack") + name_tus())
    return finish(run, units, "proof",
                  "Scopes and captures (compiler/env.c) are proved for one arbitrary name and any number of scopes around: where it is found, the slot a declaration gets, constants, what a closure captures and from where; "
                  "so is the code that loading and storing a name becomes, wherever it is declared, and that undeclared names and constants are refused. "
                  "The instructions that load, store, move and delete locals and that move the top of the stack are proved for all values; what the compiler makes of scopes, shadowing, "
                  "redeclaration, constants and undeclared names is executed in random programs against an interpreter written for the purpose.",
                  [A_STATE, A_MACH, "the tables of scopes are maps (C04), here by the entry of the name that is looked at", "functions nested two deep where a name is looked for around a function (env_contains, get_nearest)",
                   "where the name is not declared in the function around, that one captures it first (contract of the recursive call)"], TRUSTED)
