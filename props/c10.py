from common import *
import lines


def check(run):
    v = TU("varint.c", native_links=native_sources(exclude=["util/varint.c"]))
    A = "util/varint.c: "
    v.unit("encode", contract="vint_encode", replace=["vint_encode"], about=A + "vint_encode")
    v.unit("decode", contract="vint_decode", replace=["vint_decode"], about=A + "vint_decode")
    v.unit("next", contract="vint_next", about=A + "vint_next", unwind=11)
    v.unit("round", replace=["vint_encode", "vint_decode", "vint_next"], about=A + "lemma: encoding and decoding are inverse")
    b = TU("bytes.c", native_links=native_sources(exclude=["data-structures/YASL_ByteBuffer.c"]))
    B = "data-structures/YASL_ByteBuffer.c: YASL_ByteBuffer_"
    for n, f, rep in (("byte", "add_byte", []), ("int", "add_int", ["memcpy"]), ("float", "add_float", ["memcpy"]), ("vint", "add_vint", ["memcpy", "vint_encode"]), ("extend", "extend", ["memcpy"])):
        for k in ("room", "full"):
            b.unit("%s_%s" % (n, k), contract="YASL_ByteBuffer_" + f, replace=rep, about=B + f, solvers=("z3q", "minisat"), timeout=150)
    b.unit("rewrite", contract="YASL_ByteBuffer_rewrite_int_fast", replace=["memcpy"], about=B + "rewrite_int_fast", solvers=("z3q", "minisat"), timeout=150)
    LINE = ("vm_getcurrline", 0, "__CPROVER_assigns(tmp, i, yv_off, yv_j) __CPROVER_loop_invariant(i == yv_j && i <= yv_m && tmp == yv_code + yv_off && yv_off < yv_size_ &&"
            " (!(yv_k < i) || yv_dk < (size_t)(vm->pc - vm->code) - start))")
    l = TU("lines.c", links=VM_LINKS + ["util/varint.c"], annot=[LINE], native=False)
    l.unit("line", contract="vm_getcurrline", replace=["vint_decode", "vint_next"], about="interpreter/VM.c: vm_getcurrline (tables of any length)")
    VISIT = ("visit", 0, "__CPROVER_assigns(compiler->line, yv_n) __CPROVER_loop_invariant(compiler->line >= __CPROVER_loop_entry(compiler->line) && "
             "(compiler->line <= node->line || compiler->line == __CPROVER_loop_entry(compiler->line)) && yv_n == compiler->line - __CPROVER_loop_entry(compiler->line))")
    c = TU("visit.c", links=["data-structures/YASL_ByteBuffer.c"], annot=[VISIT], native=False)
    c.unit("visit", contract="visit", replace=["YASL_ByteBuffer_add_vint"], about="compiler/compiler.c: visit (any number of lines)")
    s = Snippets(run, "lines")
    r = rng(run)
    lines.line_programs(s, r, N(400, 8000))
    lines.syntax_programs(s, r, N(200, 4000))
    s.execute()
    units = run_harnesses(run, [v, b, l, c])
    return finish(run, units, "proof",
                  "Encoding and decoding of numbers is proved for every 64-bit number, the growing buffers for every size and contents, the search in the table of lines and the emission of its entries for "
                  "any number of lines; that the entries are emitted at the right places is executed in random programs that fail at known lines.",
                  [A_MALLOC, A_MACH, "memcpy of libc, as the instance of its specification at the ghost position",
                   "vm_getcurrline is proved over an abstract table: decoding an entry and stepping to the next one are functions of its number (their contracts are proved in varint.c)"], TRUSTED)
