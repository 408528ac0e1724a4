from common import *
import calls


def const_tu():
    t = TU("consts.c", links=["compiler/ast.c"], native=False)
    C = "compiler/compiler.c: "
    for k, T in (("int", "Integer"), ("float", "Float"), ("string", "String"), ("bool", "Boolean"), ("undef", "Undef")):
        if k in ("int", "float", "string"):
            t.unit("intern_" + k, contract="compiler_intern_" + k, about=C + "compiler_intern_" + k)
            t.unit("pat_" + k, contract="visit_%sPattern" % T.replace("Integer", "Int"), about=C + "visit_%sPattern" % T.replace("Integer", "Int"))
        t.unit("lit_" + k, contract="visit_" + T, about=C + "visit_" + T)
    return [t]


def check(run):
    s = Snippets(run, "constants")
    calls.const_programs(s, rng(run), N(30, 600))
    s.execute()
    units = run_harnesses(run, misc_tus("const") + const_tu())
    return finish(run, units, "proof",
                  "The instructions that put constants on the stack are proved for all values of the pool and all operands in the code; so is how the compiler numbers and stores one "
                  "arbitrary constant in any pool and the code that literals and literal patterns become; that the machine reads the pool back is executed in programs "
                  "(types, signs, lengths, many constants, big ones).", [A_STATE, A_MACH, "the table of constants (C04) and the byte buffer (C10) as proved of them: stubs in contracts/consts.c"], TRUSTED)
