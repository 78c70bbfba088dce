"""Second opinion: hand an obligation to cvc5 through SMT-LIB."""
import z3

TIMEOUT_MS = 4000


def smt2(facts, goal):
    s = z3.Solver()
    s.add(*facts)
    s.add(z3.Not(goal))
    return s.to_smt2()


def solve(facts, goal, timeout_ms=TIMEOUT_MS):
    """'unsat', 'sat', 'unknown' or 'error: ...'."""
    import cvc5
    text = smt2(facts, goal)
    try:
        tm = cvc5.TermManager()
        solver = cvc5.Solver(tm)
        solver.setOption("tlimit-per", str(timeout_ms))
        solver.setOption("strings-exp", "true")
        solver.setLogic("ALL")
        p = cvc5.InputParser(solver)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "obligation")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = str(c.invoke(solver, sm)).strip()
            if out in ("sat", "unsat", "unknown"):
                res = out
        return res
    except Exception as e:          # the text uses something cvc5 does not have
        return "error: " + str(e).splitlines()[0][:200]


def check(facts, goal):
    """Label for the back ends that accepted an obligation z3 has discharged."""
    r = solve(facts, goal)
    if r == "unsat":
        return "cvc5"
    if r == "sat":
        return "cvc5-disagrees"
    return "cvc5-unknown"
