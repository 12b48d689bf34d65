"""A second opinion: every unsatisfiability z3 reports (discharged obligations and
the infeasible paths that were pruned) put to cvc5 as SMT-LIB text."""
import time

import cvc5


class Cross:
    name = 'cvc5 ' + cvc5.__version__

    def __init__(self, ms=4000):
        self.ms = ms
        self.last = None
        self.pruned = 0      # disagreements about the feasibility of a path
        self.confirmed = self.undecided = self.rejected = 0
        self.s = 0.0
        self.disagreements = []
        self.why = {}

    def ask(self, solver):
        t = time.time()
        text = solver.to_smt2()
        try:
            r = self.run(text)
        except Exception as e:
            r = 'error: ' + str(e).splitlines()[0][:120]
        self.last = r
        self.s += time.time() - t
        if r == 'unsat':
            self.confirmed += 1
        elif r == 'sat':
            self.disagreements.append(text[-3000:])
            self.rejected += 1
        else:
            self.undecided += 1
            self.why[r] = self.why.get(r, 0) + 1
        return r

    def run(self, text):
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(self.ms))
        slv.setOption('strings-exp', 'true')
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            if str(c).startswith('(set-logic'):
                continue
            out = c.invoke(slv, sm).strip()
            if str(c).startswith('(check-sat'):
                res = out
            elif out.startswith('(error'):
                return out[:120]
        return res or 'nothing'
