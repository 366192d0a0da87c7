"""Symbolic execution engine: path exploration over the real Python code.

The code under test runs natively; symbolic inputs are proxy objects (see
values.py) and every branch on one of them calls Engine.branch, which asks z3
which sides are feasible.  Paths are explored depth first by re-execution with
a decision tape; the solver keeps one push level per decision, so a
re-execution re-asserts nothing up to the decision being flipped.
"""
import time
import z3


class EngineSignal(BaseException):
    """Control-flow signal; never caught by code under test (`except:` re-raises)."""


class PathEnd(EngineSignal):
    """The current path is infeasible or deliberately cut."""


class Budget(EngineSignal):
    """Time or path budget of this harness exhausted."""


class Unsupported(EngineSignal):
    """The engine cannot model an operation; the path is inconclusive."""


class Dec(object):
    __slots__ = ('kind', 'val', 'rest', 'pushed', 'tag')

    def __init__(self, kind, val, rest, pushed, tag=None):
        self.kind = kind      # 'b' branch, 'c' choice, 'v' concretised value
        self.val = val
        self.rest = rest      # remaining alternatives
        self.pushed = pushed
        self.tag = tag


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.cut = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.concretised = 0
        self.inconclusive = []

    def as_dict(self):
        d = dict(self.__dict__)
        d['inconclusive'] = list(self.inconclusive)
        return d


CUR = None      # current engine


def cur():
    return CUR


class Engine(object):
    def __init__(self, query_timeout_ms=20000, time_budget=120.0, max_paths=20000,
                 concretise_limit=64):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.stats = Stats()
        self.tape = []
        self.pos = 0
        self.model = None
        self.model_ok = False
        self.deadline = time.time() + time_budget
        self.max_paths = max_paths
        self.concretise_limit = concretise_limit
        self.level = 0
        self.base_assumes = 0
        self.inputs = {}
        self.fresh_n = 0
        self.zlink = {}
        self.assume_log = None

    # -- solver ---------------------------------------------------------
    def _check(self, *extra):
        st = self.stats
        t = time.time()
        r = self.solver.check(*extra)
        st.solver_s += time.time() - t
        st.queries += 1
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        if time.time() > self.deadline:
            raise Budget('time')
        return r

    def _push(self, cond):
        self.solver.push()
        self.solver.add(cond)

    def get_model(self):
        if not self.model_ok:
            r = self._check()
            if r == z3.unsat:
                raise PathEnd('infeasible')
            if r != z3.sat:
                self.stats.inconclusive.append('path condition unknown')
                raise PathEnd('unknown')
            self.model = self.solver.model()
            self.model_ok = True
        return self.model

    def _holds_in_model(self, cond):
        m = self.get_model()
        v = m.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # -- decisions ------------------------------------------------------
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.tape):
            d = self.tape[self.pos]
            if d.kind != 'b':
                raise RuntimeError('nondeterministic harness (branch vs %s)' % d.kind)
            self.pos += 1
            return d.val
        if time.time() > self.deadline:
            raise Budget('time')
        self.stats.decisions += 1
        known = self._holds_in_model(cond)
        neg = z3.Not(cond)
        if known is None:
            known = self._check(cond) == z3.sat
        other = self._check(neg if known else cond)
        if other == z3.unsat:
            # forced: record without a push (implied by the path condition)
            self.tape.append(Dec('b', known, [], False))
            self.pos += 1
            return known
        if other == z3.unknown:
            self.stats.inconclusive.append('branch feasibility unknown')
        self._push(cond if known else neg)
        self.tape.append(Dec('b', known, [(not known, neg if known else cond)], True))
        self.pos += 1
        # model stays valid for the side it satisfies
        return known

    def choice(self, n, tag=None):
        """Fork over range(n) without a constraint."""
        if n <= 0:
            raise PathEnd('empty choice')
        if self.pos < len(self.tape):
            d = self.tape[self.pos]
            if d.kind != 'c':
                raise RuntimeError('nondeterministic harness (choice vs %s)' % d.kind)
            self.pos += 1
            return d.val
        self.stats.decisions += 1
        self.tape.append(Dec('c', 0, list(range(1, n)), False, tag))
        self.pos += 1
        return 0

    def concretise(self, expr, to_py, what='value'):
        """Fork over every feasible value of expr (up to the limit)."""
        expr = z3.simplify(expr)
        if self.pos < len(self.tape):
            d = self.tape[self.pos]
            if d.kind != 'v':
                raise RuntimeError('nondeterministic harness (value vs %s)' % d.kind)
            self.pos += 1
            return to_py(d.val)
        self.stats.decisions += 1
        self.stats.concretised += 1
        vals = []
        self.solver.push()
        try:
            v = self.get_model().eval(expr, model_completion=True)
            while True:
                vals.append(v)
                self.solver.add(expr != v)
                if len(vals) >= self.concretise_limit:
                    if self._check() != z3.unsat:
                        self.stats.inconclusive.append(
                            'concretised %s truncated at %d values' % (what, len(vals)))
                    break
                r = self._check()
                if r != z3.sat:
                    if r == z3.unknown:
                        self.stats.inconclusive.append('concretise unknown')
                    break
                v = self.solver.model().eval(expr, model_completion=True)
        finally:
            self.solver.pop()
        first = vals[0]
        rest = [(x, expr == x) for x in vals[1:]]
        self._push(expr == first)
        self.tape.append(Dec('v', first, rest, True))
        self.pos += 1
        return to_py(first)

    def assume(self, cond, fresh=False):
        """Constrain the current path (recorded as a forced decision); fresh: the constraint
        is satisfiable whatever the path (it only mentions a new variable)."""
        if self.assume_log is not None:
            self.assume_log.append(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd('assume')
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd('assume')
        if self.pos < len(self.tape):
            self.pos += 1
            return
        if self.model_ok and self._holds_in_model(cond) is not True:
            self.model_ok = False
        self._push(cond)
        self.tape.append(Dec('a', True, [], True))
        self.pos += 1
        if not self.model_ok and not fresh:
            self.get_model()

    # -- exploration ----------------------------------------------------
    def _backtrack(self):
        """Move the tape to the next unexplored path; False when done."""
        while self.tape:
            d = self.tape[-1]
            if d.pushed:
                self.solver.pop()
                d.pushed = False
            self.model_ok = False
            if d.rest:
                nxt = d.rest.pop(0)
                if d.kind == 'c':
                    d.val = nxt
                    return True
                d.val, cond = nxt
                self._push(cond)
                d.pushed = True
                return True
            self.tape.pop()
        return False

    def explore(self, fn):
        """Run fn() over every path.  Returns True when exploration completed."""
        global CUR
        prev, CUR = CUR, self
        complete = True
        try:
            while True:
                self.pos = 0
                self.fresh_n = 0
                self.inputs = {}
                self.zlink = {}
                try:
                    fn()
                    self.stats.paths += 1
                except PathEnd:
                    self.stats.cut += 1
                except Unsupported as e:
                    self.stats.inconclusive.append('unsupported: %s' % e)
                    self.stats.cut += 1
                except Budget as e:
                    self.stats.inconclusive.append('budget: %s' % e)
                    complete = False
                    break
                if self.stats.paths + self.stats.cut >= self.max_paths:
                    if any(d.rest for d in self.tape):
                        self.stats.inconclusive.append('path limit')
                        complete = False
                    break
                if not self._backtrack():
                    break
        finally:
            CUR = prev
        return complete and not self.stats.inconclusive
