"""Path context of the symbolic back end: the path condition, the decision
trace, the obligations, and the solver.

One *unit* (a contract harness) is executed many times.  Each execution follows
a prefix of recorded decisions and then makes new ones; every feasible
alternative is queued.  `decide` is the only place where execution forks and
`prove` the only place where an obligation is discharged.
"""
import os
import time
import z3


class Control(BaseException):
    """Engine control flow.  Instrumented `except` clauses never catch it."""


class PathEnd(Control):
    """The path is over (assumption false, or end of an arbitrary loop step)."""


class Unsupported(Control):
    """The code did something outside the modelled subset of Python."""


class Restart(Control):
    """Exploration of the unit has to start again (loop frame extended)."""


class Budget(Control):
    """Path/time budget of the unit exhausted."""


class Obligation:
    __slots__ = ('name', 'status', 'model', 'imprecise', 'seconds', 'trace', 'detail')

    def __init__(self, name, status, imprecise, seconds, model=None, trace=None, detail=''):
        self.name, self.status, self.imprecise = name, status, imprecise
        self.seconds, self.model, self.trace, self.detail = seconds, model, trace, detail


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.proved_by = {}


class Ctx:
    cur = None

    def __init__(self, prefix, stats, mode, timeout_ms=8000, loops=None, deadline=None, dump=None):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []          # alternative prefixes found on this path
        self.stats = stats
        self.mode = mode           # 'proof' | 'bounded'
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', 7)
        self.asserted = []
        self.obligations = []
        self.inputs = {}           # name -> (kind, payload)
        self.choices = {}          # name -> value
        self.counters = {}
        self.dead = None
        self.imprecise = []        # reasons
        self.bounded = []          # reasons
        self.generic = None        # [index, size, used] of the loop run for one arbitrary index
        self.loops = loops if loops is not None else {}
        self.deadline = deadline
        self.covered = set()
        self.notes = []
        self.memo = {}
        self.feasible_known = True
        self.dump = dump
        self.assumptions = set()
        self.contracts = {}
        self.in_body = {}
        self.contract_uses = {}
        self.h = None
        self.allow_hash = 0
        self.ticks = 0
        self.covers = set()

    # -- naming -----------------------------------------------------------
    def fresh(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return base if n == 0 else f'{base}#{n}'

    # -- facts ------------------------------------------------------------
    def fact(self, cond):
        """Background truth (axiom instance, not a restriction)."""
        self.solver.add(cond)
        self.asserted.append(cond)

    def die(self, exc):
        if self.dead is None:
            self.dead = exc
        raise exc

    def check_alive(self):
        if self.dead is not None:
            raise self.dead

    def unsupported(self, why):
        self.die(Unsupported(why))

    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            self.die(Budget('time'))
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    # -- forking ----------------------------------------------------------
    def decide(self, cond):
        """Fork on a z3 Bool; returns the Python bool of this path."""
        self.check_alive()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            if not isinstance(v, bool):
                self.die(Unsupported('non-deterministic replay'))
        else:
            rt = self._check(cond)
            if rt == z3.unsat:
                v = False
                if not self.feasible_known and self._check(z3.Not(cond)) == z3.unsat:
                    self.die(PathEnd('infeasible'))
            else:
                rf = self._check(z3.Not(cond))
                if rf == z3.unsat:
                    v = True
                else:
                    if rt == z3.unknown or rf == z3.unknown:
                        self.feasible_known = False
                    v = True
                    self.pending.append(self.trace + [False])
        self.trace.append(v)
        c = cond if v else z3.Not(cond)
        self.solver.add(c)
        self.asserted.append(c)
        return v

    def choose(self, n):
        """n-ary non-deterministic choice."""
        self.check_alive()
        if n <= 0:
            self.die(PathEnd('no choice'))
        if n == 1:
            return 0
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = 0
            for k in range(1, n):
                self.pending.append(self.trace + [k])
        self.trace.append(v)
        return v

    def assume(self, cond):
        self.check_alive()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.die(PathEnd('assume'))
        self.solver.add(cond)
        self.asserted.append(cond)
        if len(self.trace) >= len(self.prefix):
            r = self._check()
            if r == z3.unsat:
                self.die(PathEnd('assume'))
            if r == z3.unknown:
                self.feasible_known = False

    def valid(self, cond):
        """True only if cond is entailed by the path condition."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self._check(z3.Not(cond)) == z3.unsat

    # -- obligations ------------------------------------------------------
    def prove(self, name, cond):
        self.check_alive()
        t = time.time()
        if cond is True or cond is False:
            cond = z3.BoolVal(cond)
        sc = z3.simplify(cond)
        model = None
        if z3.is_true(sc):
            status, by = 'proved', 'simplifier'
        else:
            r = self._check(z3.Not(sc))
            by = 'z3'
            if r == z3.unknown:
                r, by, model = self._retry(sc)
            if r == z3.unsat:
                status = 'proved'
            elif r == z3.sat:
                status = 'failed'
                model = self._model(z3.Not(sc))
            else:
                status = 'unknown'
        if status == 'proved':
            self.stats.proved_by[by] = self.stats.proved_by.get(by, 0) + 1
            if self.dump is not None:
                self._dump(name, sc)
        elif not self.feasible_known and self._check() == z3.unsat:
            status = 'proved'
        ob = Obligation(name, status, list(self.imprecise), time.time() - t, model, list(self.trace),
                        detail='' if status == 'proved' else str(sc)[:1500])
        self.obligations.append(ob)
        if status != 'proved':
            # continue with the condition assumed so that one defect is
            # reported once, unless it cannot hold at all
            self.solver.add(sc)
            self.asserted.append(sc)
            if self._check() == z3.unsat:
                self.die(PathEnd('after failed obligation'))
        return status == 'proved'

    def _dump(self, name, sc):
        s = z3.Solver()
        for a in self.asserted:
            s.add(a)
        s.add(z3.Not(sc))
        self.dump(name, s.to_smt2())

    def _retry(self, sc):
        for seed in (11, 23):
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            s.set('random_seed', seed)
            for a in self.asserted:
                s.add(a)
            s.add(z3.Not(sc))
            t = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t
            if r != z3.unknown:
                return r, f'z3(seed {seed})', None
        s = z3.SolverFor('QF_UFNIA')
        s.set('timeout', self.timeout_ms)
        for a in self.asserted:
            s.add(a)
        s.add(z3.Not(sc))
        r = s.check()
        return r, 'z3(QF_UFNIA)', None

    def _model(self, neg):
        """Extract input values; prefer small ones."""
        from . import sym
        soft = []
        for name, (kind, term) in self.inputs.items():
            if kind == 'int':
                soft.append(z3.And(term >= -2000, term <= 2000))
            elif kind in ('bytes', 'str'):
                soft.append(sym.lenterm(term) <= 40)
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        for a in self.asserted:
            s.add(a)
        s.add(neg)
        best = None
        if soft:
            s.push()
            for c in soft:
                s.add(c)
            if s.check() == z3.sat:
                best = s.model()
            s.pop()
            if best is None:
                s.push()
                for (name, (kind, term)), c in zip([x for x in self.inputs.items() if x[1][0] in ('int', 'bytes', 'str')], soft):
                    if kind != 'int':
                        s.add(sym.lenterm(term) <= 100000)
                if s.check() == z3.sat:
                    best = s.model()
                s.pop()
        if best is None and s.check() == z3.sat:
            best = s.model()
        if best is None:
            return None
        try:
            return sym.concretize(best, self.inputs, self.choices)
        except Exception as e:       # a model we cannot turn into inputs
            return {'__error__': repr(e)}


def ctx() -> Ctx:
    return Ctx.cur
