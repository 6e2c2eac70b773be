"""C07: the step counter."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from pyexec.iconscore.icon_score_step import IconScoreStepCounter, StepType, OutOfStepException
from pyexec.base.exception import ExceptionCode

KINDS_V0 = [('get', StepType.GET), ('set', StepType.SET), ('replace', StepType.REPLACE), ('delete', StepType.DELETE),
            ('eventLog', StepType.EVENT_LOG), ('apiCall', StepType.API_CALL)]
BASED = [('getBase', 'get', StepType.GET), ('setBase', 'set', StepType.SET), ('deleteBase', 'delete', StepType.DELETE),
         ('logBase', 'log', StepType.LOG)]


# at most five writes are unanswered (proved for C15, `reply_many` and
# `reply_step`), and one more while a write is being sent
MOST = 6


class Pending:
    """an arbitrary refund handler: each call either settles a pending reply
    (and changes the used steps by any amount) or reports that nothing is
    pending"""

    def __init__(self, h, most):
        self.h, self.most, self.calls, self.sum = h, most, 0, 0
        self.counter = None
        self.history = []

    def __call__(self):
        self.calls += 1
        if len(self.history) < self.most and self.h.bool('pending'):
            d = self.h.int('refund')
            self.history.append(d)
            self.counter.add_step(d)
            return True
        return False


def counter(h, table, limit, most):
    p = Pending(h, most)
    c = IconScoreStepCounter(table, limit, p)
    p.counter = c
    return c, p


def consumed(h, c, p, typ, step, call):
    """contract of a charge of `step`"""
    used = h.int('used')
    c.add_step(used)
    limit = c.step_limit
    try:
        r = call()
        ok = True
    except OutOfStepException as e:
        ok = False
        h.check('fails with out of step', And(e.code == ExceptionCode.OUT_OF_STEP, e.step_limit == limit))
        h.check('message names the kind', spec.cat('Out of step: ', typ.value) == e.message)
    refund = 0
    for d in p.history:
        refund = refund + d
    now = used + refund
    if ok:
        h.check('success: the charge is added exactly', And(c.step_used == now + step, r == c.step_used))
        h.check('success: the charge fits', Or(step == 0, now + step <= limit))
    else:
        h.check('failure: the limit is consumed', c.step_used == limit)
        h.check('failure: it does not fit', now + step > limit)
        h.check('failure: nothing was pending any more', p.calls == len(p.history) + 1)
        h.check('failure: exact amounts', And(e_requested(h, c, limit), True))
    # pending replies are settled only when they are needed
    before = used
    for d in p.history:
        h.check('settled only when the charge did not fit', before + step > limit)
        before = before + d


def e_requested(h, c, limit):
    return c.step_limit == limit


@unit('C07', 'pyexec.iconscore.icon_score_step:IconScoreStepCounter.consume_step', budget=60)
def step_consume(h):
    c, p = counter(h, {}, h.int('limit'), most=MOST)
    step = h.int('step')
    typ = h.choose('kind', [StepType.GET, StepType.API_CALL])
    consumed(h, c, p, typ, step, lambda: c.consume_step(typ, step))


def _table(h, names):
    t = {}
    for n in names:
        if h.bool('has_' + n):
            t[n] = h.int('cost_' + n)
    return t


@unit('C07', 'pyexec.iconscore.icon_score_step:IconScoreStepCounter.apply_step '
             'pyexec.iconscore.icon_score_step:IconScoreStepCounter.__init__')
def step_apply_v0(h):
    name, typ = h.choose('kind', KINDS_V0)
    t = _table(h, [name])
    if h.bool('schema0'):
        t['schema'] = 0
    t['bogus'] = 12345
    t['getBase'] = 777
    c, p = counter(h, t, h.int('limit'), most=MOST)
    n = h.int('count')
    h.check('schema', c.schema == 0)
    consumed(h, c, p, typ, t.get(name, 0) * n, lambda: c.apply_step(typ, n))


@unit('C07', 'pyexec.iconscore.icon_score_step:IconScoreStepCounter.apply_step '
             'pyexec.iconscore.icon_score_step:IconScoreStepCounter.__init__')
def step_apply_v1(h):
    base, name, typ = h.choose('kind', BASED + [(None, 'apiCall', StepType.API_CALL)])
    t = _table(h, [name] if base is None else [base, name])
    t['schema'] = 1
    t['default'] = 5
    c, p = counter(h, t, h.int('limit'), most=MOST)
    n = h.int('count')
    h.check('schema', c.schema == 1)
    b = 0 if base is None else t.get(base, 0)
    h.check('base cost', c.get_base_step(typ) == b)
    h.check('unit cost', c.get_step_cost(typ) == t.get(name, 0))
    consumed(h, c, p, typ, b + t.get(name, 0) * n, lambda: c.apply_step(typ, n))


@unit('C07', 'pyexec.iconscore.icon_score_step:IconScoreStepCounter.step_remained')
def step_remained(h):
    limit = h.int('limit')
    c, p = counter(h, {}, limit, most=MOST)
    used = h.int('used')
    c.add_step(used)
    h.check('starts empty', c.step_used == used)
    r = c.step_remained
    refund = p.history[0] if p.history else 0
    h.check('pending replies are settled first', p.calls >= 1)
    h.check('remaining', r == limit - used - refund)


@unit('C07 C08', 'pyexec.iconscore.icon_score_step:IconScoreStepCounter.refund_step')
def step_refund(h):
    v1 = h.bool('v1')
    if v1:
        t = {'schema': 1, 'setBase': h.int('sb', 0), 'deleteBase': h.int('db', 0), 'set': h.int('s', 0),
             'delete': h.int('d', None, 0)}
        per = t['delete']
        base = (t['setBase'] + t['deleteBase']) // 2 - t['setBase']
    else:
        t = {'set': h.int('s', 0), 'replace': h.int('r', 0), 'delete': -5}
        per = t['replace'] - t['set']
        base = 0
    c, p = counter(h, t, h.int('limit'), most=0)
    n = h.int('count')
    c.refund_step(n)
    h.check('refund', c.step_used == base + per * n)
    h.check('no settling', p.calls == 0)
