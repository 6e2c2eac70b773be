"""Exploration of one unit in the symbolic back end."""
import collections
import importlib
import os
import sys
import time
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
PKGS = ('pyexec', 'iconservice')


def setup_symbolic():
    from . import instr
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    instr.install({'pyexec': f'{REPO}/pyee', 'iconservice': f'{REPO}/pyee', 'vc': VERIF})
    sys.setrecursionlimit(6000)
    from . import libs
    libs.install()
    import logging
    logging.disable(logging.CRITICAL)


def load_units(only=None):
    """import all harness modules; a module whose import fails because the
    code under verification changed shape yields no unit (reported)."""
    import pkgutil
    errors = {}
    vcdir = os.path.join(VERIF, 'vc')
    for f in sorted(os.listdir(vcdir)):
        if f.endswith('.py') and not f.startswith('_'):
            m = f[:-3]
            try:
                importlib.import_module(f'vc.{m}')
            except BaseException as e:
                errors[m] = ''.join(traceback.format_exception_only(type(e), e)).strip()
    return errors


def resolve(target):
    mod, qual = target.split(':')
    try:
        o = importlib.import_module(mod)
        for p in qual.split('.'):
            if isinstance(o, type) and p.startswith('__') and not p.endswith('__'):
                p = f'_{o.__name__.lstrip("_")}{p}'
            o = o.__dict__[p] if isinstance(o, type) else getattr(o, p)
    except (ImportError, AttributeError, KeyError):
        return None
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    return o


# ---- module/class state snapshot ---------------------------------------------

_SKIP = (types.FunctionType, type, types.ModuleType, property, staticmethod, classmethod)


def _freeze(v, depth=4):
    if depth == 0:
        return ('atom', v)
    t = type(v)
    if t in (list, collections.deque):
        return ('list', v, [_freeze(e, depth - 1) for e in v])
    if t is dict or t is collections.OrderedDict:
        return ('dict', v, [(k, _freeze(e, depth - 1)) for k, e in v.items()])
    if t is set:
        return ('set', v, set(v))
    if hasattr(v, '__dict__') and not isinstance(v, _SKIP) and getattr(t, '__module__', '').split('.')[0] in ('pyexec', 'vc'):
        return ('obj', v, [(k, _freeze(e, depth - 1)) for k, e in list(v.__dict__.items())])
    return ('atom', v)


def _thaw(f):
    k = f[0]
    if k == 'atom':
        return f[1]
    v = f[1]
    if k == 'list':
        items = [_thaw(e) for e in f[2]]
        v.clear()
        v.extend(items)
    elif k == 'dict':
        items = [(a, _thaw(b)) for a, b in f[2]]
        v.clear()
        for a, b in items:
            type(v).__setitem__(v, a, b)
    elif k == 'set':
        v.clear()
        v |= f[2]
    elif k == 'obj':
        items = [(a, _thaw(b)) for a, b in f[2]]
        v.__dict__.clear()
        v.__dict__.update(items)
    return v


class Snapshot:
    def __init__(self):
        self.items = []
        for n, m in sorted(sys.modules.items()):
            if n.split('.')[0] not in ('pyexec', 'iconservice', 'vc') or m is None:
                continue
            for k, v in list(m.__dict__.items()):
                if k.startswith('__') and k.endswith('__'):
                    continue
                if isinstance(v, type) and v.__module__ == n:
                    self._cls(v)
                elif not isinstance(v, _SKIP):
                    self.items.append((m.__dict__, k, _freeze(v)))

    def _cls(self, c):
        import enum
        if isinstance(c, enum.EnumMeta):
            return
        for k, v in list(c.__dict__.items()):
            if k.startswith('__') and k.endswith('__') or k.startswith('_abc'):
                continue
            if isinstance(v, type) and v.__qualname__.startswith(c.__qualname__ + '.'):
                self._cls(v)
            elif not isinstance(v, _SKIP) and not hasattr(v, '__get__'):
                self.items.append((c, k, _freeze(v)))

    def restore(self):
        for o, k, f in self.items:
            v = _thaw(f)
            if isinstance(o, dict):
                if o.get(k) is not v:
                    o[k] = v
            else:
                try:
                    if o.__dict__.get(k) is not v:
                        setattr(o, k, v)
                except (AttributeError, TypeError):
                    pass


def frame_in_harness(e):
    """innermost frame of the traceback that is not engine code"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if not fn.startswith(os.path.join(VERIF, 'pv')):
            last = fn
        tb = tb.tb_next
    return last is not None and last.startswith(os.path.join(VERIF, 'vc'))


STRUCTURAL = (AttributeError, ImportError, NameError, TypeError, KeyError)


def structural(e):
    """did harness code fail because the code under it is shaped differently?
    A missing result (None where the contract has a value) is no such case."""
    if not isinstance(e, STRUCTURAL) or not frame_in_harness(e):
        return False
    if isinstance(e, AttributeError) and e.name is not None and e.obj is None:
        return False
    return not (isinstance(e, TypeError) and "'NoneType' object is not subscriptable" in str(e))


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obligations = {}      # name -> dict(status, count, ...)
        self.failed = []           # list of dict(name, model, imprecise, detail)
        self.paths = 0
        self.unsupported = {}
        self.bounded = set()
        self.imprecise = set()
        self.assumptions = set()
        self.covered = set()
        self.covers = set()
        self.contract_uses = {}
        self.solver_s = 0.0
        self.queries = 0
        self.proved_by = {}
        self.wall = 0.0
        self.exhausted = True
        self.error = None
        self.discharged = 0
        self.total = 0


def explore(u, budget_s=60.0, max_paths=4000, dump=None, mode='proof', opts=None):
    from . import ctx as C
    from . import harness, rt
    res = UnitResult(u.name)
    stats = C.Stats()
    t0 = time.time()
    deadline = t0 + budget_s
    use = u.opts.get('use', DEFAULT_CONTRACTS)
    inline = [resolve(t) for t in u.opts.get('inline', ())]
    table = {}
    for target in use:
        f = resolve(target)
        if f is not None and target in harness.CONTRACTS:
            table[f] = harness.Contract(target, harness.CONTRACTS[target])
    targets = []
    for t in u.targets:
        f = resolve(t)
        if f is not None:
            targets.append(f)
    snap = Snapshot()
    work = [[]]
    while work:
        if time.time() > deadline or res.paths >= max_paths:
            res.exhausted = False
            break
        prefix = work.pop()
        c = C.Ctx(prefix, stats, mode, timeout_ms=u.opts.get('timeout_ms', 4000), deadline=deadline, dump=dump)
        h = harness.SymH(c)
        c.h = h
        c.contracts = table
        for f in inline:
            c.in_body[f] = True
        for f in targets:
            if f in table:
                c.in_body[f] = 1
        C.Ctx.cur = c
        try:
            u.func(h)
        except C.PathEnd:
            pass
        except C.Unsupported as e:
            res.unsupported[str(e)] = res.unsupported.get(str(e), 0) + 1
        except C.Budget:
            res.exhausted = False
        except BaseException as e:
            if c.dead is not None:
                if isinstance(c.dead, C.Unsupported):
                    res.unsupported[str(c.dead)] = res.unsupported.get(str(c.dead), 0) + 1
            elif isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            else:
                struct = structural(e)
                label = f'no unexpected exception ({type(e).__name__})'
                if struct:
                    res.unsupported[f'harness mismatch: {type(e).__name__}: {safe(e)}'] = 1
                    if os.environ.get('PV_DEBUG'):
                        traceback.print_exc()
                else:
                    if os.environ.get('PV_DEBUG'):
                        traceback.print_exc()
                    try:
                        c.prove(label, False)
                    except C.Control:
                        pass
                    except BaseException:
                        pass
        finally:
            C.Ctx.cur = None
        snap.restore()
        res.paths += 1
        work.extend(c.pending)
        for ob in c.obligations:
            d = res.obligations.setdefault(ob.name, {'proved': 0, 'failed': 0, 'unknown': 0, 'seconds': 0.0})
            d[ob.status] += 1
            d['seconds'] += ob.seconds
            res.total += 1
            if ob.status == 'proved':
                res.discharged += 1
            elif len([x for x in res.failed if x['name'] == ob.name]) < 6:
                res.failed.append({'name': ob.name, 'status': ob.status, 'model': ob.model,
                                   'imprecise': ob.imprecise, 'detail': ob.detail, 'trace': ob.trace})
        res.bounded |= set(c.bounded)
        res.imprecise |= set(c.imprecise)
        res.assumptions |= c.assumptions
        res.covered |= c.covered
        res.covers |= c.covers
        for k, v in c.contract_uses.items():
            res.contract_uses[k] = res.contract_uses.get(k, 0) + v
    res.solver_s = stats.solver_s
    res.queries = stats.queries
    res.proved_by = stats.proved_by
    res.wall = time.time() - t0
    return res


def safe(e):
    try:
        return str(e)[:200]
    except BaseException:
        return '?'


DEFAULT_CONTRACTS = (
    'pyexec.utils:int_to_bytes', 'pyexec.utils:bytes_to_int', 'pyexec.utils:byte_length_of_int',
    'pyexec.ipc.proxy:int_to_bytes', 'pyexec.ipc.proxy:bytes_to_int',
    'pyexec.database.db:rlp_encode_bytes',
)
