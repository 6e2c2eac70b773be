"""Registry of units (contracts of functions of /repo) and the two drivers of a
unit: symbolic (all inputs) and native (given inputs or random inputs)."""
import random


class Unit:
    def __init__(self, name, func, props, targets, opts):
        self.name, self.func, self.props, self.targets, self.opts = name, func, props, targets, opts


UNITS = {}


def unit(props, targets=(), name=None, **opts):
    """props: property ids this contract serves; targets: functions of /repo
    under contract."""
    if isinstance(props, str):
        props = props.split()
    if isinstance(targets, str):
        targets = targets.split()

    def deco(f):
        n = name or f.__name__
        assert n not in UNITS, n
        UNITS[n] = Unit(n, f, list(props), list(targets), opts)
        return f
    return deco


class Skip(BaseException):
    """native run: assumption false"""


class Fail(Exception):
    pass


class NativeH:
    """Harness object of a native run over concrete inputs."""
    symbolic = False

    def __init__(self, inputs=None, rng=None):
        self.inputs = dict(inputs) if inputs is not None else None
        self.rng = rng or random.Random(0)
        self.used = {}
        self.failures = []
        self.checks = 0
        self.counts = {}
        self.pool = []
        self.words, self.nums = [], []

    def _name(self, base):
        n = self.counts.get(base, 0)
        self.counts[base] = n + 1
        return base if n == 0 else f'{base}#{n}'

    def _get(self, name, gen, default):
        name = self._name(name)
        if self.inputs is not None:
            v = self.inputs.get(name, default)
        else:
            v = gen()
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None, near=()):
        def gen():
            r = self.rng
            k = r.random()
            if self.nums and r.random() < 0.1:
                v = r.choice(self.nums) + r.choice((-1, 0, 0, 1))
            elif near and k < 0.3:
                v = r.choice(list(near)) + r.choice((-1, 0, 0, 0, 1))
            elif lo is not None and hi is not None and hi - lo < 100000 and k < 0.6:
                v = r.randint(lo, hi)
            elif k < 0.35:
                v = r.choice((0, 1, -1, 2, 3, 5, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 100))
            elif k < 0.5 and lo is not None:
                v = lo + r.choice((0, 0, 1, 2, 10))
            elif k < 0.65 and hi is not None:
                v = hi - r.choice((0, 0, 1, 2, 10))
            elif k < 0.8:
                v = r.randint(0, 300)
            elif k < 0.9:
                v = r.choice((1, -1)) * ((1 << r.randint(1, 300)) + r.choice((-1, 0, 1)))
            else:
                v = r.choice((1, -1)) * r.getrandbits(r.randint(1, 80))
            if lo is not None and v < lo:
                v = lo + (lo - v) % 97 if hi is None else r.randint(lo, hi)
            if hi is not None and v > hi:
                v = hi - (v - hi) % 97 if lo is None else r.randint(lo, hi)
            return v
        return self._get(name, gen, 0 if (lo is None or lo <= 0) else lo)

    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < 0.5, False)

    def _len(self, n, lo, hi):
        if n is not None:
            return n
        r = self.rng
        k = r.random()
        if self.nums and r.random() < 0.1:
            v = r.choice(self.nums) + r.choice((-1, 0, 0, 1))
            v = v if 0 <= v < 2000 else 0
        elif k < 0.6:
            v = r.choice((0, 1, 1, 2, 3, 4, 5))
        elif k < 0.9:
            v = r.choice((20, 21, 22, 32, 54, 55, 56, 57, 64))
        else:
            v = r.choice((127, 128, 255, 256, 257, 300, 1000))
        v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        return v

    def bytes(self, name, n=None, lo=0, hi=None):
        def gen():
            r = self.rng
            ln = self._len(n, lo, hi)
            if self.pool and r.random() < 0.25:
                v = r.choice(self.pool)
                if len(v) == ln or (n is None and lo <= len(v) and (hi is None or len(v) <= hi)):
                    return v
            k = r.random()
            if k < 0.3:
                v = bytes(r.choice((0, 1, 0x7f, 0x80, 0x81, 0xff, 0x30, 0x61)) for _ in range(ln))
            else:
                v = bytes(r.getrandbits(8) for _ in range(ln))
            self.pool.append(v)
            return v
        return self._get(name, gen, b'\0' * (n if n is not None else lo))

    def str(self, name, n=None, lo=0, hi=None):
        def gen():
            r = self.rng
            if self.words and r.random() < 0.2:
                v = r.choice(self.words)
                q = r.random()
                if q < 0.2:
                    v = v[:r.randint(0, len(v))]
                elif q < 0.4:
                    v += r.choice(('', '0', 'x', '.', '.x', '_', ' '))
                elif q < 0.5:
                    v = r.choice(('0', 'x', '_', ' ', '.')) + v
                elif q < 0.65:
                    v = r.choice((v.upper(), v.lower(), v.capitalize(), v.swapcase()))
                if len(v) == n or n is None and lo <= len(v) and (hi is None or len(v) <= hi):
                    return v
            ln = self._len(n, lo, hi)
            k = r.random()
            al = 'abxyz0189_' if k < 0.5 else ('0123456789abcdef' if k < 0.7 else
                                               ('aZ_-+ .,()\u00e9\u4e2d\U0001f600\x00x0' if k < 0.95 else 'hc'))
            return ''.join(r.choice(al) for _ in range(ln))
        return self._get(name, gen, 'a' * (n if n is not None else lo))

    def choose(self, name, options):
        options = list(options)
        i = self._get(name, lambda: self.rng.randrange(len(options)), 0)
        if not 0 <= i < len(options):
            raise Skip()
        return options[i]

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, name, cond):
        self.checks += 1
        if not cond:
            self.failures.append(name)

    def cover(self, name):
        pass

    def body(self, *fs):
        pass

    def generic(self, i, n):
        """the next loop over range(n) is run for the arbitrary index i only
        (see pv/frame.py for what makes that enough); natively it runs in full"""
        if n > 2000:
            raise Skip()

    def generic_used(self):
        return False

    def unsupported(self, why):
        """the code asks a stand-in for something it does not model"""
        self.skipped = True
        raise Skip()

    skipped = False

    def note(self, *a):
        print('NOTE', *a)

    def fail(self, name):
        self.check(name, False)


class SymH:
    symbolic = True

    def __init__(self, c):
        self.c = c

    def _n(self, base):
        return self.c.fresh(base)

    def int(self, name, lo=None, hi=None, near=()):
        import z3
        from . import sym
        n = self._n(name)
        t = z3.Int(n)
        self.c.inputs[n] = ('int', t)
        if lo is not None:
            self.c.fact(t >= lo)
        if hi is not None:
            self.c.fact(t <= hi)
        if lo is not None and lo == hi:
            return lo
        return sym.SInt(t)

    def bool(self, name):
        import z3
        from . import sym
        n = self._n(name)
        t = z3.Bool(n)
        self.c.inputs[n] = ('bool', t)
        return sym.SBool(t)

    def bytes(self, name, n=None, lo=0, hi=None):
        import z3
        from . import sym
        nm = self._n(name)
        t = z3.Const(nm, sym.BY)
        self.c.inputs[nm] = ('bytes', t)
        self._range(sym.LEN(t), n, lo, hi)
        if n == 0:
            self.c.fact(t == sym.const_term(b''))
            return b''
        return sym.SBytes((sym.Atom(t, 'IN', (), n),))

    def str(self, name, n=None, lo=0, hi=None):
        import z3
        from . import sym
        nm = self._n(name)
        t = z3.Const(nm, sym.ST)
        self.c.inputs[nm] = ('str', t)
        self._range(sym.SLEN(t), n, lo, hi)
        if n == 0:
            return ''
        return sym.SStr((sym.Atom(t, 'IN', (), n),))

    def _range(self, ln, n, lo, hi):
        if n is not None:
            self.c.fact(ln == n)
        else:
            self.c.fact(ln >= max(lo, 0))
            if hi is not None:
                self.c.fact(ln <= hi)

    def choose(self, name, options):
        options = list(options)
        n = self._n(name)
        i = self.c.choose(len(options))
        self.c.choices[n] = i
        return options[i]

    def assume(self, cond):
        from . import sym
        self.c.assume(sym.zbool(cond))

    def check(self, name, cond):
        from . import sym, rt
        if not isinstance(cond, (sym.SBool, bool)):
            cond = rt.truth(cond)
        self.c.prove(name, sym.zbool(cond))

    def fail(self, name):
        self.check(name, False)

    def note(self, *a):
        import os
        if os.environ.get('PV_DEBUG'):
            print('NOTE', *a)

    def unsupported(self, why):
        self.c.unsupported(why)

    def generic(self, i, n):
        self.c.generic = [i, n, 0]

    def generic_used(self):
        return self.c.generic[2] == 1

    def cover(self, name):
        self.c.covers.add(name)

    def body(self, *fs):
        for f in fs:
            f = getattr(f, '__func__', f)
            self.c.in_body[f] = 1


class Contract:
    """Contract of a function, used in place of its body at call sites.

    spec(h, *args) checks the precondition with h.check and returns the result
    of the postcondition (a term), or raises the specified exception."""

    def __init__(self, name, spec):
        self.name, self.spec = name, spec

    def apply(self, h, /, *a, **k):
        return self.spec(h, *a, **k)


CONTRACTS = {}     # 'module:qualname' -> spec


def contract(target):
    def deco(f):
        CONTRACTS[target] = f
        return f
    return deco
