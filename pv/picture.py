"""A picture of everything that is reachable from given objects (see vc/idle.py)."""
import types
from enum import Enum

ATOMS = (int, str, bytes, float, complex, type(None), type(Ellipsis))
OPAQUE = (types.BuiltinFunctionType, types.ModuleType, types.MethodDescriptorType, types.WrapperDescriptorType,
          types.GetSetDescriptorType, types.MemberDescriptorType, types.CodeType)


def own(module):
    return isinstance(module, str) and module.split('.')[0] in ('pyexec', 'iconservice')


def picture(roots, skip):
    """{path: what is there}, each object once"""
    seen, out, todo = set(), {}, [(n, o) for n, o in roots]
    while todo:
        path, o = todo.pop()
        if type(o) in ATOMS or isinstance(o, Enum):
            out[path] = (type(o), repr(o))
            continue
        out[path] = (type(o), id(o))
        if id(o) in seen or id(o) in skip or isinstance(o, OPAQUE):
            continue
        seen.add(id(o))
        parts = []
        if isinstance(o, dict):
            parts += [(f'[{k!r}]' if type(k) in ATOMS or isinstance(k, Enum) else f'[{type(k).__name__}@{id(k)}]', v)
                      for k, v in dict.items(o)]
        elif isinstance(o, (list, tuple)):
            parts += [(f'[{i}]', v) for i, v in enumerate(o)]
        elif isinstance(o, (set, frozenset)):
            parts += [(f'{{{x!r}}}' if type(x) in ATOMS else f'{{{id(x)}}}', x) for x in o]
        elif isinstance(o, bytearray):
            parts.append(('bytes', bytes(o)))
        if isinstance(o, types.FunctionType):
            if not own(o.__module__):
                continue
            parts += [('.defaults', o.__defaults__), ('.kwdefaults', o.__kwdefaults__), ('.dict', o.__dict__)]
            for i, c in enumerate(o.__closure__ or ()):
                try:
                    parts.append((f'.closure{i}', c.cell_contents))
                except ValueError:
                    pass
        elif isinstance(o, types.MethodType):
            parts += [('.self', o.__self__), ('.func', o.__func__)]
        elif isinstance(o, (classmethod, staticmethod)):
            parts.append(('.func', o.__func__))
        elif isinstance(o, type):
            if not own(o.__module__):
                continue
            parts += [('.' + k, v) for k, v in vars(o).items() if k not in ('__dict__', '__weakref__', '_abc_impl')]
        elif own(type(o).__module__) or isinstance(o, (dict, list)):
            parts += [('.' + k, v) for k, v in getattr(o, '__dict__', {}).items()]
            for c in type(o).__mro__:
                for s in ([c.__slots__] if isinstance(c.__dict__.get('__slots__'), str) else
                          c.__dict__.get('__slots__', ())):
                    if hasattr(o, s):
                        parts.append(('.' + s, getattr(o, s)))
        todo += [(path + n, v) for n, v in parts]
    return out


def program(w):
    """the modules of /repo as they are loaded, and the connection of w"""
    import sys
    roots = [('proxy', w.proxy), ('engine', w.engine)]
    for n, m in sorted(sys.modules.items()):
        if own(n) and m is not None:
            roots += [(n + '.' + k, v) for k, v in vars(m).items() if not k.startswith('__') and k != '_pv']
    return picture(roots, {id(w.node), id(w.h)})


def difference(a, b):
    for p in list(a) + list(b):
        if a.get(p) != b.get(p):
            return p
    return None
