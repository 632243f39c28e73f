"""Small front end used by the checks."""
import ast
import os
from .terms import *
from . import terms as TM
from .program import Program, FunctionInfo
from .interp import Interp, Config, State, Obj, _dummy_fn
from . import decide

REPO = os.environ.get('VERIF_REPO', '/repo')
_prog = {}


def program():
    p = _prog.get(REPO)
    if p is None:
        p = Program(REPO)
        p.load_all(skip=('johnsonSU',))
        _prog[REPO] = p
    return p


class Session:
    """one abstract evaluation context"""

    def __init__(self, cfg=None, prog=None):
        self.prog = prog or program()
        self.I = Interp(self.prog, cfg)
        self.st = State()
        self.I.stack.append(FunctionInfo('<check>', _dummy_fn(), next(iter(self.prog.modules.values()))))

    def sym(self, name, cls=None):
        t = TM.sym(name)
        if cls:
            self.I.tags[t] = cls
        return t

    def py(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, (list,)):
            return self.I.new_list(self.st, [item(self.py(x)) for x in v])
        if isinstance(v, tuple):
            return mk('tup', *[self.py(x) for x in v])
        if isinstance(v, dict):
            return self.I.new_dict(self.st, {self.py(k): self.py(x) for k, x in v.items()})
        return const(v)

    def new(self, cls, *args, **kw):
        ci = self.prog.cls(cls) if isinstance(cls, str) else cls
        return self.I.instantiate(ci, [self.py(a) for a in args], [(k, self.py(v)) for k, v in kw.items()], self.st)

    def call(self, fn, *args, **kw):
        fi = self.prog.func(fn) if isinstance(fn, str) else fn
        return self.I.invoke(fi, [self.py(a) for a in args], [(k, self.py(v)) for k, v in kw.items()], self.st)

    def meth(self, obj, name, *args, **kw):
        f = self.I.get_attr(obj, name, self.st)
        return self.I.apply(f, [self.py(a) for a in args], [(k, self.py(v)) for k, v in kw.items()], self.st)

    def attr(self, obj, name):
        return self.I.get_attr(obj, name, self.st)

    def r(self, v):
        return self.I.reify(v, self.st)

    def under(self, g):
        """context manager: evaluate in a copy of the state where g is known"""
        return _Under(self, g)

    def quad_fn(self, f):
        """callable value from its reified form"""
        if f.op == 'bm' and f.args[1].op == 'inst':
            for i, o in list(self.st.heap.items()):
                if o.kind == 'inst' and o.cls is not None and o.cls.qual == f.args[1].args[0]:
                    r = mk('ref', i)
                    if self.r(r) is f.args[1]:
                        return mk('bm', f.args[0], r)
        return f

    def expr(self, src, env=None, module=None):
        """evaluate a specification expression in the same abstract domain"""
        s = self.st
        saved = s.env
        s.env = dict(env or {})
        if module:
            fi = FunctionInfo('<spec>', _dummy_fn(), self.prog.module(module))
            self.I.stack.append(fi)
        else:
            self.I.stack.append(FunctionInfo('<spec>', _dummy_fn(), SPECMOD))
        try:
            return self.I.eval(ast.parse(src.strip(), mode='eval').body, s)
        finally:
            self.I.stack.pop()
            s.env = saved


class _Under:
    def __init__(self, S, g):
        self.S, self.g = S, g

    def __enter__(self):
        self.saved = self.S.st
        self.S.st = self.saved.copy()
        self.S.st.assume(self.g)
        return self.S

    def __exit__(self, *a):
        self.S.st = self.saved


class _SpecMod:
    pass


def _specmod():
    from .program import ModuleInfo
    m = ModuleInfo('<spec>', '/spec', ast.parse('import numpy as np\nfrom copy import deepcopy\n'), '')
    m.bind = {'np': [('import', 'numpy', None)], 'deepcopy': [('from', ('copy', 'deepcopy'), None)]}
    m.bind['arcsec'] = [('from', ('lenstronomy.Util.constants', 'arcsec'), None)]
    for mod, name in (('nfw', 'NFW'), ('tnfw', 'TNFW'), ('cnfw', 'CNFW'), ('nfw_core_truncated', 'TNFWC'), ('splcore', 'SPLCORE'),
                      ('pseudo_double_powerlaw', 'PseudoDoublePowerlaw'), ('pseudo_jaffe', 'PseudoJaffe'), ('uldm', 'Uldm')):
        m.bind[name] = [('from', ('lenstronomy.LensModel.Profiles.' + mod, name), None)]
    return m


SPECMOD = _specmod()
