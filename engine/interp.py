"""Abstract interpreter producing gated value-number terms from repository source.

Every function is evaluated once for all inputs: parameters are symbols, branches on
undecided conditions are both taken and merged under a gate, loops over unknown
iterables are summarised by one generic iteration.  No repository code is executed.
"""
import ast
import math
import builtins as _b
from .terms import *
from . import arrays
from . import terms as TM
from .program import Program, FunctionInfo, ClassInfo


STRMETH = {'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'rsplit', 'join', 'title', 'capitalize', 'find', 'count',
           'isdigit', 'isalpha', 'isupper', 'islower', 'partition', 'removeprefix', 'removesuffix', 'casefold', 'swapcase'}


def count_of(b):
    """conditions whose number b is"""
    if b.op == 'ite' and b.args[1] is ONE and b.args[2] is ZERO:
        return [b.args[0]]
    p = TM._poly(b) if b.op == 'poly' else None
    if not p or len(p) > 8:
        return None
    out = []
    for m, k in p.items():
        c = num(k) if not isinstance(k, TM.T) else k
        if c is not ONE or len(m) != 1 or m[0][1] is not ONE or m[0][0].op != 'ite' or m[0][0].args[1] is not ONE or m[0][0].args[2] is not ZERO:
            return None
        out.append(m[0][0].args[0])
    return sorted(out, key=lambda t: t.id)


class Obj:
    __slots__ = ('kind', 'cls', 'fields', 'items', 'segs', 'base', 'prov', 'order')

    def __init__(self, kind, cls=None, base=None, prov='fresh'):
        self.kind, self.cls, self.base, self.prov = kind, cls, base, prov
        self.fields = {}
        self.items = {}     # key T -> value T
        self.segs = ()
        self.order = None   # 'arr' for numpy arrays

    def clone(self):
        o = Obj(self.kind, self.cls, self.base, self.prov)
        o.order = self.order
        o.fields = dict(self.fields)
        o.items = dict(self.items)
        o.segs = self.segs
        return o


class State:
    __slots__ = ('env', 'heap', 'ov', 'ovx', 'facts', 'pc', 'dead', 'rc')

    def __init__(self):
        self.env, self.heap, self.ov, self.ovx, self.facts, self.pc = {}, {}, {}, {}, {}, []
        self.dead = False
        self.rc = {}

    def copy(self):
        s = State()
        s.env, s.heap, s.ov, s.ovx = dict(self.env), dict(self.heap), dict(self.ov), dict(self.ovx)
        s.facts, s.pc, s.dead = dict(self.facts), list(self.pc), self.dead
        s.rc = dict(self.rc)
        return s

    def become(self, o):
        for k in ('env', 'heap', 'ov', 'ovx', 'dead', 'rc'):
            setattr(self, k, getattr(o, k))

    def assume(self, c):
        if c is TRUE or c is FALSE:
            return
        self.pc.append(c)
        self._fact(c, True)

    def _fact(self, c, v):
        if c.op == 'not':
            return self._fact(c.args[0], not v)
        if c.op == 'and' and v:
            for x in c.args:
                self._fact(x, True)
        if c.op == 'or' and not v:
            for x in c.args:
                self._fact(x, False)
        self.facts[c] = const(v)
        if v and c.op in ('neg', 'pos', 'zero'):
            for o in ('neg', 'pos', 'zero'):
                if o != c.op:
                    self.facts.setdefault(mk(o, *c.args), FALSE)


class Event:
    __slots__ = ('kind', 'guard', 'data', 'node', 'fn', 'facts')

    def __init__(self, kind, guard, data, node, fn):
        self.kind, self.guard, self.data, self.node, self.fn = kind, guard, data, node, fn

    def where(self):
        f = self.fn.module.path if self.fn else '?'
        import os
        return '%s:%d (%s)' % (os.path.relpath(f, Program.ROOT), getattr(self.node, 'lineno', 0), self.fn.qual.split(':')[-1] if self.fn else '')


class Config:
    def __init__(self, opaque=(), hints=None, maxdepth=40, opaque_classes=(), inline_only=None, sinks=(), draws=(), arrays=False, elementwise=()):
        self.arrays, self.elementwise = arrays, frozenset(elementwise)
        self.draws = set(draws)
        self.opaque = set(opaque)              # 'Class.method' or 'func' or full qual
        self.opaque_classes = set(opaque_classes)
        self.hints = dict(DEFAULT_HINTS)
        if hints:
            self.hints.update(hints)
        self.maxdepth = maxdepth
        self.sinks = set(sinks)                # class names whose construction is opaque

    def is_opaque(self, fi):
        if fi.qual in self.opaque or fi.name in self.opaque and fi.cls is None:
            return True
        if fi.cls is not None:
            if fi.cls.name + '.' + fi.name in self.opaque or fi.cls.name in self.opaque_classes:
                return True
        return False


DEFAULT_HINTS = {
    'lens_cosmo': 'pyHalo.Halos.lens_cosmo:LensCosmo', '_lens_cosmo': 'pyHalo.Halos.lens_cosmo:LensCosmo',
    'lens_cosmo_instance': 'pyHalo.Halos.lens_cosmo:LensCosmo',
    'cosmo': 'pyHalo.Cosmology.cosmology:Cosmology', '_cosmo': 'pyHalo.Cosmology.cosmology:Cosmology',
    'cosmology': 'pyHalo.Cosmology.cosmology:Cosmology',
    'geometry': 'pyHalo.Cosmology.geometry:Geometry', '_geometry': 'pyHalo.Cosmology.geometry:Geometry',
    'geometry_class': 'pyHalo.Cosmology.geometry:Geometry',
    'realization': 'pyHalo.single_realization:Realization', '_realization': 'pyHalo.single_realization:Realization',
}

MAXUNROLL = 64


def undef_when(v):
    """condition under which a local variable has no value"""
    if v is UNDEF:
        return TRUE
    if v.op != 'ite':
        return FALSE
    a, b = undef_when(v.args[1]), undef_when(v.args[2])
    if a is FALSE and b is FALSE:
        return FALSE
    return ite(v.args[0], a, b)


class Interp:
    def __init__(self, prog, cfg=None):
        self.prog = prog
        self.cfg = cfg or Config()
        self.events = []
        self.base_heap = {}
        self.nid = [0]
        self.defaults = {}
        self.stack = []
        self.ivn = [0]
        self.excn = {}
        self.visited = set()     # FunctionInfo quals evaluated
        self.notes = []
        self.tags = {}           # T id -> class qual
        self.steps = 0
        self.maxsteps = 400000
        self.fn_tab = {}
        self.fns = {}
        self.owner = None
        self._free = {}
        self.on_call = None
        self.on_ometh = None
        self.on_ext = None
        self.preset_attrs = {}   # (opaque object, name) -> the value a check gives that attribute
        self.gcache = {}
        self.idents = {}         # heap refs that opaque calls see as an identity instead of a snapshot
        self.copied = set()      # symbolic values of which a deep copy was taken
        self.partial = set()

    # ------------------------------------------------------------ heap helpers
    def new(self, st, kind, cls=None, base=None, prov='fresh'):
        self.nid[0] += 1
        i = self.nid[0]
        st.heap[i] = Obj(kind, cls, base, prov)
        return mk('ref', i)

    def obj(self, st, ref):
        i = ref.args[0]
        o = st.heap.get(i)
        return o if o is not None else self.base_heap[i]

    def wobj(self, st, ref):
        i = ref.args[0]
        o = st.heap.get(i)
        if o is None:
            o = self.base_heap[i]
        o = o.clone()
        st.heap[i] = o
        return o

    def new_list(self, st, segs, prov='fresh', arr=False):
        r = self.new(st, 'list', prov=prov)
        st.heap[r.args[0]].segs = tuple(seq(segs).args)
        if arr:
            st.heap[r.args[0]].order = 'arr'
        return r

    def new_dict(self, st, items, base=None, prov='fresh'):
        r = self.new(st, 'dict', base=base, prov=prov)
        st.heap[r.args[0]].items = dict(items)
        return r

    def is_list(self, st, v):
        return v.op == 'ref' and self.obj(st, v).kind == 'list'

    def is_dict(self, st, v):
        return v.op == 'ref' and self.obj(st, v).kind == 'dict'

    # ------------------------------------------------------------ reify
    def reify(self, v, st, seen=(), memo=None):
        if memo is None:
            memo = {}
        if v in memo:
            return memo[v]
        if not self._has_ref(v):
            # overlay on symbolic objects
            if v.op in ('sym', 'attr', 'idx', 'meth', 'call') and st.ov:
                u = self._ov_snapshot(v, st, seen, memo)
                memo[v] = u
                return u
            memo[v] = v
            return v
        if v.op == 'ref':
            if v in seen:
                o = self.obj(st, v)
                return mk('cyc', o.cls.qual if o.cls else o.kind)
            o = self.obj(st, v)
            s2 = seen + (v,)
            if o.kind == 'list':
                r = seq([self.reify(s, st, s2, memo) for s in o.segs])
            elif o.kind == 'dict' or (o.kind == 'sym' and not o.fields and o.base is None):
                if o.base is None:
                    fl = []
                    for k in sorted(o.items, key=lambda k: show(k)):
                        fl += [self.reify(k, st, s2, memo), self.reify(o.items[k], st, s2, memo)]
                    r = mk('dict', *fl)
                else:
                    fl = []
                    for k in sorted(o.items, key=lambda k: show(k)):
                        x = self.reify(o.items[k], st, s2, memo)
                        if k.op == 'const':
                            key = '[]%r' % (k.args[0],)
                        else:
                            key = '[]?' + show(k)
                        fl += [key, x]
                    b = self.reify(o.base, st, s2, memo)
                    r = mk('upd', b, *fl) if fl else b
            elif o.kind == 'inst':
                fl = []
                for k in sorted(o.fields):
                    if o.fields[k] is ABSENT:
                        continue
                    fl += [k, self.reify(o.fields[k], st, s2, memo)]
                r = mk('inst', o.cls.qual if o.cls else '?', *fl)
            else:
                fl = []
                for k in sorted(o.fields):
                    fl += ['.' + k, self.reify(o.fields[k], st, s2, memo)]
                for k in sorted(o.items, key=lambda k: show(k)):
                    fl += ['[]%r' % (k.args[0],) if k.op == 'const' else '[]?' + show(k), self.reify(o.items[k], st, s2, memo)]
                b = self.reify(o.base, st, s2, memo)
                r = mk('upd', b, *fl) if fl else b
            memo[v] = r
            return r
        if v.op in ('bm', 'lm', 'sup'):
            r = mk(v.op, *[self.reify(a, st, seen, memo) if isinstance(a, T) else a for a in v.args])
            memo[v] = r
            return r
        r = rebuild(v, lambda a: self.reify(a, st, seen, memo))
        memo[v] = r
        return r

    def _ov_snapshot(self, v, st, seen, memo):
        # writes made to symbolic object v
        fl = []
        for (t, k), val in st.ov.items():
            if t is v and val is not None:
                fl.append((k, val))
        if not fl:
            if v.op == 'attr':
                b = self._ov_snapshot(v.args[0], st, seen, memo)
                return v if b is v.args[0] else attr(b, v.args[1])
            return v
        fl.sort(key=lambda p: p[0])
        out = []
        for k, val in fl:
            out += [k, self.reify(val, st, seen + (v,), memo) if val is not v and v not in seen else val]
        return mk('upd', v, *out)

    _hr = {}

    def _has_ref(self, v):
        r = self._hr.get(v)
        if r is None:
            r = v.op in ('ref',) or any(self._has_ref(a) for a in v.args if isinstance(a, T))
            self._hr[v] = r
        return r

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        if a.dead:
            return b
        if b.dead:
            return a
        s = a.copy()
        for k in set(a.env) | set(b.env):
            if k == '$parent':
                continue
            va, vb = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            if va is not vb:
                s.env[k] = self.mval(c, va, vb, s)
        if a.heap is not b.heap:
            for i in set(a.heap) | set(b.heap):
                oa, ob = a.heap.get(i), b.heap.get(i)
                if oa is ob:
                    continue
                if oa is None:
                    oa = self.base_heap.get(i)
                if ob is None:
                    ob = self.base_heap.get(i)
                if oa is None or ob is None:
                    s.heap[i] = oa or ob
                    continue
                s.heap[i] = self.merge_obj(c, oa, ob, s)
        for k in set(a.ov) | set(b.ov):
            va, vb = a.ov.get(k), b.ov.get(k)
            if va is not vb:
                if va is None:
                    va = self._base_read(k)
                if vb is None:
                    vb = self._base_read(k)
                s.ov[k] = ite(c, va, vb)
        for k in set(a.ovx) | set(b.ovx):
            va, vb = a.ovx.get(k), b.ovx.get(k)
            if va != vb:
                iv = (va or vb)[0]
                base = attr(idx(k[0], iv), k[1])
                xa = base if va is None else subst1(va[1], va[0], iv)
                xb = base if vb is None else subst1(vb[1], vb[0], iv)
                s.ovx[k] = (iv, ite(c, xa, xb))
        for k in set(a.rc) | set(b.rc):
            x, y = a.rc.get(k, 0), b.rc.get(k, 0)
            if isinstance(k, tuple) and k[0] == 'draw':
                s.rc[k] = ite(c, const(x) if isinstance(x, int) else x, const(y) if isinstance(y, int) else y)
            else:
                s.rc[k] = max(x, y)
        return s

    def _base_read(self, k):
        t, key = k
        if key.startswith('.'):
            if t.op == 'glob':
                r = self.prog.resolve(self.prog.modules[t.args[0]], key[1:])
                return unknown('global ' + key[1:]) if r is None else self.from_resolution(r, key[1:])
            return attr(t, key[1:])
        import ast as _a
        if key.startswith('[]') and not key.startswith('[]?'):
            return idx(t, const(_a.literal_eval(key[2:])))
        return unknown('merge of item')

    def mval(self, c, va, vb, s):
        return ite(c, va, vb)

    def merge_obj(self, c, oa, ob, s):
        o = oa.clone()
        if oa.kind != ob.kind:
            o.base = unknown('merged kinds')
            return o
        for k in set(oa.fields) | set(ob.fields):
            da = oa.fields.get(k)
            db = ob.fields.get(k)
            if da is None:
                da = attr(oa.base, k) if oa.base is not None else ABSENT
            if db is None:
                db = attr(ob.base, k) if ob.base is not None else ABSENT
            o.fields[k] = ite(c, da, db)
        for k in list(oa.items) + [k for k in ob.items if k not in oa.items]:
            da, db = oa.items.get(k), ob.items.get(k)
            if da is None:
                da = idx(oa.base, k) if oa.base is not None else ABSENT
            if db is None:
                db = idx(ob.base, k) if ob.base is not None else ABSENT
            o.items[k] = ite(c, da, db)
        if oa.segs != ob.segs and self.cfg.arrays and oa.order == ob.order == 'arr' and len(oa.segs) == len(ob.segs) \
                and all(x.op == 'item' for x in oa.segs + ob.segs):
            o.segs = tuple(mk('item', ite(c, x.args[0], y.args[0])) for x, y in zip(oa.segs, ob.segs))
        elif oa.segs != ob.segs:
            o.segs = tuple(seq_ite(c, mk('seq', *oa.segs), mk('seq', *ob.segs)).args)
        if oa.base is not ob.base:
            if oa.base is not None and ob.base is not None:
                o.base = ite(c, oa.base, ob.base)
            else:
                o.base = oa.base if oa.base is not None else ob.base
        return o

    # ------------------------------------------------------------ public entry
    def fresh_iv(self):
        self.ivn[0] += 1
        return mk('ivar', self.ivn[0])

    def event(self, kind, st, data, node=None):
        fn = self.stack[-1] if self.stack else None
        self.events.append(Event(kind, band(*st.pc), data, node, fn))

    def construct(self, ci, args, kwargs, st, node=None):
        if isinstance(ci, str):
            ci = self.prog.cls(ci)
        return self.instantiate(ci, list(args), list(kwargs.items()) if isinstance(kwargs, dict) else list(kwargs), st, node)

    def call(self, fi, args, st, kwargs=(), node=None):
        if isinstance(fi, str):
            fi = self.prog.func(fi)
        return self.invoke(fi, list(args), list(kwargs.items()) if isinstance(kwargs, dict) else list(kwargs), st, node)

    # ------------------------------------------------------------ sets
    @staticmethod
    def literal_set(v):
        """the members of a set whose elements are all constants, else None"""
        if v.op == 'call' and v.args[0] in ('set', 'frozenset') and all(k.op in ('const', 'num') for k in v.args[1].args) and not v.args[2].args:
            return frozenset(v.args[1].args)
        return None

    @staticmethod
    def set_term(items):
        return mk('call', 'set', mk('args', *sorted(items, key=lambda k: repr(k.args[0]))), mk('kw'))

    def set_compare(self, op, a, b):
        sa, sb = self.literal_set(a), self.literal_set(b)
        if sa is None or sb is None:
            return None
        for k, r in ((ast.Eq, sa == sb), (ast.NotEq, sa != sb), (ast.LtE, sa <= sb), (ast.Lt, sa < sb), (ast.GtE, sa >= sb), (ast.Gt, sa > sb)):
            if isinstance(op, k):
                return TRUE if r else FALSE
        return None

    def set_binop(self, op, a, b):
        sa, sb = self.literal_set(a), self.literal_set(b)
        if sa is None or sb is None:
            return None
        for k, r in ((ast.Sub, sa - sb), (ast.BitXor, sa ^ sb), (ast.BitAnd, sa & sb), (ast.BitOr, sa | sb)):
            if isinstance(op, k):
                return self.set_term(r)
        return None

    # ------------------------------------------------------------ truth
    def truth_of(self, v, st):
        if v.op == 'call':
            s = self.literal_set(v)
            if s is not None:
                return TRUE if s else FALSE
        if v.op == 'ref':
            o = self.obj(st, v)
            if o.kind == 'list':
                return truth(mk('seq', *o.segs))
            if o.kind == 'dict':
                if o.items:
                    return TRUE
                return truth(o.base) if o.base is not None else FALSE
            if o.kind == 'inst':
                return TRUE
            return truth(o.base) if o.base is not None else TRUE
        if v.op == 'ite':
            return ite(v.args[0], self.truth_of(v.args[1], st), self.truth_of(v.args[2], st))
        return truth(v)

    def known(self, c, st):
        if c is TRUE or c is FALSE or not st.facts:
            return c
        r = st.facts.get(c)
        if r is not None:
            return r
        if c.op in ('not', 'and', 'or', 'ite'):
            return rebuild(c, lambda a: self.known(a, st))
        return c

    def simplify_value(self, v, st):
        """drop gates decided by the current facts (top level only)"""
        n = 0
        while v.op == 'ite' and n < 50:
            c = self.known(v.args[0], st)
            if c is TRUE:
                v = v.args[1]
            elif c is FALSE:
                v = v.args[2]
            elif v.args[1] in (UNDEF, ABSENT):
                v = v.args[2]
            elif v.args[2] in (UNDEF, ABSENT):
                v = v.args[1]
            else:
                break
            n += 1
        return v

    def fork(self, st, c, fa, fb):
        c = self.known(c, st)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        sa, sb = st.copy(), st.copy()
        sa.assume(c)
        sb.assume(bnot(c))
        va = fa(sa)
        vb = fb(sb)
        if sa.dead and sb.dead:
            st.dead = True
            return mk('bottom')
        st.become(self.merge(c, sa, sb))
        if sa.dead:
            st.assume(bnot(c))
            return vb
        if sb.dead:
            st.assume(c)
            return va
        return ite(c, va, vb)

    # ------------------------------------------------------------ functions
    def invoke(self, fi, args, kwargs, st, node=None, selfv=None, closure=None, raw=False):
        """args: list of T or ('*',T); kwargs: list of (name|None, T)"""
        if selfv is not None:
            args = [selfv] + list(args)
        if self.on_call is not None:
            r = self.on_call(fi, args, kwargs, st, node)
            if r is not None:
                return r
        deep = len(self.stack) > self.cfg.maxdepth or sum(1 for f in self.stack if f is fi) >= 3
        self.steps += 1
        if self.cfg.is_opaque(fi) or deep or self.steps > self.maxsteps:
            if fi.cls is not None and args and isinstance(args[0], T) and args[0].op == 'ref':
                self.partial.add(args[0])       # the method may have set attributes
            return self.opaque_call(fi, args, kwargs, st, node)
        env = self.bind(fi, args, kwargs, st, node)
        self.visited.add(fi.qual)
        return self.run(fi, env, st, closure)

    def run(self, fi, env, st, closure=None):
        inner = State()
        inner.env = env
        if closure is not None:
            inner.env['$parent'] = closure
        inner.heap, inner.ov, inner.ovx, inner.facts, inner.rc = st.heap, st.ov, st.ovx, dict(st.facts), st.rc
        inner.pc = list(st.pc)
        base = len(inner.pc)
        self.stack.append(fi)
        owner = self.owner
        if fi.cls is not None and fi.params and env.get(fi.params[0]) in self.idents:
            self.owner = self.idents[env[fi.params[0]]]
        try:
            body = fi.node.body if not isinstance(fi.node, ast.Lambda) else [ast.Return(value=fi.node.body, lineno=fi.node.lineno, col_offset=0)]
            ft, exits = self.block(body, inner)
        finally:
            self.owner = owner
            self.stack.pop()
        outs = [(v, s) for k, v, s in exits if k == 'return']
        if ft is not None:
            outs.append((NONE, ft))
        if not outs:
            st.dead = True
            return mk('bottom')
        v, s = outs[-1]
        for v2, s2 in reversed(outs[:-1]):
            g = band(*s2.pc[base:])
            g2 = band(*s.pc[base:]) if s is outs[-1][1] else None
            s_m = self.merge(g, _noenv(s2), _noenv(s))
            v = ite(g, v2, v)
            s = s_m
        st.heap, st.ov, st.ovx, st.rc = s.heap, s.ov, s.ovx, s.rc
        if len(outs) == 1:
            # all other paths raised: facts hold afterwards
            for c in outs[0][1].pc[base:]:
                st.assume(c)
        return v

    def default_value(self, fi, name, st):
        key = (fi.qual, name)
        if key not in self.defaults:
            node = fi.defaults[name]
            s = State()
            self.stack.append(fi)
            try:
                v = self.eval(node, s)
            finally:
                self.stack.pop()
            for i, o in s.heap.items():
                o.prov = 'default:%s:%s' % (fi.qual, name)
                self.base_heap[i] = o
            self.defaults[key] = v
        return self.defaults[key]

    def expand_args(self, args, kwargs, st):
        pos, star = [], None
        for a in args:
            if isinstance(a, tuple):
                v = self.simplify_value(a[1], st)
                segs = self.segs_of(v, st)
                if segs is not None and all(s.op == 'item' for s in segs) and star is None:
                    pos.extend(s.args[0] for s in segs)
                else:
                    star = v
            elif star is None:
                pos.append(a)
        kw, bases = {}, []
        for k, v in kwargs:
            if k is not None:
                kw[k] = v
                continue
            v = self.simplify_value(v, st)
            self.expand_kw(v, kw, bases, st)
        return pos, star, kw, bases

    def expand_kw(self, v, kw, bases, st):
        if v is NONE:
            return
        if v.op == 'ref':
            o = self.obj(st, v)
            if o.base is not None:
                self.expand_kw(o.base, kw, bases, st)
            for key, val in o.items.items():
                if key.op == 'const' and isinstance(key.args[0], str):
                    kw[key.args[0]] = val
            return
        if v.op == 'dict':
            for a, b in zip(v.args[0::2], v.args[1::2]):
                if a.op == 'const':
                    kw[a.args[0]] = b
            return
        if v.op == 'upd':
            self.expand_kw(v.args[0], kw, bases, st)
            for a, b in zip(v.args[1::2], v.args[2::2]):
                if a.startswith('[]') and not a.startswith('[]?'):
                    kw[ast.literal_eval(a[2:])] = b
            return
        if v.op == 'ite':
            ka, ba, kb, bb = {}, [], {}, []
            self.expand_kw(v.args[1], ka, ba, st)
            self.expand_kw(v.args[2], kb, bb, st)
            c = v.args[0]
            for k in list(ka) + [k for k in kb if k not in ka]:
                xa = ka.get(k) or (idx(ba[0], const(k)) if ba else ABSENT)
                xb = kb.get(k) or (idx(bb[0], const(k)) if bb else ABSENT)
                kw[k] = ite(c, xa, xb)
            if ba or bb:
                bases.append(ite(c, ba[0] if ba else mk('dict'), bb[0] if bb else mk('dict')))
            return
        bases.append(v)
        for (t, k), val in st.ov.items():
            if t is v and k.startswith('[]') and not k.startswith('[]?'):
                kk = ast.literal_eval(k[2:])
                if isinstance(kk, str):
                    kw[kk] = val

    def bind(self, fi, args, kwargs, st, node=None):
        pos, star, kw, bases = self.expand_args(args, kwargs, st)
        env = {}
        params = fi.params
        for i, p in enumerate(params):
            if i < len(pos):
                env[p] = pos[i]
        if len(pos) > len(params) and not fi.vararg:
            self.event('badcall', st, ('too many positional arguments', fi), node)
        n = 0
        for i, p in enumerate(params + fi.kwonly):
            if p in env:
                if p in kw:
                    self.event('badcall', st, ('multiple values for %s' % p, fi), node)
                continue
            if star is not None and p in params:
                env[p] = idx(star, num(n))
                n += 1
                continue
            dv = None
            if p in kw:
                v = kw.pop(p)
                if v.op == 'ite' and (v.args[1] is ABSENT or v.args[2] is ABSENT):
                    d = self.default_value(fi, p, st) if p in fi.defaults else UNDEF
                    v = ite(v.args[0], d if v.args[1] is ABSENT else v.args[1], d if v.args[2] is ABSENT else v.args[2])
                env[p] = v
                continue
            if p in fi.defaults:
                dv = self.default_value(fi, p, st)
                if bases:
                    b = bases[-1]
                    env[p] = ite(mk('in', const(p), b), idx(b, const(p)), dv)
                else:
                    env[p] = dv
            elif bases:
                env[p] = idx(bases[-1], const(p))
            else:
                self.event('badcall', st, ('missing argument %s' % p, fi), node)
                env[p] = unknown('missing argument')
        if fi.vararg:
            extra = pos[len(params):]
            segs = [item(x) for x in extra]
            if star is not None:
                segs.append(splice(star))
            env[fi.vararg] = mk('tup', *extra) if star is None else seq(segs)
        extra_kw = {k: v for k, v in kw.items() if k not in params and k not in fi.kwonly}
        if fi.kwarg:
            b = None
            if bases:
                b = bases[0] if len(bases) == 1 else mk('call', 'dictmerge', mk('args', *bases), mk('kw'))
            env[fi.kwarg] = self.new_dict(st, {const(k): v for k, v in extra_kw.items()}, base=b)
        elif extra_kw:
            self.event('badcall', st, ('unexpected keyword %s' % ', '.join(sorted(extra_kw)), fi), node)
        return env

    def draw(self, r, st):
        k = ('draw', r, self.owner)
        n = st.rc.get(k, 0)
        if isinstance(n, T):
            n = self.simplify_value(n, st)

        def inc(t):
            if isinstance(t, T) and t.op == 'ite':
                return ite(t.args[0], inc(t.args[1]), inc(t.args[2]))
            return const(int(t.args[0]) + 1) if isinstance(t, T) else t + 1
        st.rc[k] = inc(n)
        if not isinstance(n, T):
            n = const(n)
        return mk('rnd', 'draw', mk('args', r) if self.owner is None else mk('args', r, self.owner), mk('kw'), n)

    def opaque_call(self, fi, args, kwargs, st, node=None):
        env = self.bind(fi, args, kwargs, st, node)
        memo = dict(self.idents)
        vals = [self.reify(env[p], st, (), memo) for p in fi.params + fi.kwonly]
        if fi.vararg and not (env[fi.vararg].op == 'tup' and not env[fi.vararg].args):
            vals.append(self.reify(env[fi.vararg], st, (), memo))
        if fi.kwarg:
            o = self.obj(st, env[fi.kwarg])
            if o.items or o.base is not None:
                vals.append(self.reify(env[fi.kwarg], st, (), memo))
        if fi.cls is not None and fi.kind in ('func', 'property', 'cached_property') and vals:
            r = mk('meth', vals[0], fi.name, mk('args', *vals[1:]), mk('kw'))
        else:
            r = mk('call', 'fn:' + fi.name, mk('args', *vals), mk('kw'))
        if fi.name in self.cfg.draws:
            r = self.draw(r, st)
        self.event('opaque', st, (fi, r), node)
        return r

    def instantiate(self, ci, args, kwargs, st, node=None):
        if ci.name in self.cfg.sinks or ci.qual in self.cfg.sinks or ci.name in self.cfg.opaque_classes:
            init = self.prog.lookup(ci, '__init__')
            memo = {}
            if init is None:
                return mk('call', 'new:' + ci.name, mk('args'), mk('kw'))
            env = self.bind(init, [NONE] + list(args), kwargs, st, node)
            vals = []
            for p in (init.params + init.kwonly)[1:]:
                vals += [p, self.reify(env[p], st, (), memo)]
            if init.kwarg:
                o = self.obj(st, env[init.kwarg])
                if o.items or o.base is not None:
                    vals += ['**', self.reify(env[init.kwarg], st, (), memo)]
            r = mk('call', 'new:' + ci.name, mk('args'), mk('kw', *vals))
            self.event('new', st, (ci, r), node)
            return r
        ref = self.new(st, 'inst', cls=ci)
        init = self.prog.lookup(ci, '__init__')
        if init is not None:
            self.invoke(init, [ref] + list(args), kwargs, st, node)
        elif self.prog.has_ext_base(ci):
            pass
        elif args or kwargs:
            self.event('badcall', st, ('constructor takes no arguments', ci), node)
        if st.dead:
            return mk('bottom')
        self.event('new', st, (ci, ref), node)
        return ref

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        exits = []
        for s in stmts:
            if st is None:
                break
            st, ex = self.stmt(s, st)
            exits.extend(ex)
        return st, exits

    def stmt(self, s, st):
        st.dead = False
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.notes.append('statement %s' % type(s).__name__)
            return st, []
        r = m(s, st)
        if r is None:
            r = (st, [])
        out, ex = r
        if out is not None and out.dead:
            self.event('raise-through', out, None, s)
            return None, ex
        return out, ex

    def s_Pass(self, s, st):
        return None

    def s_Global(self, s, st):
        for n in s.names:
            st.env['global ' + n] = mk('glob', self.stack[-1].module.name)
        return None

    s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, st)

    def s_Assert(self, s, st):
        c = self.truth_of(self.eval(s.test, st), st)
        c = self.known(c, st)
        if c is FALSE:
            self.event('raise', st, ('AssertionError', NONE), s)
            return None, [('raise', const('AssertionError'), st)]
        sb = st.copy()
        sb.assume(bnot(c))
        self.event('raise', sb, ('AssertionError', NONE), s)
        st.assume(c)

    def s_Raise(self, s, st):
        name = '?'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else (e.attr if isinstance(e, ast.Attribute) else '?')
        self.event('raise', st, (name, NONE), s)
        return None, [('raise', const(name), st)]

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.dead:
            return st, []
        return None, [('return', v, st)]

    def s_Break(self, s, st):
        return None, [('break', NONE, st)]

    def s_Continue(self, s, st):
        return None, [('continue', NONE, st)]

    def s_FunctionDef(self, s, st):
        mod = self.stack[-1].module
        fi = FunctionInfo(s.name, s, mod, None, 'func', parent=self.stack[-1])
        st.env[s.name] = self.fn_value(fi, st.env, st)

    def fn_value(self, fi, closure, st):
        free = self._free.get(fi.node)
        if free is None:
            free = self._free[fi.node] = sorted({n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name) and n.id != fi.name}
                                              - {a.arg for a in ast.walk(fi.node) if isinstance(a, ast.arg)}
                                              - {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        key = 'lam:%s:%d:%d' % (fi.module.name, fi.node.lineno, fi.node.col_offset)
        cap = []
        for n in free:
            if n in closure:
                cap += [n, self.reify(closure[n], st, (), dict(self.idents))]
        t = mk('lam', key, *cap)
        self.fns[t] = self.fns[key] = (fi, closure)
        return t

    def s_Import(self, s, st):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.env[n] = mk('mod', full) if full in self.prog.paths else mk('ext', full)

    def s_ImportFrom(self, s, st):
        mod = self.prog.absmod(self.stack[-1].module, s)
        for a in s.names:
            r = self.prog.resolve_from(mod, a.name)
            if r is None:
                self.event('badimport', st, (mod, a.name), s)
            st.env[a.asname or a.name] = self.from_resolution(r, a.name)

    def from_resolution(self, r, name):
        if r is None:
            return unknown('unresolved name ' + name)
        k, p = r[0], r[1]
        if k == 'func':
            return self.fref(p)
        if k == 'class':
            return mk('cls', p.qual)
        if k == 'mod':
            return mk('mod', p)
        if k == 'ext':
            return self.ext_value(p)
        if k == 'assign':
            return self.global_value(p, name)

    def fref(self, fi):
        self.fn_tab[fi.qual] = fi
        return mk('fn', fi.qual)

    EXTCONST = {'numpy.pi': PI, 'math.pi': PI, 'numpy.e': EUL, 'math.e': EUL, 'numpy.inf': num(float('inf')), 'math.inf': num(float('inf')),
                'scipy.pi': PI}

    def ext_value(self, p):
        if p in self.EXTCONST:
            return self.EXTCONST[p]
        return mk('ext', p)

    def global_value(self, payload, name):
        m, target, stmt = payload
        if (m.name, name) in self.gcache:
            return self.gcache[(m.name, name)]
        self.gcache[(m.name, name)] = unknown('recursive global')
        s = State()
        fi = FunctionInfo('<module>', _dummy_fn(), m)
        self.stack.append(fi)
        try:
            if isinstance(stmt, ast.Assign):
                v = self.eval(stmt.value, s)
                self.assign(target, v, s)
                v = s.env.get(name, unknown('global ' + name))
            else:
                v = unknown('global ' + name)
        finally:
            self.stack.pop()
        for i, o in s.heap.items():
            o.prov = 'global:%s:%s' % (m.name, name)
            self.base_heap[i] = o
        self.gcache[(m.name, name)] = v
        return v

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def s_AugAssign(self, s, st):
        load = _as_load(s.target)
        old = self.eval(load, st)
        val = self.eval(s.value, st)
        if old.op == 'ref':
            o = self.obj(st, old)
            if o.kind == 'list' and isinstance(s.op, ast.Add):
                self.list_extend(old, val, st, s)
                return
        if old.op == 'ite' and isinstance(s.op, ast.Add) and any(self.is_list(st, x) for x in old.args[1:]):
            self.list_extend(old, val, st, s)
            return
        if not isinstance(s.target, ast.Name):
            pass
        else:
            self.event('augname', st, (s.target.id, old), s)
        v = self.binop(s.op, old, val, st)
        self.assign(s.target, v, st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                self.del_attr(o, t.attr, st, s)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.del_item(o, k, st, s)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)

    def del_attr(self, o, name, st, node):
        for c, r in self.cases(o):
            if r.op == 'ref':
                w = self.wobj(st, r)
                old = w.fields.get(name, ABSENT)
                w.fields[name] = ite(c, ABSENT, old)
            else:
                self.mutated(r, '.' + name, st, node)
                st.ov[(r, '.' + name)] = ABSENT

    def del_item(self, o, k, st, node):
        for c, r in self.cases(o):
            if r.op == 'idict':
                if k.op == 'const' and c is TRUE:
                    self.del_attr(r.args[0], k.args[0], st, node)
                else:
                    self.idict_method(r, 'del', [], [], st, node)
                continue
            self.mutated(r, 'del item', st, node, k)
            if r.op == 'ref':
                w = self.wobj(st, r)
                if w.kind == 'list':
                    i = self._concrete_index(w, k)
                    if i is not None and c is TRUE:
                        sg = list(w.segs)
                        del sg[i]
                        w.segs = tuple(sg)
                    else:
                        w.segs = (splice(unknown('del list item', mk('seq', *w.segs), k)),)
                else:
                    old = w.items.get(k, idx(w.base, k) if w.base is not None else ABSENT)
                    w.items[k] = ite(c, ABSENT, old)

    def _concrete_index(self, o, k):
        if k.op == 'num' and all(s.op == 'item' for s in o.segs) and -len(o.segs) <= k.args[0] < len(o.segs):
            return int(k.args[0])
        return None

    def cases(self, v, g=TRUE):
        """decompose gated references: yields (guard, leaf)"""
        if v.op == 'ite':
            yield from self.cases(v.args[1], band(g, v.args[0]))
            yield from self.cases(v.args[2], band(g, bnot(v.args[0])))
        elif v not in (UNDEF, ABSENT):
            yield g, v

    def mutated(self, v, what, st, node, key=None):
        """record a write to an object that existed before the analysed call"""
        if v.op == 'ref':
            o = self.obj(st, v)
            if o.prov != 'fresh':
                self.event('mutate', st, (o.prov, what, key, v), node)
            self.event('write', st, (v, what, key), node)
        else:
            self.event('mutate', st, (v, what, key, v), node)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            g = st.env.get('global ' + t.id)
            if g is not None:
                st.ov[(g, '.' + t.id)] = v
            else:
                st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                segs = self.segs_of(v, st)
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = n - k - 1
                if segs is not None and all(s.op == 'item' for s in segs) and len(segs) >= n - 1:
                    vals = [s.args[0] for s in segs]
                    for e, x in zip(t.elts[:k], vals[:k]):
                        self.assign(e, x, st)
                    self.assign(t.elts[k].value, self.new_list(st, [item(x) for x in vals[k:len(vals) - after]]), st)
                    for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                        self.assign(e, x, st)
                else:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, unknown('star unpack', self.reify(v, st)), st)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.get_item(v, num(i), st), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.set_attr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            if isinstance(t.slice, ast.Slice):
                k = self.e_Slice(t.slice, st)
            else:
                k = self.eval(t.slice, st)
            self.set_item(o, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def set_attr(self, o, name, v, st, node):
        for c, r in self.cases(self.simplify_value(o, st)):
            if r.op == 'ref':
                ob = self.obj(st, r)
                if ob.kind == 'inst' and ob.cls is not None:
                    ps = self.prog.lookup_setter(ob.cls, name)
                    if ps is not None:
                        self.fork(st, c, lambda s, ps=ps, r=r: self.invoke(ps, [r, v], [], s, node), lambda s: NONE)
                        continue
                if ob.prov != 'fresh':
                    self.mutated(r, '.' + name, st, node)
                else:
                    self.event('write', st, (r, '.' + name, None), node)
                w = self.wobj(st, r)
                old = w.fields.get(name, attr(w.base, name) if w.base is not None else ABSENT)
                w.fields[name] = ite(c, v, old)
            else:
                self.mutated(r, '.' + name, st, node)
                k = (r, '.' + name)
                st.ov[k] = ite(c, v, st.ov.get(k, self._base_read(k))) if c is not TRUE else v

    def set_item(self, o, k, v, st, node):
        o = self.simplify_value(o, st)
        for c, r in self.cases(o):
            if r.op == 'idict':
                old = self.idict_get(r, k, ABSENT, st, node)
                if k.op == 'const':
                    self.set_attr(r.args[0], k.args[0], v if c is TRUE else ite(c, v, old), st, node)
                continue
            if r.op == 'ref':
                self.mutated(r, '[]', st, node, k)
                w = self.wobj(st, r)
                if self.cfg.arrays and w.kind == 'list' and k.op not in ('num', 'const'):
                    new = arrays.set_item(self, r, k, v, st)
                    old = arrays.entries(self, r, st)
                    if new is not None:
                        if c is not TRUE and old is not None and len(old) == len(new):
                            new = [(TRUE, arrays.merge(self, c, y, z, st)) for (_, y), (_, z) in zip(new, old)]
                        w.segs = tuple(item(y) for _, y in new)
                        continue
                if w.kind == 'list':
                    i = self._concrete_index(w, k)
                    if i is not None:
                        sg = list(w.segs)
                        sg[i] = item(ite(c, v, sg[i].args[0]))
                        w.segs = tuple(sg)
                    elif k.op in BOOLOPS or k.op in ('truth',):
                        whole = mk('seq', *w.segs)
                        w.segs = (splice(ite(band(c, k), self.reify(v, st), whole)),)
                    else:
                        w.segs = (splice(mk('call', 'setitem', mk('args', mk('seq', *w.segs), self.reify(k, st), self.reify(v, st)), mk('kw'))),)
                else:
                    old = w.items.get(k, idx(w.base, k) if w.base is not None else ABSENT)
                    w.items[k] = ite(c, v, old)
            else:
                if k.op == 'const' and isinstance(k.args[0], str):
                    self.mutated(r, '[]', st, node, k)
                    key = (r, '[]%r' % (k.args[0],))
                    st.ov[key] = ite(c, v, st.ov.get(key, self._base_read(key))) if c is not TRUE else v
                else:
                    if self.cfg.arrays and isinstance(node, ast.Subscript):
                        new = arrays.set_item(self, r, k, v, st)
                        if new is not None:
                            nv = arrays.build(self, new, st)
                            self.rebind(node.value, r, nv if c is TRUE else ite(c, nv, r), st)
                            continue
                    # array store: value update, rebinding the syntactic base
                    self.event('arraystore', st, (r, k, v), node)
                    kk = self.reify(k, st)
                    vv = self.reify(v, st)
                    if vv.op == 'idx' and vv.args[1] is kk:
                        vv = vv.args[0]
                    if kk.op in BOOLOPS:
                        new = ite(kk, self.unmask(vv, kk), r)
                    else:
                        new = mk('call', 'setitem', mk('args', r, kk, vv), mk('kw'))
                    if isinstance(node, ast.Subscript):
                        self.rebind(node.value, r, ite(c, new, r), st)

    def unmask(self, v, k):
        """a[k] used as elementwise value under mask k is a itself"""
        return subst(v, lambda t: t.args[0] if t.op == 'idx' and t.args[1] is k else None)

    def rebind(self, base, old, new, st):
        if isinstance(base, ast.Name):
            cur = st.env.get(base.id)
            if cur is old:
                st.env[base.id] = new
            elif cur is not None:
                st.env[base.id] = subst1(cur, old, new)
            # aliases in this frame
        elif isinstance(base, ast.Attribute):
            o = self.eval(base.value, st)
            self.set_attr(o, base.attr, new, st, base)

    def s_If(self, s, st):
        c = self.known(self.truth_of(self.eval(s.test, st), st), st)
        if st.dead:
            return st, []
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        sa, sb = st.copy(), st
        sb2 = st.copy()
        sa.assume(c)
        sb2.assume(bnot(c))
        ra, ea = self.block(s.body, sa)
        rb, eb = self.block(s.orelse, sb2)
        ex = ea + eb
        if ra is None:
            return rb, ex
        if rb is None:
            return ra, ex
        m = self.merge(c, ra, rb)
        m.pc = _common(ra.pc, rb.pc, st.pc, c)
        m.facts = {k: v for k, v in ra.facts.items() if rb.facts.get(k) is v}
        return m, ex

    def s_With(self, s, st):
        for i in s.items:
            v = self.eval(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        rb, ex = self.block(s.body, st)
        caught = [e for e in ex if e[0] == 'raise']
        other = [e for e in ex if e[0] != 'raise']
        if rb is not None and s.orelse:
            rb, ex2 = self.block(s.orelse, rb)
            other += ex2
        if not s.handlers:
            other += caught
            r = rb
        else:
            names = []
            for h in s.handlers:
                if h.type is None:
                    names.append('*')
                else:
                    names.append(ast.unparse(h.type))
            nm = '|'.join(names)
            k = self.excn.get(nm, 0)
            self.excn[nm] = k + 1
            # a body that cannot complete always reaches a handler
            g = TRUE if rb is None and not other else mk('exc', nm, k)
            hs = pre.copy()
            hs.assume(g)
            rh = None
            for h in s.handlers:
                h2 = hs.copy()
                if h.name:
                    h2.env[h.name] = sym('exception')
                r1, e1 = self.block(h.body, h2)
                other += e1
                if rh is None:
                    rh = r1
                elif r1 is not None:
                    rh = self.merge(g, rh, r1)
            if rb is None:
                r = rh
            elif rh is None:
                r = rb
            else:
                r = self.merge(g, rh, rb)
                r.pc = list(pre.pc)
                r.facts = dict(pre.facts)
        if s.finalbody and r is not None:
            r, e3 = self.block(s.finalbody, r)
            other += e3
        return r, other

    # ------------------------------------------------------------ loops
    def segs_of(self, v, st):
        """segments of a sequence value, or None"""
        if v.op == 'idict':
            return [y for c, k in self.idict_names(v, st) for y in cond_seg(c, [item(const(k))])]
        if v.op == 'ref':
            o = self.obj(st, v)
            if o.kind == 'list':
                return list(o.segs)
            if o.kind == 'dict' and o.base is None:
                return [y for k, x in o.items.items() if self.present(x) is not FALSE for y in cond_seg(self.present(x), [item(k)])]
            return None
        if v.op == 'tup':
            return [item(x) for x in v.args]
        if v.op == 'seq':
            return list(v.args)
        if v.op == 'const' and isinstance(v.args[0], str):
            return [item(const(ch)) for ch in v.args[0]] if len(v.args[0]) < 20 else None
        if v.op == 'dict':
            return [item(k) for k in v.args[0::2]]
        return None

    def loop_elems(self, node, st):
        """-> ('concrete', [T]) | ('sym', n, fn(iv, st)->T)"""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id not in st.env:
            f = node.func.id
            if f == 'enumerate' and node.args:
                r = self.loop_elems(node.args[0], st)
                start = ZERO
                if len(node.args) > 1:
                    start = self.eval(node.args[1], st)
                for kw in node.keywords:
                    if kw.arg == 'start':
                        start = self.eval(kw.value, st)
                if r[0] == 'concrete':
                    return ('concrete', [mk('tup', add(num(i), start), x) for i, x in enumerate(r[1])])
                if r[0] == 'condc':
                    return ('condc', self.ranked(r[1], start))
                return ('sym', r[1], lambda iv, s, r=r: mk('tup', add(iv, start), r[2](iv, s)))
            if f == 'zip':
                rs = [self.loop_elems(a, st) for a in node.args if not isinstance(a, ast.Starred)]
                if len(rs) == len(node.args) and rs:
                    if all(r[0] == 'concrete' for r in rs):
                        return ('concrete', [mk('tup', *xs) for xs in zip(*[r[1] for r in rs])])
                    z = self.zip_condc(rs)
                    if z is not None:
                        return z
                    sy = [r for r in rs if r[0] == 'sym']
                    if len(sy) == len(rs):
                        ns = sorted({r[1] for r in sy}, key=lambda t: t.id)
                        return ('sym', rs[0][1], lambda iv, s: mk('tup', *[r[2](iv, s) for r in rs]))
            if f == 'reversed' and node.args:
                r = self.loop_elems(node.args[0], st)
                if r[0] == 'concrete':
                    return ('concrete', r[1][::-1])
                if r[0] == 'condc':
                    return ('condc', r[1][::-1])
                n = r[1]
                return ('sym', n, lambda iv, s: r[2](sub(sub(n, ONE), iv), s))
            if f == 'range':
                args = [self.eval(a, st) for a in node.args]
                return self.range_elems(args)
        return self.iter_value(self.eval(node, st), st)

    def ranked(self, es, start):
        out, n = [], start
        for c, v in es:
            out.append((c, mk('tup', n, v)))
            n = add(n, ite(c, ONE, ZERO))
        return out

    def zip_condc(self, rs):
        """zip of conditional lists with identical conditions"""
        if not rs or not all(r[0] in ('condc', 'concrete') for r in rs) or all(r[0] == 'concrete' for r in rs):
            return None
        es = [r[1] if r[0] == 'condc' else [(TRUE, x) for x in r[1]] for r in rs]
        if any(len(e) != len(es[0]) or any(x[0] is not y[0] for x, y in zip(e, es[0])) for e in es):
            return None
        return ('condc', [(xs[0][0], mk('tup', *[x[1] for x in xs])) for xs in zip(*es)])

    def range_elems(self, args):
        a, b, c = ZERO, None, ONE
        if len(args) == 1:
            b = args[0]
        elif len(args) >= 2:
            a, b = args[0], args[1]
            if len(args) > 2:
                c = args[2]
        if b is not None and a.op == b.op == c.op == 'num' and all(x.args[0].denominator == 1 for x in (a, b, c)):
            r = range(int(a.args[0]), int(b.args[0]), int(c.args[0]))
            if len(r) <= MAXUNROLL:
                return ('concrete', [num(i) for i in r])
        if b is None:
            return ('sym', unknown('range'), lambda iv, s: iv)
        if self.cfg.arrays and a is ZERO and c is ONE:
            gs = count_of(b)
            if gs:
                return ('condc', [(x, y.args[0]) for x, y in self.ranked([(g, TRUE) for g in gs], ZERO)])
        n = sub(b, a)
        if c is not ONE:
            n = mk('call', 'ceil', mk('args', div(n, c)), mk('kw'))
        return ('sym', n, lambda iv, s: add(a, mul(c, iv)))

    def iter_value(self, v, st):
        v = self.simplify_value(v, st)
        if v.op == 'call' and v.args[0] == 'range':
            return self.range_elems(list(v.args[1].args))
        if v.op == 'call' and v.args[0] == 'enumerate':
            r = self.iter_value(v.args[1].args[0], st)
            if r[0] == 'concrete':
                return ('concrete', [mk('tup', num(i), x) for i, x in enumerate(r[1])])
            if r[0] == 'condc':
                return ('condc', self.ranked(r[1], ZERO))
            return ('sym', r[1], lambda iv, s: mk('tup', iv, r[2](iv, s)))
        if v.op == 'call' and v.args[0] == 'zip':
            rs = [self.iter_value(a, st) for a in v.args[1].args]
            if rs and all(r[0] == 'concrete' for r in rs):
                return ('concrete', [mk('tup', *xs) for xs in zip(*[r[1] for r in rs])])
            z = self.zip_condc(rs)
            if z is not None:
                return z
            if rs and all(r[0] == 'sym' for r in rs):
                return ('sym', rs[0][1], lambda iv, s: mk('tup', *[r[2](iv, s) for r in rs]))
        segs = self.segs_of(v, st)
        if segs is not None:
            if all(s.op == 'item' for s in segs) and len(segs) <= MAXUNROLL:
                return ('concrete', [s.args[0] for s in segs])
            if self.cfg.arrays and len(segs) <= MAXUNROLL:
                es = arrays.entries(self, mk('seq', *segs), st)
                if es is not None:
                    return ('condc', es)
            sv = mk('seq', *segs)
            if len(segs) == 1 and segs[0].op == 'splice':
                t = segs[0].args[0]
                return ('sym', length(t), lambda iv, s: self.elem(t, iv, s))
            if len(segs) == 1 and segs[0].op == 'each' and len(segs[0].args) == 3 and segs[0].args[2].op == 'item':
                n, lvl, it = segs[0].args
                return ('sym', n, lambda iv, s: subst1(it.args[0], mk('bvar', lvl), iv))
            return ('sym', length(sv), lambda iv, s: self.elem(sv, iv, s))
        return ('sym', length(v), lambda iv, s: self.elem(v, iv, s))

    def elem(self, t, iv, st):
        return self.get_item(t, iv, st)

    def s_For(self, s, st):
        r = self.loop_elems(s.iter, st)
        exits = []
        if r[0] in ('concrete', 'condc'):
            brk = []
            cur = st
            base = len(st.pc)
            for x in r[1]:
                if cur is None:
                    break
                if r[0] == 'condc':
                    gc, x = self.known(x[0], cur), x[1]
                    if gc is FALSE:
                        continue
                    cur, ex = self.guarded_body(s, cur, gc, x)
                else:
                    self.assign(s.target, x, cur)
                    cur, ex = self.block(s.body, cur)
                conts = [e for e in ex if e[0] == 'continue']
                brk += [e[2] for e in ex if e[0] == 'break']
                exits += [e for e in ex if e[0] not in ('continue', 'break')]
                for _, _, sc in conts:
                    cur = sc if cur is None else self.merge_exit(sc, cur, base)
            if cur is not None and s.orelse:
                cur, ex = self.block(s.orelse, cur)
                exits += ex
            for sb in reversed(brk):
                cur = sb if cur is None else self.merge_exit(sb, cur, base)
            return cur, exits
        return self.sym_loop(s, st, r[1], r[2])

    def guarded_body(self, s, st, c, x):
        """one unrolled iteration that happens only under c"""
        if c is TRUE:
            self.assign(s.target, x, st)
            return self.block(s.body, st)
        sa, sb = st.copy(), st.copy()
        sa.assume(c)
        sb.assume(bnot(c))
        self.assign(s.target, x, sa)
        ra, ex = self.block(s.body, sa)
        if ra is None:
            return sb, ex
        m = self.merge(c, ra, sb)
        m.pc = _common(ra.pc, sb.pc, st.pc, c)
        m.facts = {k: v for k, v in ra.facts.items() if sb.facts.get(k) is v}
        return m, ex

    def merge_exit(self, sx, cur, base):
        g = band(*sx.pc[base:])
        m = self.merge(g, sx, cur)
        m.pc = list(sx.pc[:base])
        m.facts = {k: v for k, v in sx.facts.items() if cur.facts.get(k) is v}
        return m

    def loop_body(self, s, st, iv, elemfn):
        s1 = st.copy()
        base = len(s1.pc)
        self.assign(s.target, elemfn(iv, s1), s1)
        cur, ex = self.block(s.body, s1)
        rets, brks = [], []
        for k, v, se in ex:
            if k == 'continue':
                cur = se if cur is None else self.merge_exit(se, cur, base)
            elif k == 'break':
                brks.append(se)
            else:
                rets.append((k, v, se))
        return cur, rets, brks, base

    def changed(self, pre, post):
        locs = []
        for k in post.env:
            if k != '$parent' and k in pre.env and pre.env.get(k) is not post.env.get(k):
                locs.append(('env', k))
            elif k not in pre.env and k != '$parent':
                locs.append(('newenv', k))
        for i, o in post.heap.items():
            p = pre.heap.get(i)
            if p is None:
                p = self.base_heap.get(i)
                if p is None:
                    continue
            if p is o:
                continue
            if p.segs != o.segs:
                locs.append(('segs', i))
            for f in o.fields:
                if p.fields.get(f) is not o.fields[f]:
                    locs.append(('field', i, f))
            for f in o.items:
                if p.items.get(f) is not o.items[f]:
                    locs.append(('item', i, f))
        for k, v in post.ov.items():
            if pre.ov.get(k) is not v:
                locs.append(('ov', k))
        return locs

    def get_loc(self, st, l):
        if l[0] == 'env':
            return st.env.get(l[1], UNDEF)
        if l[0] == 'ov':
            return st.ov.get(l[1], self._base_read(l[1]))
        o = st.heap.get(l[1]) or self.base_heap.get(l[1])
        if l[0] == 'segs':
            return mk('seq', *o.segs)
        if l[0] == 'field':
            v = o.fields.get(l[2])
            return v if v is not None else (attr(o.base, l[2]) if o.base is not None else ABSENT)
        if l[0] == 'item':
            v = o.items.get(l[2])
            return v if v is not None else (idx(o.base, l[2]) if o.base is not None else ABSENT)

    def set_loc(self, st, l, v):
        if l[0] == 'env':
            st.env[l[1]] = v
        elif l[0] == 'ov':
            st.ov[l[1]] = v
        else:
            o = self.wobj(st, mk('ref', l[1]))
            if l[0] == 'segs':
                o.segs = tuple(as_seq(v).args)
            elif l[0] == 'field':
                o.fields[l[2]] = v
            else:
                o.items[l[2]] = v

    def sym_loop(self, s, st, n, elemfn):
        iv = self.fresh_iv()
        ev0 = len(self.events)
        rc0, exc0 = dict(st.rc), dict(self.excn)
        cur, rets, brks, base = self.loop_body(s, st, iv, elemfn)
        trial = cur
        for b in brks:
            trial = b if trial is None else self.merge_exit(b, trial, base)
        if trial is None:
            # every iteration leaves the function
            return self.loop_exits(st, n, iv, rets, base, None)
        locs = self.changed(st, trial)
        mus = {}
        pre = st.copy()
        for l in locs:
            if l[0] == 'newenv':
                m = mk('mu', self.ivn[0], 'new:' + l[1])
                mus[l] = (m, UNDEF)
                pre.env[l[1]] = ite(mk('hasattr', m, 'bound'), m, UNDEF)
                continue
            old = self.get_loc(pre, l)
            if l[0] == 'segs':
                continue
            m = mk('mu', self.ivn[0], str(l[0]) + ':' + (str(l[1]) if l[0] in ('env',) else (l[2] if l[0] == 'field' else show(l[1][0] if l[0] == 'ov' else l[2]))))
            # lists rebuilt functionally keep being lists
            if old.op == 'ref':
                o = self.obj(pre, old)
                if o.kind == 'list':
                    m2 = self.new(pre, 'list')
                    pre.heap[m2.args[0]].segs = (splice(m),)
                    mus[l] = (m, old)
                    self.set_loc(pre, l, m2)
                    continue
            mus[l] = (m, old)
            if l[0] == 'ov' and contains(l[1][0], iv):
                mus.pop(l)
                continue
            self.set_loc(pre, l, m)
        # mark appended lists so that reads of them inside the body are visible
        segmu = {}
        for l in locs:
            if l[0] == 'segs':
                m = mk('mu', self.ivn[0], 'list%d' % len(segmu))
                segmu[l] = (m, self.get_loc(pre, l))
                self.wobj(pre, mk('ref', l[1])).segs = (splice(m),)
        del self.events[ev0:]
        pre.rc, self.excn = dict(rc0), dict(exc0)
        cur, rets, brks, base = self.loop_body(s, pre, iv, elemfn)
        if cur is None and not brks:
            return self.loop_exits(st, n, iv, rets, base, None)
        brkc = FALSE
        final = cur
        for b in brks:
            brkc = bor(brkc, band(*b.pc[base:]))
            final = b if final is None else self.merge_exit(b, final, base)
        out = st.copy()
        out.rc = dict(final.rc)
        # heap objects allocated in the loop stay (generic instance)
        for i, o in final.heap.items():
            if i not in out.heap and i not in self.base_heap:
                out.heap[i] = o
        allmu = [m for m, _ in mus.values()] + [m for m, _ in segmu.values()]
        itemwrites = []
        for l in locs:
            if l[0] == 'newenv':
                v = final.env.get(l[1])
                if v is not None:
                    m = mus[l][0]
                    v = subst(v, lambda t: t.args[1] if t.op == 'ite' and t.args[2] is UNDEF and t.args[1] is m else None) if contains(v, m) else v
                    fm = self.first_match(n, iv, m, UNDEF, self.reify(v, final), allmu, brkc)
                    if fm is not None:
                        out.env[l[1]] = fm
                    elif not any(contains(v, x) for x in allmu):
                        out.env[l[1]] = self.loop_last(v, n, iv, allmu, UNDEF, final)
                    else:
                        vr = self.reify(v, final)
                        out.env[l[1]] = self.fold(n, iv, m, NONE, vr, allmu, brkc)
                continue
            if l[0] == 'ov' and contains(l[1][0], iv):
                t, k = l[1]
                if k.startswith('.') and t.op == 'idx' and t.args[1] is iv:
                    out.ovx[(t.args[0], k[1:])] = (iv, final.ov.get(l[1]))
                elif k.startswith('[]') and t.op == 'idx' and t.args[1] is iv:
                    itemwrites.append((t.args[0], l[1], final.ov.get(l[1])))
                elif k.startswith('[]') and t.op == 'dict':
                    # the element expression itself: a list whose generic element is this dictionary
                    for i, o in list(out.heap.items()):
                        if o.kind == 'list' and o.segs:
                            sv = self.reify(mk('ref', i), out)
                            if any(x.op == 'each' for x in sv.args) and self._gen_elem(sv, iv) is t:
                                itemwrites.append((sv, l[1], final.ov.get(l[1])))
                                break
                out.ov.pop(l[1], None)
                continue
            new = self.get_loc(final, l)
            if l[0] == 'segs':
                m, old = segmu[l]
                segs = list(as_seq(new).args)
                segs = [self.reify(x, final) for x in segs]
                if segs and segs[0].op == 'splice' and segs[0].args[0] is m and not any(contains(x, mm) for x in segs[1:] for mm in allmu) and brkc is FALSE:
                    v = seq(list(old.args) + each(n, iv, segs[1:]))
                elif len(segs) == 1 and segs[0].op == 'splice' and segs[0].args[0].op == 'ite' and brkc is FALSE and segs[0].args[0].args[2] is m:
                    v = self.fold(n, iv, m, old, segs[0].args[0], allmu)
                else:
                    v = self.setitem_loop(n, iv, m, old, segs, allmu) or seq([splice(self.fold(n, iv, m, old, mk('seq', *segs), allmu, brkc))])
                self.set_loc(out, l, v)
                continue
            m, old = mus.get(l, (None, None))
            if m is None:
                continue
            newr = self.reify(new, final)
            if old.op == 'ref' and self.obj(pre, old).kind == 'list' and newr.op == 'seq':
                segs = list(newr.args)
                oldseq = self.reify(old, st)
                if segs and segs[0].op == 'splice' and segs[0].args[0] is m and not any(contains(x, mm) for x in segs[1:] for mm in allmu) and brkc is FALSE:
                    v = self.new_list(out, list(oldseq.args) + each(n, iv, segs[1:]))
                else:
                    v = self.new_list(out, [splice(self.fold(n, iv, m, oldseq, newr, allmu, brkc))])
                self.set_loc(out, l, v)
                continue
            self.set_loc(out, l, self.summarise(n, iv, m, self.reify(old, st), newr, allmu, brkc, new))
        if itemwrites:
            self.elementwise_writes(itemwrites, iv, out, final)
        # nested each-writes made inside
        for k, v in final.ovx.items():
            if st.ovx.get(k) != v and not contains(k[0], iv):
                out.ovx[k] = v
        if isinstance(s, ast.For) and s.orelse:
            if brkc is FALSE:
                out, ex = self.block(s.orelse, out)
                return self.loop_exits2(out, n, iv, rets, base, ex)
            found = self.any_term(n, iv, self.reify(brkc, final))
            oe = out.copy()
            b0 = len(oe.pc)
            oe.assume(bnot(found))
            oe, ex = self.block(s.orelse, oe)
            if oe is not None:
                out.assume(found)
                m = self.merge(found, out, oe)
                m.pc = m.pc[:b0]
                m.facts = {k: v for k, v in out.facts.items() if oe.facts.get(k) is v}
                out = m
            else:
                out.assume(found)
            return self.loop_exits2(out, n, iv, rets, base, ex)
        return self.loop_exits(out, n, iv, rets, base, out)

    def loop_exits2(self, out, n, iv, rets, base, ex):
        if out is None:
            _, e2 = self.loop_exits(None, n, iv, rets, base, None)
            return None, e2 + ex
        o, e2 = self.loop_exits(out, n, iv, rets, base, out)
        return o, e2 + ex

    def _gen_elem(self, sv, iv):
        for j in (sv, self.collapse(sv)):
            x = idx(j, iv)
            if x.op != 'idx':
                return x
        return None

    def elementwise_writes(self, writes, iv, out, final):
        """for i, .. in enumerate(..): lst[i][key] = v: update the element dictionaries of every list whose value is lst"""
        by = {}
        for seqv, loc, val in writes:
            by.setdefault(seqv, []).append((loc, val))
        for seqv, ws in by.items():
            if seqv.op != 'seq':
                continue
            for i, o in list(out.heap.items()):
                if o.kind != 'list' or self.reify(mk('ref', i), out) is not seqv:
                    continue
                cur = list(seqv.args)
                okk = True
                for (base, k), val in ws:
                    val = self.reify(val, final)
                    lists = []
                    for u in walk(val):
                        if u.op == 'idx' and u.args[1] is iv and u.args[0] not in lists and not contains(u.args[0], iv):
                            lists.append(u.args[0])

                    def f(e, es, val=val, k=k, base=base):
                        if e.op == 'ite':
                            a, b = f(e.args[1], es), f(e.args[2], es)
                            return None if a is None or b is None else ite(e.args[0], a, b)
                        m = dict(zip(lists, es))
                        v = subst(val, lambda u: m.get(u.args[0]) if u.op == 'idx' and u.args[1] is iv else None)
                        if contains(v, iv):
                            return None
                        if e.op != 'dict':
                            return None
                        key = const(ast.literal_eval(k[2:])) if not k.startswith('[]?') else None
                        if key is None:
                            return None
                        d = dict(zip(e.args[0::2], e.args[1::2]))
                        old = d.get(key, ABSENT)
                        v = subst(v, lambda u: old if u is idx(base, key) else None)
                        bread = self._base_read((base, k))
                        orig = m.get(seqv, e)
                        for br in (bread, mk('idx', e, key), mk('idx', orig, key)):
                            v = subst1(v, br, old) if contains(v, br) else v
                        if v is ABSENT:
                            return e
                        d[key] = v
                        fl = []
                        for kk in sorted(d, key=lambda x: show(x)):
                            fl += [kk, d[kk]]
                        return mk('dict', *fl)
                    r = zip_segs(cur, [list(x.args) if x.op == 'seq' else [splice(x)] for x in lists], f)
                    if r is None:
                        okk = False
                        break
                    cur = r
                if okk:
                    self.wobj(out, mk('ref', i)).segs = tuple(cur)

    def setitem_loop(self, n, iv, m, old, segs, allmu):
        """arr[i] = f(i) for every i: elementwise definition"""
        if len(segs) == 1 and segs[0].op == 'splice':
            t = segs[0].args[0]
            if t.op == 'call' and t.args[0] == 'setitem':
                b, k, v = t.args[1].args
                if k is iv and b.op == 'seq' and len(b.args) == 1 and b.args[0].op == 'splice' and b.args[0].args[0] is m and not any(contains(v, x) for x in allmu):
                    if length(old) is n:
                        return seq(each(n, iv, [item(v)]))
        return None

    def loop_exits(self, st, n, iv, rets, base, out):
        exits = []
        for k, v, se in rets:
            g = band(*se.pc[base:])
            if contains(g, iv) or True:
                lvl = 1 + max(maxlevel(g), 0)
                anyg = mk('truth', mk('call', 'any', mk('args', seq(each(n, iv, [item(g)]))), mk('kw')))
            s2 = se
            s2.pc = s2.pc[:base] + [anyg]
            if k == 'return':
                vr = self.reify(v, se)
                if contains(vr, iv):
                    lv = 1 + max(maxlevel(vr), maxlevel(g))
                    bv = mk('bvar', lv)
                    vr = mk('call', 'first', mk('args', n, subst1(g, iv, bv), subst1(vr, iv, bv), num(lv)), mk('kw'))
                exits.append((k, vr, s2))
            else:
                exits.append((k, v, s2))
            if out is not None:
                out.assume(bnot(anyg))
        return out, exits

    def loop_last(self, v, n, iv, mus, init, st):
        v = self.reify(v, st)
        if any(contains(v, m) for m in mus):
            return unknown('loop value', v)
        if not contains(v, iv):
            return v
        return subst1(v, iv, sub(n, ONE))

    def first_match(self, n, iv, m, old, new, allmu, brkc):
        if brkc is FALSE or new.op != 'ite' or new.args[0] is not brkc or new.args[2] not in (m, UNDEF):
            return None
        x = new.args[1]
        if any(contains(x, y) or contains(brkc, y) for y in allmu):
            return None
        if contains(x, iv):
            lv = 1 + max(maxlevel(x), maxlevel(brkc))
            bv = mk('bvar', lv)
            x = mk('call', 'first', mk('args', n, subst1(brkc, iv, bv), subst1(x, iv, bv), num(lv)), mk('kw'))
        if old in (UNDEF, ABSENT):
            return x
        return ite(self.any_term(n, iv, brkc), x, old)

    def summarise(self, n, iv, m, old, new, allmu, brkc, raw):
        others = [x for x in allmu if x is not m]
        r = self.first_match(n, iv, m, old, new, allmu, brkc)
        if r is not None:
            return r
        if brkc is FALSE and not contains(new, m) and not any(contains(new, x) for x in others):
            # last value wins (loop assumed to run)
            last = subst1(new, iv, sub(n, ONE))
            if old in (UNDEF, ABSENT):
                return last
            return ite(eq(n, ZERO), old, last)
        if brkc is FALSE and not any(contains(new, x) for x in others):
            d = sub(new, m) if new.op in ('poly', 'mu', 'ite') or new is m else None
            if new.op == 'ite':
                # gated accumulation  ite(c, m+g, m)
                d = self._gated_delta(new, m)
            if d is not None and not contains(d, m):
                return add(old, self.sum_term(seq(each(n, iv, [item(d)]))))
            if new.op == 'ite' and new.args[2] is m and not contains(new.args[0], m) and not contains(new.args[1], m):
                c, x = new.args[0], new.args[1]
                anyg = self.any_term(n, iv, c)
                if not contains(x, iv):
                    return ite(anyg, x, old)
            if new.op == 'or' and m in new.args:
                rest = bor(*[x for x in new.args if x is not m])
                if not contains(rest, m):
                    return bor(truth(old), self.any_term(n, iv, rest))
            if new.op == 'truth' and new.args[0] is m:
                return old
            sm = mk('truth', m)
            if new.op == 'or' and sm in new.args:
                rest = bor(*[x for x in new.args if x is not sm])
                if not contains(rest, m):
                    return bor(truth(old), self.any_term(n, iv, rest))
            if new.op == 'seq' and new.args and new.args[0].op == 'splice' and new.args[0].args[0] is m and not any(contains(x, m) for x in new.args[1:]):
                return seq([splice(old)] + each(n, iv, list(new.args[1:])))
        return self.fold(n, iv, m, old, new, allmu, brkc)

    def any_term(self, n, iv, c):
        if c is TRUE:
            return lt(ZERO, n)
        return mk('truth', mk('call', 'any', mk('args', seq(each(n, iv, [item(c)]))), mk('kw')))

    def sum_term(self, s):
        return sum_term(s)

    def _gated_delta(self, t, m):
        if t.op == 'ite':
            a, b = self._gated_delta(t.args[1], m), self._gated_delta(t.args[2], m)
            if a is None or b is None or contains(t.args[0], m):
                return None
            return ite(t.args[0], a, b)
        if t.op in ('poly', 'mu'):
            return sub(t, m)
        return None

    def fold(self, n, iv, m, old, new, allmu, brkc=FALSE):
        lvl = 1 + max(maxlevel(new), maxlevel(brkc))
        bv = mk('bvar', lvl)
        acc = mk('sym', 'acc%d' % lvl)
        nn = subst1(subst1(new, iv, bv), m, acc)
        k = 0
        for x in allmu:
            if x is not m and contains(nn, x):
                nn = subst1(nn, x, mk('sym', 'oacc%d_%d' % (lvl, k)))
                k += 1
        a = [n, old if old not in (UNDEF, ABSENT) else NONE, nn]
        if brkc is not FALSE:
            b2 = subst1(subst1(brkc, iv, bv), m, acc)
            for x in allmu:
                if contains(b2, x):
                    b2 = subst1(b2, x, mk('sym', 'oacc_b'))
            a.append(b2)
        return mk('call', 'fold', mk('args', *a), mk('kw'))

    def s_While(self, s, st):
        ev0 = len(self.events)
        tr = st.copy()
        c = self.truth_of(self.eval(s.test, tr), tr)
        if c is FALSE:
            return st, []
        tr.assume(c)
        base = len(tr.pc)
        cur, ex = self.block(s.body, tr)
        for k, v, se in ex:
            if k in ('continue', 'break'):
                cur = se if cur is None else self.merge(band(*se.pc[base:]), se, cur)
        if cur is None:
            return None, [e for e in ex if e[0] not in ('continue', 'break')]
        locs = [l for l in self.changed(st, cur) if l[0] != 'newenv']
        del self.events[ev0:]
        self.fresh_iv()
        pre = st.copy()
        mus = {}
        for n, l in enumerate(locs):
            old = self.get_loc(pre, l)
            m = mk('sym', 'w%d' % n)
            mus[l] = (m, old)
            if l[0] == 'segs':
                self.set_loc(pre, l, mk('seq', splice(m)))
            else:
                self.set_loc(pre, l, m)
        p2 = pre.copy()
        c = self.truth_of(self.eval(s.test, p2), p2)
        p2.assume(c)
        base = len(p2.pc)
        cur, ex = self.block(s.body, p2)
        brk = FALSE
        for k, v, se in ex:
            if k in ('continue', 'break'):
                g = band(*se.pc[base:])
                if k == 'break':
                    brk = bor(brk, g)
                cur = se if cur is None else self.merge(g, se, cur)
        out = st.copy()
        out.rc = dict(cur.rc) if cur is not None else out.rc
        if cur is None:
            return out, [e for e in ex if e[0] not in ('continue', 'break')]
        for i, o in cur.heap.items():
            if i not in out.heap and i not in self.base_heap:
                out.heap[i] = o
        inits = [self.reify(mus[l][1], st) for l in locs]
        steps = [self.reify(self.get_loc(cur, l), cur) for l in locs]
        for n, l in enumerate(locs):
            w = mk('call', 'while', mk('args', num(n), self.reify(c, p2), brk, mk('tup', *inits), mk('tup', *steps)), mk('kw'))
            self.set_loc(out, l, mk('seq', splice(w)) if l[0] == 'segs' else w)
        for l in self.changed(st, cur):
            if l[0] == 'newenv':
                out.env[l[1]] = unknown('while local')
        return out, [e for e in ex if e[0] not in ('continue', 'break')]

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return unknown('expression ' + type(e).__name__)
        v = m(e, st)
        if v.op == 'bottom':
            st.dead = True
        return v

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return const('...')
        return const(e.value)

    def lookup_name(self, name, st):
        env = st.env
        while env is not None:
            if name in env:
                return env[name]
            env = env.get('$parent')
        m = self.stack[-1].module
        ci = getattr(self.stack[-1], 'classbody', None)
        if ci is not None and name in ci.attrs:
            return self.class_attr((ci, ci.attrs[name]), name)
        if st.ov:
            g = (mk('glob', m.name), '.' + name)
            if g in st.ov:
                return st.ov[g]
        r = self.prog.resolve(m, name)
        if r is not None:
            return self.from_resolution(r, name)
        if hasattr(_b, name):
            return mk('ext', 'builtins.' + name)
        return None

    def e_Name(self, e, st):
        v = self.lookup_name(e.id, st)
        if v is None:
            self.event('badname', st, e.id, e)
            return unknown('name ' + e.id)
        v = self.simplify_value(v, st)
        if v.op == 'ite':
            c = undef_when(v)
            if c is not FALSE:
                self.event('unbound', st, (e.id, c), e)
        return v

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, st, tup=True)
        return mk('tup', *[self.eval(x, st) for x in e.elts])

    def e_List(self, e, st, tup=False):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                sg = self.segs_of(v, st)
                segs += sg if sg is not None else [splice(v)]
            else:
                segs.append(item(self.eval(x, st)))
        if tup:
            if all(s.op == 'item' for s in segs):
                return mk('tup', *[s.args[0] for s in segs])
            return seq(segs)
        return self.new_list(st, segs)

    def e_Set(self, e, st):
        return mk('call', 'set', mk('args', *[self.eval(x, st) for x in e.elts]), mk('kw'))

    def e_Dict(self, e, st):
        r = self.new_dict(st, {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.eval(v, st), st, e)
            else:
                kk = self.reify(self.eval(k, st), st)
                vv = self.eval(v, st)
                self.wobj(st, r).items[kk] = vv
        return r

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            parts.append(self.reify(self.eval(v.value if isinstance(v, ast.FormattedValue) else v, st), st))
        plain = all(not isinstance(v, ast.FormattedValue) or v.conversion == -1 and v.format_spec is None for v in e.values)
        if plain and all(x.op == 'const' and isinstance(x.args[0], str) or x.op == 'num' and x.args[0].denominator == 1 for x in parts):
            return const(''.join(str(x.args[0]) for x in parts))
        return mk('call', 'fmt', mk('args', *parts), mk('kw'))

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_Lambda(self, e, st):
        node = e
        fi = FunctionInfo('<lambda>', node, self.stack[-1].module, None, 'func', parent=self.stack[-1])
        return self.fn_value(fi, st.env, st)

    def e_IfExp(self, e, st):
        c = self.truth_of(self.eval(e.test, st), st)
        return self.fork(st, c, lambda s: self.eval(e.body, s), lambda s: self.eval(e.orelse, s))

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st)
        return self._boolop(v, e.values[1:], is_and, st)

    def _boolop(self, v, rest, is_and, st):
        if not rest:
            return v
        c = self.known(self.truth_of(v, st), st)
        cc = c if is_and else bnot(c)
        def cont(s):
            return self._boolop(self.eval(rest[0], s), rest[1:], is_and, s)
        def stop(s):
            # the value itself; booleans stay booleans
            if v.op in BOOLOPS or v in (TRUE, FALSE):
                return const(not is_and)
            return v
        r = self.fork(st, cc, cont, stop)
        return r

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth_of(v, st))
        if self.cfg.arrays and isinstance(e.op, (ast.USub, ast.Invert)) and arrays.entries(self, v, st) is not None:
            return arrays.invert(self, v, st) if isinstance(e.op, ast.Invert) else arrays.mapn(self, TM.neg, [v], st)
        if isinstance(e.op, ast.USub):
            v = self.array_term(v, st)
            return TM.neg(v)
        if isinstance(e.op, ast.Invert):
            return bnot(truth(v))
        return v

    def array_term(self, v, st):
        if v.op == 'ref' and self.obj(st, v).kind == 'list':
            return self.collapse(self.reify(v, st))
        if v.op == 'seq':
            return self.collapse(v)
        return v

    def collapse(self, v):
        if v.op == 'seq' and len(v.args) == 1 and v.args[0].op == 'splice':
            return v.args[0].args[0]
        return v

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node=None):
        a, b = self.simplify_value(a, st), self.simplify_value(b, st)
        if a.op == b.op == 'call':
            r = self.set_binop(op, a, b)
            if r is not None:
                return r
        la = self.segs_of(a, st) if a.op in ('ref', 'tup') else None
        lb = self.segs_of(b, st) if b.op in ('ref', 'tup') else None
        isla = self.is_list(st, a) or a.op == 'tup'
        islb = self.is_list(st, b) or b.op == 'tup'
        if isinstance(op, ast.Add) and (isla or islb) and not self.is_arr(a, st) and not self.is_arr(b, st) and a.op != 'poly' and b.op != 'poly':
            sa = self.segs_of(a, st)
            sb = self.segs_of(b, st)
            if sa is None:
                sa = [splice(a)]
            if sb is None:
                sb = [splice(b)]
            if a.op == 'tup' and b.op == 'tup':
                return mk('tup', *(a.args + b.args))
            return self.new_list(st, sa + sb)
        if isinstance(op, ast.Mult) and (isla or islb) and not self.is_arr(a, st) and not self.is_arr(b, st):
            l, n = (a, b) if isla else (b, a)
            if not (isla and islb) and not self.has_open_seq(n):
                segs = self.segs_of(l, st)
                if n.op == 'num' and n.args[0].denominator == 1 and n.args[0] * len(segs) <= MAXUNROLL:
                    return self.new_list(st, segs * int(n.args[0]))
                iv = self.fresh_iv()
                return self.new_list(st, each(n, iv, segs))
        if self.cfg.arrays and (self.is_arr(a, st) or self.is_arr(b, st) or a.op == 'seq' or b.op == 'seq'):
            r = arrays.binop(self, op, a, b, st)
            if r is not None:
                return r
        if isinstance(op, ast.Mod) and a.op == 'const' and isinstance(a.args[0], str):
            return mk('call', 'fmt', mk('args', a, self.reify(b, st)), mk('kw'))
        if isinstance(op, ast.Add) and (a.op == 'const' and isinstance(a.args[0], str) or b.op == 'const' and isinstance(b.args[0], str)):
            if a.op == b.op == 'const':
                return const(a.args[0] + b.args[0])
            return mk('call', 'fmt', mk('args', self.reify(a, st), self.reify(b, st)), mk('kw'))
        a, b = self.array_term(a, st), self.array_term(b, st)
        a, b = self.reify(a, st), self.reify(b, st)
        return self.arith(op, a, b)

    def has_open_seq(self, n):
        """n contains a list outside len(): it may be an array rather than a count"""
        if n.op == 'seq':
            return True
        if n.op == 'call' and n.args[0] == 'len':
            return False
        return any(isinstance(a, T) and self.has_open_seq(a) for a in n.args)

    def is_arr(self, v, st):
        if v.op == 'ref':
            return self.obj(st, v).order == 'arr'
        if v.op == 'ite' and self.cfg.arrays:
            return self.is_arr(v.args[1], st) and self.is_arr(v.args[2], st)
        return False

    def arith(self, op, a, b):
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.BitAnd):
            return band(truth(a), truth(b))
        if isinstance(op, ast.BitOr):
            return bor(truth(a), truth(b))
        if isinstance(op, ast.FloorDiv):
            return mk('call', 'floor', mk('args', div(a, b)), mk('kw'))
        return mk('call', 'op' + type(op).__name__, mk('args', a, b), mk('kw'))

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            res.append(self.cmp(op, left, right, st))
            left = right
        return band(*res)

    def cmp(self, op, a, b, st):
        a, b = self.simplify_value(a, st), self.simplify_value(b, st)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return bnot(r) if isinstance(op, ast.NotIn) else r
        if a.op == b.op == 'call':
            r = self.set_compare(op, a, b)
            if r is not None:
                return r
        if self.cfg.arrays and not isinstance(op, (ast.Is, ast.IsNot)) and (self.is_arr(a, st) or self.is_arr(b, st) or a.op == 'seq' or b.op == 'seq'):
            r = arrays.compare(self, op, a, b, st)
            if r is not None:
                return r
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            r = self.equal(a, b, st)
            return bnot(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        a, b = self.reify(self.array_term(a, st), st), self.reify(self.array_term(b, st), st)
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.GtE):
            return le(b, a)
        return unknown('compare')

    def equal(self, a, b, st):
        if a is b:
            return TRUE
        if a.op == 'ite':
            return ite(a.args[0], self.equal(a.args[1], b, st), self.equal(a.args[2], b, st))
        if b.op == 'ite':
            return ite(b.args[0], self.equal(a, b.args[1], st), self.equal(a, b.args[2], st))
        if a in (ABSENT, UNDEF) or b in (ABSENT, UNDEF):
            return FALSE
        if a.op == 'tup' and b.op == 'tup' and getattr(self.cfg, 'floats', False):
            return band(*[self.equal(x, y, st) for x, y in zip(a.args, b.args)]) if len(a.args) == len(b.args) else FALSE
        if a.op == 'ref' and b is NONE or b.op == 'ref' and a is NONE:
            o = self.obj(st, a if a.op == 'ref' else b)
            if o.kind == 'sym' and o.base is not None:
                return eq(o.base, NONE)
            return FALSE
        if a.op == 'ref' and b.op == 'ref':
            oa, ob = self.obj(st, a), self.obj(st, b)
            if oa.kind == 'inst' and ob.kind == 'inst':
                f = self.prog.lookup(oa.cls, '__eq__') if oa.cls else None
                return FALSE if f is None else truth(self.invoke(f, [a, b], [], st))
        return eq(self.reify(self.array_term(a, st), st), self.reify(self.array_term(b, st), st))

    def contains(self, a, b, st):
        b = self.simplify_value(b, st)
        if b.op == 'idict':
            return self.idict_has(b, a, st)
        if b.op == 'ite':
            return ite(b.args[0], self.contains(a, b.args[1], st), self.contains(a, b.args[2], st))
        if b.op == 'call' and b.args[0] == 'keys':
            b = b.args[1].args[0]
        if b.op == 'ref':
            o = self.obj(st, b)
            if o.kind == 'dict' or o.kind == 'sym':
                if self.symbolic_keys(o, a):
                    return bor(*[band(self.equal(a, k, st), self.present(v)) for k, v in o.items.items()])
                if a in o.items:
                    v = o.items[a]
                    if v is ABSENT:
                        return FALSE
                    if v.op == 'ite':
                        return self.present(v)
                    return TRUE
                if o.base is None:
                    if a.op == 'const' and all(k.op == 'const' for k in o.items):
                        return FALSE
                    if not o.items:
                        return FALSE
                    # symbolic key against literal keys
                    return bor(*[self.equal(a, k, st) for k in o.items])
                return self.contains(a, o.base, st)
        if a.op == b.op == 'const' and isinstance(a.args[0], str) and isinstance(b.args[0], str):
            return TRUE if a.args[0] in b.args[0] else FALSE
        segs = None
        if b.op == 'call' and b.args[0] == 'set':
            segs = [item(x) for x in b.args[1].args]
        else:
            segs = self.segs_of(b, st)
        if segs is not None and all(s.op == 'item' for s in segs):
            return bor(*[self.equal(a, s.args[0], st) for s in segs])
        if segs is not None and self.cfg.arrays and b.op in ('ref', 'seq'):
            es = arrays.entries(self, b, st)
            if es is not None and all(v.op not in ('ref', 'tup') for _, v in es):
                return bor(*[band(c, self.equal(a, v, st)) for c, v in es])
        if segs is not None and len(segs) == 1 and segs[0].op == 'splice' and segs[0].args[0].op == 'call' and segs[0].args[0].args[0] == 'keys':
            return self.contains(a, segs[0].args[0].args[1].args[0], st)
        if b.op not in ('ref',):
            key = (b, '[]%r' % (a.args[0],)) if a.op == 'const' else None
            if key and key in st.ov:
                return self.present(st.ov[key])
        if b.op == 'upd' and a.op == 'const':
            if '[]%r' % (a.args[0],) in b.args[1::2]:
                return TRUE
            return self.contains(a, b.args[0], st)
        return mk('in', self.reify(a, st), self.reify(b, st))

    def symbolic_keys(self, ob, k):
        return ob.base is None and bool(ob.items) and not (is_const(k) and all(is_const(x) for x in ob.items))

    def dict_lookup(self, ob, k, default, st):
        """the latest entry whose key equals k"""
        def strip(v):
            while v.op == 'ite' and (v.args[1] is ABSENT or v.args[2] is ABSENT):
                v = v.args[2] if v.args[1] is ABSENT else v.args[1]
            if v.op == 'ite':
                return ite(v.args[0], strip(v.args[1]), strip(v.args[2]))
            return v
        r = default
        for kk, vv in ob.items.items():
            r = ite(band(self.equal(k, kk, st), self.present(vv)), strip(vv), r)
        return self.simplify_value(r, st)

    def present(self, v):
        if v is ABSENT or v is UNDEF:
            return FALSE
        if v.op == 'ite':
            return ite(v.args[0], self.present(v.args[1]), self.present(v.args[2]))
        return TRUE

    # ------------------------------------------------------------ subscripts
    def e_Slice(self, e, st):
        def f(x):
            return self.eval(x, st) if x is not None else NONE
        return mk('call', 'slice', mk('args', f(e.lower), f(e.upper), f(e.step)), mk('kw'))

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        k = self.eval(e.slice, st)
        return self.get_item(o, k, st, e)

    def get_item(self, o, k, st, node=None):
        o = self.simplify_value(o, st)
        if o.op == 'idict':
            return self.idict_get(o, k, UNDEF, st, node)
        if self.cfg.arrays and (o.op == 'ref' or o.op in ('seq', 'poly', 'ite')) and k.op != 'num' and k.op != 'const':
            r = arrays.get_item(self, o, k, st)
            if r is not None:
                return r
        if self.cfg.arrays and k.op == 'tup' and NONE in k.args and arrays.entries(self, o, st) is None:
            c = arrays.constarr(self.reify(self.array_term(o, st), st))
            if c is not None:
                return c
        if o.op == 'ite':
            return self.fork(st, o.args[0], lambda s: self.get_item(o.args[1], k, s, node), lambda s: self.get_item(o.args[2], k, s, node))
        if k.op == 'ite' and o.op in ('ref', 'dict'):
            return self.fork(st, k.args[0], lambda s: self.get_item(o, k.args[1], s, node), lambda s: self.get_item(o, k.args[2], s, node))
        if o.op == 'ref':
            ob = self.obj(st, o)
            if ob.kind == 'list':
                i = None
                if k.op == 'num' and k.args[0].denominator == 1:
                    i = int(k.args[0])
                    if i >= 0 and i < len(ob.segs) and all(s.op == 'item' for s in ob.segs[:i + 1]):
                        return ob.segs[i].args[0]
                    if i < 0 and -i <= len(ob.segs) and all(s.op == 'item' for s in ob.segs[i:]):
                        return ob.segs[i].args[0]
                if k.op == 'call' and k.args[0] == 'slice' and all(s.op == 'item' for s in ob.segs):
                    ks = k.args[1].args
                    if all(x is NONE or x.op == 'num' for x in ks):
                        sl = slice(*[None if x is NONE else int(x.args[0]) for x in ks])
                        return self.new_list(st, ob.segs[sl], arr=ob.order == 'arr')
                if self.cfg.arrays and k.op == 'num':
                    r = arrays.get_item(self, o, k, st)
                    if r is not None:
                        return r
                return self.get_item(self.collapse(self.reify(o, st)), self.reify(k, st), st) if ob.segs else unknown('index of empty list')
            if ob.kind in ('dict', 'sym'):
                k = self.reify(k, st)
                if self.symbolic_keys(ob, k):
                    return self.dict_lookup(ob, k, unknown('missing key'), st)
                if k in ob.items:
                    return self.simplify_value(ob.items[k], st)
                if ob.base is not None:
                    if ob.kind == 'sym' or k.op == 'const':
                        return self.get_item(ob.base, k, st)
                    return mk('idx', self.reify(o, st), k)
                self.event('badkey', st, (o, k), node)
                return unknown('key ' + show(k), self.reify(o, st))
            if ob.kind == 'inst' and ob.cls is not None:
                f = self.prog.lookup(ob.cls, '__getitem__')
                if f:
                    return self.invoke(f, [o, k], [], st, node)
            return unknown('subscript')
        k = self.reify(k, st)
        if o.op == 'const' and isinstance(o.args[0], str):
            ks = k.args[1].args if k.op == 'call' and k.args[0] == 'slice' else (k,)
            if all(x is NONE or x.op == 'num' and x.args[0].denominator == 1 for x in ks):
                ks = [None if x is NONE else int(x.args[0]) for x in ks]
                try:
                    return const(o.args[0][slice(*ks)] if k.op == 'call' else o.args[0][ks[0]])
                except Exception:
                    return unknown('character of a string')
        if k.op == 'const' and isinstance(k.args[0], str):
            key = (o, '[]%r' % (k.args[0],))
            if key in st.ov:
                return st.ov[key]
        return idx(o, k)

    # ------------------------------------------------------------ attributes
    def type_of(self, t):
        if t.op == 'ref':
            return None
        q = self.tags.get(t)
        if q is None:
            if t.op == 'attr':
                q = self.cfg.hints.get(t.args[1])
            elif t.op == 'sym':
                q = self.cfg.hints.get(t.args[0])
            elif t.op == 'call' and t.args[0].startswith('new:'):
                for c in self.prog.all_classes():
                    if c.name == t.args[0][4:]:
                        return c
        if q is None:
            return None
        return self.prog.cls(q) if isinstance(q, str) else q

    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        return self.get_attr(o, e.attr, st, e)

    def bound(self, fi, selfv):
        self.fn_tab[fi.qual] = fi
        return mk('bm', fi.qual, selfv)

    def get_attr(self, o, name, st, node=None):
        o = self.simplify_value(o, st)
        if (o, name) in self.preset_attrs:
            return self.preset_attrs[o, name]
        if o.op == 'ite':
            return self.fork(st, o.args[0], lambda s: self.get_attr(o.args[1], name, s, node), lambda s: self.get_attr(o.args[2], name, s, node))
        if o.op == 'ref':
            ob = self.obj(st, o)
            if ob.kind == 'inst':
                if name == '__dict__' and not self.prog.has_ext_base(ob.cls):
                    return mk('idict', o)
                fi = self.prog.lookup(ob.cls, name)
                if fi is not None and fi.kind == 'property':
                    return self.invoke(fi, [o], [], st, node)
                if name in ob.fields and ob.fields[name] is not ABSENT:
                    return self.simplify_value(ob.fields[name], st)
                if fi is not None and fi.kind == 'cached_property':
                    v = self.invoke(fi, [o], [], st, node)
                    self.wobj(st, o).fields[name] = v
                    return v
                if fi is not None:
                    if fi.kind == 'static':
                        return self.fref(fi)
                    if fi.kind == 'classmethod':
                        return self.bound(fi, mk('cls', ob.cls.qual))
                    return self.bound(fi, o)
                v = self.dyn_class_attr(ob.cls, name, st)
                if v is not None:
                    return self.simplify_value(v, st)
                ca = self.prog.lookup_attr(ob.cls, name)
                if ca is not None:
                    return self.class_attr(ca, name, st)
                if name == '__class__':
                    return mk('cls', ob.cls.qual)
                if self.prog.has_ext_base(ob.cls):
                    return mk('attr', self.reify(o, st), name)
                ga = self.prog.lookup(ob.cls, '__getattr__')
                if ga is not None:
                    return self.invoke(ga, [o, const(name)], [], st, node)
                if o in self.partial:
                    return mk('attr', self.reify(o, st), name)
                self.event('badattr', st, (ob.cls, name), node)
                return unknown('attribute %s of %s' % (name, ob.cls.name))
            if ob.kind in ('list', 'dict'):
                if ob.kind == 'list' and self.cfg.arrays and name in ('shape', 'size', 'ndim'):
                    sh = arrays.shape(self, o, st)
                    if sh is not None:
                        return mk('tup', *[num(k) for k in sh]) if name == 'shape' else num(len(sh)) if name == 'ndim' else num(math.prod(sh))
                if ob.kind == 'list' and self.cfg.arrays and name == 'value' and arrays.entries(self, o, st) is not None:
                    # an array of quantities
                    return arrays.mapn(self, lambda x: self.get_attr(x, 'value', st), [o], st)
                if ob.kind == 'list' and name in ('shape', 'size', 'T', 'ndim', 'dtype'):
                    return self.arr_attr(self.reify(o, st), name)
                return mk('lm', o, name)
            if name in ob.fields:
                return self.simplify_value(ob.fields[name], st)
            if ob.base is not None:
                ci = self.type_of(ob.base)
                if ci is not None:
                    fi = self.prog.lookup(ci, name)
                    if fi is not None:
                        if fi.kind in ('property', 'cached_property'):
                            return self.invoke(fi, [o], [], st, node)
                        return self.bound(fi, o)
                if name in DICTMETH:
                    return mk('lm', o, name)
                return self.get_attr(ob.base, name, st, node)
            return unknown('attr')
        if o.op == 'idict':
            return mk('lm', o, name)
        if o.op == 'const' and isinstance(o.args[0], str) and name in STRMETH:
            return mk('lm', o, name)
        if o.op == 'mod':
            r = self.prog.resolve_from(o.args[0], name)
            if r is None:
                self.event('badmodattr', st, (o.args[0], name), node)
            return self.from_resolution(r, name)
        if o.op == 'ext':
            return self.ext_value(o.args[0] + '.' + name)
        if o.op == 'cls':
            ci = self.prog.cls(o.args[0])
            if name == '__name__':
                return const(ci.name)
            fi = self.prog.lookup(ci, name)
            if fi is not None:
                if fi.kind == 'classmethod':
                    return self.bound(fi, o)
                return self.fref(fi)
            v = self.dyn_class_attr(ci, name, st)
            if v is not None:
                return self.simplify_value(v, st)
            ca = self.prog.lookup_attr(ci, name)
            if ca is not None:
                return self.class_attr(ca, name, st)
            return mk('attr', o, name)
        if o.op == 'sup':
            ci = self.prog.cls(o.args[0])
            selfv = o.args[1]
            runtime = ci
            if selfv.op == 'ref' and self.obj(st, selfv).cls is not None:
                runtime = self.obj(st, selfv).cls
            mro = self.prog.mro(runtime)
            after = mro[mro.index(ci) + 1:] if ci in mro else self.prog.mro(ci)[1:]
            for c in after:
                if name in c.methods:
                    fi = c.methods[name]
                    if fi.kind in ('property', 'cached_property'):
                        return self.invoke(fi, [selfv], [], st, node)
                    return self.bound(fi, selfv)
            if name == '__init__':
                return mk('ext', 'builtins.object.__init__')
            self.event('badattr', st, (ci, name), node)
            return unknown('super attribute ' + name)
        if o.op == 'inst':
            d = dict(zip(o.args[1::2], o.args[2::2]))
            if name in d:
                return d[name]
            ref = self.materialise(o, st)
            if ref is not None:
                return self.get_attr(ref, name, st, node)
            return mk('attr', o, name)
        key = (o, '.' + name)
        if key in st.ov:
            v = st.ov[key]
            if v is not ABSENT:
                return self.simplify_value(v, st)
        if o.op == 'idx' and (o.args[0], name) in st.ovx:
            iv, val = st.ovx[(o.args[0], name)]
            return subst1(val, iv, o.args[1])
        ci = self.type_of(o)
        if ci is not None:
            fi = self.prog.lookup(ci, name)
            if fi is not None:
                if fi.kind in ('property', 'cached_property'):
                    return self.invoke(fi, [o], [], st, node)
                if fi.kind == 'static':
                    return self.fref(fi)
                return self.bound(fi, o)
            ca = self.prog.lookup_attr(ci, name)
            if ca is not None:
                return self.class_attr(ca, name, st)
            self.event('typedattr', st, (ci, name), node)
        if o.op in ('poly', 'seq', 'call', 'meth', 'rnd', 'num') or name in ('shape', 'size'):
            r = self.arr_attr(o, name)
            if r is not None:
                return r
        return attr(o, name)

    def arr_attr(self, o, name):
        if name == 'size':
            return length(o)
        if name == 'T':
            return mk('attr', o, 'T')
        return mk('attr', o, name)

    def materialise(self, o, st):
        ci = self.prog.cls(o.args[0]) if ':' in str(o.args[0]) else None
        if ci is None:
            return None
        ref = self.new(st, 'inst', cls=ci)
        st.heap[ref.args[0]].fields = dict(zip(o.args[1::2], o.args[2::2]))
        return ref

    def dyn_class_attr(self, ci, name, st):
        """class variable assigned while running"""
        if st.ov:
            for c in self.prog.mro(ci):
                v = st.ov.get((mk('cls', c.qual), '.' + name))
                if v is not None:
                    return v
        return None

    def class_attr(self, ca, name, st=None):
        c, node = ca
        if st is not None:
            k = (mk('cls', c.qual), '.' + name)
            if k in st.ov:
                return st.ov[k]
        if (c.qual, name) in self.gcache:
            return self.gcache[(c.qual, name)]
        fi = FunctionInfo('<class %s>' % c.name, _dummy_fn(), c.module)
        fi.classbody = c
        self.stack.append(fi)
        s = State()
        try:
            v = self.eval(node, s)
        finally:
            self.stack.pop()
        for i, o in s.heap.items():
            o.prov = 'class:%s:%s' % (c.qual, name)
            self.base_heap[i] = o
        self.gcache[(c.qual, name)] = v
        return v

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in st.env:
            return self.do_super(e, st)
        if isinstance(f, ast.Attribute):
            o = self.eval(f.value, st)
            if st.dead:
                return mk('bottom')
            return self.call_attr(o, f.attr, e, st)
        fv = self.eval(f, st)
        args, kwargs = self.eval_args(e, st)
        if st.dead:
            return mk('bottom')
        return self.apply(fv, args, kwargs, st, e)

    def eval_args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.eval(a.value, st)))
            else:
                args.append(self.eval(a, st))
        kwargs = [(k.arg, self.eval(k.value, st)) for k in e.keywords]
        return args, kwargs

    def do_super(self, e, st):
        fi = next((f for f in reversed(self.stack) if f.cls is not None), None)
        if e.args:
            c = self.eval(e.args[0], st)
            s = self.eval(e.args[1], st) if len(e.args) > 1 else unknown('super')
            if c.op == 'cls':
                return mk('sup', c.args[0], s)
            return unknown('super')
        if fi is None:
            return unknown('super')
        s = st.env.get(fi.params[0]) if fi.params else None
        return mk('sup', fi.cls.qual, s if s is not None else unknown('self'))

    def call_attr(self, o, name, e, st):
        o = self.simplify_value(o, st)
        if o.op == 'ite':
            return self.fork(st, o.args[0], lambda s: self.call_attr(o.args[1], name, e, s), lambda s: self.call_attr(o.args[2], name, e, s))
        fv = self.get_attr(o, name, st, e.func)
        args, kwargs = self.eval_args(e, st)
        if st.dead:
            return mk('bottom')
        if fv.op == 'attr' and fv.args[1] == name:
            return self.opaque_method(o, name, args, kwargs, st, e)
        return self.apply(fv, args, kwargs, st, e)

    def opaque_method(self, o, name, args, kwargs, st, node):
        o2 = self.reify(o, st)
        if name in ('astype', 'tolist', 'item', 'squeeze', '__float__') and o2.op not in ('sym',):
            return o2
        if name == 'copy' and not args:
            return self.deepcopy(o, st)
        if name in ('sum', 'min', 'max', 'mean', 'any', 'all') and not args and not kwargs:
            return self.ext_call('numpy.' + name, [o], [], st, node)
        if name in DICTMETH:
            r = self.dict_method(o, name, args, kwargs, st, node)
            if r is not None:
                return r
        if name == 'append' and len(args) == 1:
            self.mutated(o, 'append', st, node)
            return NONE
        pos, star, kw, bases = self.expand_args(args, kwargs, st)
        memo = dict(self.idents)
        a = [self.reify(x, st, (), memo) for x in pos]
        if star is not None:
            a.append(mk('star', self.reify(star, st, (), memo)))
        kl = []
        for k in sorted(kw):
            kl += [k, self.reify(kw[k], st, (), memo)]
        for b in bases:
            kl += ['**', self.reify(b, st, (), memo)]
        r = mk('meth', o2, name, mk('args', *a), mk('kw', *kl))
        if self.on_ometh is not None:
            x = self.on_ometh(r, st)
            if x is not None:
                return x
        if name in self.cfg.draws:
            r = self.draw(r, st)
        self.event('ometh', st, (o, name, r), node)
        return r

    def apply(self, fv, args, kwargs, st, node=None):
        fv = self.simplify_value(fv, st)
        if fv.op == 'ite':
            return self.fork(st, fv.args[0], lambda s: self.apply(fv.args[1], args, kwargs, s, node), lambda s: self.apply(fv.args[2], args, kwargs, s, node))
        if fv.op == 'fn':
            return self.invoke(self.fn_tab[fv.args[0]], args, kwargs, st, node)
        if fv.op == 'bm':
            return self.invoke(self.fn_tab[fv.args[0]], [fv.args[1]] + list(args), kwargs, st, node)
        if fv.op == 'lam':
            fi, clo = self.fns.get(fv) or self.fns[fv.args[0]]
            return self.invoke(fi, args, kwargs, st, node, closure=clo)
        if fv.op == 'cls':
            return self.instantiate(self.prog.cls(fv.args[0]), args, kwargs, st, node)
        if fv.op == 'lm':
            return self.builtin_method(fv.args[0], fv.args[1], args, kwargs, st, node)
        if fv.op == 'ext':
            return self.ext_call(fv.args[0], args, kwargs, st, node)
        if fv.op == 'partial':
            return self.apply(fv.args[0], list(fv.args[1].args) + list(args), list(zip(fv.args[2].args[0::2], fv.args[2].args[1::2])) + list(kwargs), st, node)
        if fv.op == 'ref':
            o = self.obj(st, fv)
            if o.kind == 'inst' and o.cls is not None:
                f = self.prog.lookup(o.cls, '__call__')
                if f is not None:
                    return self.invoke(f, [fv] + list(args), kwargs, st, node)
                if not self.prog.has_ext_base(o.cls):
                    self.event('notcallable', st, o.cls, node)
        if fv.op in ('tup', 'num', 'seq', 'dict') or fv.op == 'const' and fv.args[0] is not None:
            self.event('notcallable', st, fv, node)
            st.dead = True
            return mk('bottom')
        ci = self.type_of(fv)
        if ci is not None:
            f = self.prog.lookup(ci, '__call__')
            if f is not None:
                return self.invoke(f, [fv] + list(args), kwargs, st, node)
        if self.cfg.arrays and fv.op == 'sym' and fv.args[0] in self.cfg.elementwise and len(args) == 1 and not kwargs and isinstance(args[0], T) and arrays.entries(self, args[0], st) is not None:
            return arrays.mapn(self, lambda x: self.apply(fv, [x], [], st, node), [args[0]], st)
        pos, star, kw, bases = self.expand_args(args, kwargs, st)
        memo = dict(self.idents)
        a = [self.reify(x, st, (), memo) for x in pos]
        if star is not None:
            a.append(mk('star', self.reify(star, st, (), memo)))
        kl = []
        for k in sorted(kw):
            kl += [k, self.reify(kw[k], st, (), memo)]
        for b in bases:
            kl += ['**', self.reify(b, st, (), memo)]
        f2 = self.reify(fv, st)
        r = mk('meth', f2, '__call__', mk('args', *a), mk('kw', *kl))
        if self.on_ometh is not None:
            x = self.on_ometh(r, st)
            if x is not None:
                return x
        self.event('ocall', st, (f2, r), node)
        return r

    # ------------------------------------------------------------ lists and dicts
    def list_extend(self, l, val, st, node):
        segs = self.segs_of(val, st)
        if segs is None:
            segs = [splice(self.reify(val, st))]
        for c, r in self.cases(l):
            self.mutated(r, 'extend', st, node)
            if r.op == 'ref':
                w = self.wobj(st, r)
                w.segs = tuple(seq(list(w.segs) + cond_seg(c, segs)).args)

    def pyconst(self, v, st):
        """(python value,) of a literal, or None"""
        v = self.simplify_value(v, st)
        if v.op == 'const':
            return (v.args[0],)
        if v.op == 'num' and v.args[0].denominator == 1:
            return (int(v.args[0]),)
        segs = self.segs_of(v, st) if v.op in ('ref', 'tup', 'seq') else None
        if segs is not None and all(x.op == 'item' for x in segs):
            xs = [self.pyconst(x.args[0], st) for x in segs]
            if all(x is not None for x in xs):
                xs = [x[0] for x in xs]
                return (tuple(xs) if v.op == 'tup' else xs,)
        return None

    # the __dict__ of an instance is an alias of its fields
    def idict_names(self, o, st):
        return [(self.present(v), k) for k, v in self.obj(st, o.args[0]).fields.items() if self.present(v) is not FALSE]

    def idict_get(self, o, k, default, st, node):
        if k.op != 'const':
            return unknown('__dict__ item')
        v = self.obj(st, o.args[0]).fields.get(k.args[0], ABSENT)
        p = self.present(v)
        if p is FALSE:
            return default
        v = self.simplify_value(v, st)
        return v if p is TRUE else ite(p, v, default)

    def idict_has(self, o, k, st):
        if k.op != 'const':
            return mk('in', self.reify(k, st), unknown('__dict__'))
        return self.present(self.obj(st, o.args[0]).fields.get(k.args[0], ABSENT))

    def idict_method(self, o, name, args, kwargs, st, node):
        r = o.args[0]
        if name in ('keys', 'values', 'items', 'copy'):
            names = self.idict_names(o, st)
            get = lambda k: self.idict_get(o, const(k), UNDEF, st, node)
            if name == 'copy':
                d = self.new_dict(st, {const(k): (get(k) if c is TRUE else ite(c, get(k), ABSENT)) for c, k in names})
                return d
            f = {'keys': lambda k: const(k), 'values': get, 'items': lambda k: mk('tup', const(k), get(k))}[name]
            return self.new_list(st, [y for c, k in names for y in cond_seg(c, [item(f(k))])])
        if name == 'get' and args:
            return self.idict_get(o, args[0], args[1] if len(args) > 1 else NONE, st, node)
        if name in ('pop', 'setdefault') and args and args[0].op == 'const':
            k = args[0]
            d = args[1] if len(args) > 1 else UNDEF if name == 'pop' else NONE
            v = self.idict_get(o, k, d, st, node)
            if name == 'pop':
                self.del_attr(r, k.args[0], st, node)
            else:
                self.set_attr(r, k.args[0], v, st, node)
            return v
        if name == 'update' and not (args and args[0].op == 'ite'):
            for k, v in kwargs:
                self.set_attr(r, k, v, st, node)
            if not args:
                return NONE
            a = self.simplify_value(args[0], st)
            if a.op == 'idict':
                for c, k in self.idict_names(a, st):
                    v = self.idict_get(a, const(k), ABSENT, st, node)
                    w = self.wobj(st, r)
                    w.fields[k] = v if c is TRUE else ite(c, v, w.fields.get(k, ABSENT))
                return NONE
            if a.op == 'ref' and self.obj(st, a).kind == 'dict' and self.obj(st, a).base is None and all(k.op == 'const' for k in self.obj(st, a).items):
                for k, v in list(self.obj(st, a).items.items()):
                    w = self.wobj(st, r)
                    p = self.present(v)
                    w.fields[k.args[0]] = v if p is TRUE else ite(p, v, w.fields.get(k.args[0], ABSENT))
                return NONE
        if name == 'clear':
            for k in list(self.obj(st, r).fields):
                self.del_attr(r, k, st, node)
            return NONE
        w = self.wobj(st, r)
        for k in list(w.fields):
            w.fields[k] = unknown('__dict__ changed')
        return unknown('__dict__.' + name)

    def builtin_method(self, o, name, args, kwargs, st, node):
        if o.op == 'idict':
            return self.idict_method(o, name, args, kwargs, st, node)
        if o.op == 'const' and isinstance(o.args[0], str):
            vals = [self.pyconst(x, st) for x in args]
            if name in STRMETH and not kwargs and all(v is not None for v in vals):
                try:
                    r = getattr(o.args[0], name)(*[v[0] for v in vals])
                except Exception:
                    return unknown('str.' + name)
                if isinstance(r, list):
                    return self.new_list(st, [item(const(x)) for x in r])
                if isinstance(r, tuple):
                    return mk('tup', *[const(x) for x in r])
                return num(r) if isinstance(r, int) and not isinstance(r, bool) else const(r)
            return mk('meth', o, name, mk('args', *[self.reify(x, st) for x in args]), mk('kw', *[mk('kv', k, self.reify(v, st)) for k, v in kwargs]))
        if self.cfg.arrays and name in arrays.METHODS and self.is_arr(o, st):
            pos, star, kw, bases = self.expand_args(args, kwargs, st)
            if star is None and not bases:
                r = arrays.method(self, o, name, pos, kw, st)
                if r is not None:
                    return r
        ob = self.obj(st, o)
        if ob.kind == 'list':
            if name == 'append':
                self.mutated(o, 'append', st, node)
                w = self.wobj(st, o)
                w.segs = w.segs + (item(args[0]),)
                return NONE
            if name == 'extend':
                self.list_extend(o, args[0], st, node)
                return NONE
            if name == 'insert' and len(args) == 2:
                self.mutated(o, 'insert', st, node)
                w = self.wobj(st, o)
                if args[0] is ZERO:
                    w.segs = (item(args[1]),) + w.segs
                elif args[0].op == 'num' and all(s.op == 'item' for s in w.segs):
                    sg = list(w.segs)
                    sg.insert(int(args[0].args[0]), item(args[1]))
                    w.segs = tuple(sg)
                else:
                    w.segs = (splice(unknown('insert', mk('seq', *w.segs))),)
                return NONE
            if name == 'pop':
                self.mutated(o, 'pop', st, node)
                w = self.wobj(st, o)
                k = args[0] if args else num(-1)
                i = self._concrete_index(w, k)
                if i is not None:
                    sg = list(w.segs)
                    v = sg.pop(i)
                    w.segs = tuple(sg)
                    return v.args[0]
                old = mk('seq', *w.segs)
                w.segs = (splice(unknown('pop', old)),)
                return mk('idx', old, k)
            if name in ('remove', 'sort', 'reverse', 'clear'):
                self.mutated(o, name, st, node)
                w = self.wobj(st, o)
                if name == 'clear':
                    w.segs = ()
                elif name == 'reverse' and all(s.op == 'item' for s in w.segs):
                    w.segs = tuple(reversed(w.segs))
                else:
                    w.segs = (splice(mk('call', 'list_' + name, mk('args', mk('seq', *w.segs), *[self.reify(a, st) for a in args]), mk('kw'))),)
                return NONE
            if name == 'copy':
                return self.new_list(st, ob.segs, arr=ob.order == 'arr')
            if name in ('tolist', 'astype', 'flatten', 'ravel', 'squeeze'):
                return o
            if name in ('sum', 'min', 'max', 'mean', 'any', 'all'):
                return self.ext_call('numpy.' + name, [o] + list(args), kwargs, st, node)
            return mk('meth', self.reify(o, st), name, mk('args', *[self.reify(a, st) for a in args if isinstance(a, T)]), mk('kw'))
        r = self.dict_method(o, name, args, kwargs, st, node)
        if r is not None:
            return r
        return mk('meth', self.reify(o, st), name, mk('args', *[self.reify(a, st) for a in args if isinstance(a, T)]), mk('kw'))

    def dict_method(self, o, name, args, kwargs, st, node):
        isref = o.op == 'ref'
        ob = self.obj(st, o) if isref else None
        if name == 'update':
            if args:
                self.dict_update(o, args[0], st, node)
            for k, v in kwargs:
                if k is not None:
                    self.set_item(o, const(k), v, st, node)
                else:
                    self.dict_update(o, v, st, node)
            return NONE
        if name in ('get', 'pop', 'setdefault') and args:
            k = self.reify(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            c = self.contains(k, o, st)
            if isref and ob.kind in ('dict', 'sym') and self.symbolic_keys(ob, k):
                v = self.dict_lookup(ob, k, d, st)
            elif c is FALSE:
                v = d
            elif c is TRUE:
                v = self.get_item(o, k, st, node)
            else:
                v = ite(c, self.get_item(o, k, st.copy(), node), d)
            if name == 'pop':
                self.del_item(o, k, st, node)
            elif name == 'setdefault':
                if c is not TRUE:
                    self.set_item(o, k, v, st, node)
            return v
        if name == 'copy':
            return self.shallow(o, st)
        if name in ('keys', 'values', 'items'):
            if isref and ob.base is None and ob.kind in ('dict', 'sym') and not any(v is ABSENT or v.op == 'ite' and not self.present(v) is TRUE for v in ob.items.values()):
                if name == 'keys':
                    return self.new_list(st, [item(k) for k in ob.items])
                if name == 'values':
                    return self.new_list(st, [item(v) for v in ob.items.values()])
                return self.new_list(st, [item(mk('tup', k, v)) for k, v in ob.items.items()])
            if name == 'keys':
                if isref:
                    return mk('call', 'keys', mk('args', o), mk('kw'))
                return mk('call', 'keys', mk('args', o), mk('kw'))
            return mk('call', name, mk('args', self.reify(o, st)), mk('kw'))
        if name == 'clear':
            self.mutated(o, 'clear', st, node)
            if isref:
                w = self.wobj(st, o)
                w.items = {}
                w.base = None
            return NONE
        return None

    def dict_update(self, o, v, st, node):
        v = self.simplify_value(v, st)
        if v.op == 'ite':
            self.fork(st, v.args[0], lambda s: (self.dict_update(o, v.args[1], s, node), NONE)[1], lambda s: (self.dict_update(o, v.args[2], s, node), NONE)[1])
            return
        items = []
        base = None
        if v.op == 'ref':
            ob = self.obj(st, v)
            items = list(ob.items.items())
            base = ob.base
        elif v.op == 'dict':
            items = list(zip(v.args[0::2], v.args[1::2]))
        else:
            base = v
            for (t, k), val in st.ov.items():
                if t is v and k.startswith('[]') and not k.startswith('[]?'):
                    items.append((const(ast.literal_eval(k[2:])), val))
        for c, r in self.cases(o):
            self.mutated(r, 'update', st, node)
            if base is not None and r.op == 'ref':
                w = self.wobj(st, r)
                if w.base is None and not w.items:
                    w.base = base
                elif w.base is None:
                    w.base = mk('upd', base)
                    b0 = base
                    w.base = b0
                    for k in list(w.items):
                        if k.op == 'const':
                            w.items[k] = ite(mk('in', k, b0), idx(b0, k), w.items[k])
                else:
                    old = self.reify(r, st)
                    w.base = mk('call', 'dictmerge', mk('args', old, base), mk('kw'))
                    w.items = {}
            for k, x in items:
                if r.op == 'ref':
                    w = self.wobj(st, r)
                    oldv = w.items.get(k, idx(w.base, k) if w.base is not None else ABSENT)
                    w.items[k] = ite(c, x, oldv)
                elif k.op == 'const':
                    key = (r, '[]%r' % (k.args[0],))
                    st.ov[key] = ite(c, x, st.ov.get(key, self._base_read(key))) if c is not TRUE else x

    def shallow(self, o, st):
        o = self.simplify_value(o, st)
        if o.op == 'ite':
            return self.fork(st, o.args[0], lambda s: self.shallow(o.args[1], s), lambda s: self.shallow(o.args[2], s))
        if o.op == 'ref':
            ob = self.obj(st, o)
            r = self.new(st, ob.kind, cls=ob.cls)
            n = ob.clone()
            n.prov = 'fresh'
            st.heap[r.args[0]] = n
            if o in self.idents:
                self.idents[r] = self.idents[o]
            return r
        return self._symcopy(o, st)

    def _symcopy(self, o, st):
        if o.op in ('num', 'const', 'poly', 'tup', 'seq') or o.op in BOOLOPS:
            return o
        r = self.new(st, 'sym', base=o)
        ob = st.heap[r.args[0]]
        for (t, k), val in st.ov.items():
            if t is o:
                if k.startswith('.'):
                    ob.fields[k[1:]] = val
                elif k.startswith('[]') and not k.startswith('[]?'):
                    ob.items[const(ast.literal_eval(k[2:]))] = val
        return r

    def deepcopy(self, o, st, memo=None):
        if memo is None:
            memo = {}
        o = self.simplify_value(o, st)
        if o in memo:
            return memo[o]
        if o.op == 'ite':
            return self.fork(st, o.args[0], lambda s: self.deepcopy(o.args[1], s, memo), lambda s: self.deepcopy(o.args[2], s, memo))
        if o.op == 'ref':
            ob = self.obj(st, o)
            r = self.new(st, ob.kind, cls=ob.cls, base=ob.base)
            memo[o] = r
            if o in self.idents:
                self.idents[r] = self.idents[o]
            n = ob.clone()
            n.prov = 'fresh'
            n.fields = {k: self.deepcopy(v, st, memo) if self._has_ref(v) else v for k, v in ob.fields.items()}
            n.items = {k: self.deepcopy(v, st, memo) if self._has_ref(v) else v for k, v in ob.items.items()}
            n.segs = tuple(self._copyseg(s, st, memo) if self._has_ref(s) else s for s in ob.segs)
            st.heap[r.args[0]] = n
            return r
        if o.op == 'tup':
            return mk('tup', *[self.deepcopy(x, st, memo) for x in o.args])
        if o.op in ('fn', 'cls', 'lam', 'ext', 'mod', 'bm'):
            return o
        if self._has_ref(o):
            return self.reify(o, st)
        r = self._symcopy(o, st)
        if r is not o:
            self.copied.add(o)
        memo[o] = r
        return r

    def _copyseg(self, s, st, memo):
        if s.op == 'item':
            return item(self.deepcopy(s.args[0], st, memo))
        return self.reify(s, st)

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, st):
        l = self.new(st, 'list')
        self.comp(e.generators, st, l, lambda s: self._app(l, self.eval(e.elt, s), s))
        return l

    def _app(self, l, v, s):
        w = self.wobj(s, l)
        w.segs = w.segs + (item(v),)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        v = self.e_ListComp(e, st)
        return mk('call', 'set', mk('args', self.reify(v, st)), mk('kw'))

    def e_DictComp(self, e, st):
        g = e.generators[0]
        r = self.loop_elems(g.iter, st)
        if r[0] == 'condc':
            r = ('sym', num(len(r[1])), lambda iv, s2, r=r: unknown('conditional list'))
        if r[0] == 'concrete' and len(e.generators) == 1:
            d = self.new_dict(st, {})
            saved = dict(st.env)
            for x in r[1]:
                self.assign(g.target, x, st)
                cs = [self.truth_of(self.eval(i, st), st) for i in g.ifs]
                c = self.known(band(*cs), st)
                if c is FALSE:
                    continue
                k = self.reify(self.eval(e.key, st), st)
                v = self.eval(e.value, st)
                self.wobj(st, d).items[k] = ite(c, v, ABSENT)
            st.env = saved
            return d
        saved = dict(st.env)
        iv = self.fresh_iv()
        if r[0] == 'sym' and len(e.generators) == 1:
            self.assign(g.target, r[2](iv, st), st)
            k = self.reify(self.eval(e.key, st), st)
            v = self.reify(self.eval(e.value, st), st)
            st.env = saved
            # identity copy {k: v for k, v in d.items()}
            return unknown('dict comprehension', k, v)
        return unknown('dict comprehension')

    def comp(self, gens, st, l, body):
        saved = dict(st.env)
        self._comp(gens, st, l, body)
        st.env = saved

    def _comp(self, gens, st, l, body):
        if not gens:
            body(st)
            return
        g = gens[0]
        target, ifs = g.target, g.ifs

        class _L:
            pass

        r = self.loop_elems(g.iter, st)

        def one(s):
            cs = TRUE
            def rec(i, s):
                if i == len(ifs):
                    self._comp(gens[1:], s, l, body)
                    return NONE
                c = self.truth_of(self.eval(ifs[i], s), s)
                return self.fork(s, c, lambda q: rec(i + 1, q), lambda q: NONE)
            rec(0, s)
        if r[0] == 'concrete':
            for x in r[1]:
                self.assign(target, x, st)
                one(st)
            return
        if r[0] == 'condc':
            for c, x in r[1]:
                def go(q, x=x):
                    self.assign(target, x, q)
                    one(q)
                    return NONE
                self.fork(st, c, go, lambda q: NONE)
            return
        iv = self.fresh_iv()
        pre = self.obj(st, l).segs
        m = mk('mu', self.ivn[0], 'comp')
        s1 = st.copy()
        self.wobj(s1, l).segs = (splice(m),)
        self.assign(target, r[2](iv, s1), s1)
        one(s1)
        segs = [self.reify(x, s1) for x in self.obj(s1, l).segs]
        st.heap, st.ov, st.ovx, st.rc = s1.heap, s1.ov, s1.ovx, s1.rc
        w = self.wobj(st, l)
        w.segs = tuple(seq(list(pre) + each(r[1], iv, segs[1:])).args)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    # ------------------------------------------------------------ external calls
    def ext_call(self, name, args, kwargs, st, node=None):
        from .externals import ext_call
        if self.on_ext is not None:
            r = self.on_ext(name, args, kwargs, st)
            if r is not None:
                return r
        if name in INPLACE and args:
            for c, r in self.cases(args[0]):
                self.mutated(r, name.split('.')[-1], st, node)
        for k, v in kwargs:
            if k == 'out':
                for c, r in self.cases(v):
                    self.mutated(r, 'out=', st, node)
        return ext_call(self, name, args, kwargs, st, node)


INPLACE = {'numpy.random.shuffle', 'random.shuffle', 'numpy.put', 'numpy.place', 'numpy.copyto', 'numpy.putmask', 'numpy.fill_diagonal',
           'numpy.put_along_axis', 'numpy.nan_to_num_'}
DICTMETH = {'update', 'get', 'pop', 'setdefault', 'copy', 'keys', 'values', 'items', 'clear'}


def sum_term(s):
    """sum over a sequence; gated items become gated summands"""
    if s.op == 'tup':
        return add(*s.args) if s.args else ZERO
    if s.op != 'seq':
        s = mk('seq', splice(s))
    total = ZERO
    rest = []
    for g in s.args:
        if g.op == 'item':
            total = add(total, g.args[0])
        elif g.op == 'cond' and all(x.op == 'item' for x in g.args[1:]):
            total = add(total, ite(g.args[0], add(*[x.args[0] for x in g.args[1:]]), ZERO))
        elif g.op == 'each':
            inner = sum_term(mk('seq', *g.args[2:]))
            r = mk('each', g.args[0], g.args[1], item(inner))
            rest.append(mk('call', 'sum', mk('args', mk('seq', r)), mk('kw')))
        elif g.op == 'splice':
            t = g.args[0]
            # pull out scalars is not attempted
            rest.append(mk('call', 'sum', mk('args', mk('seq', g)), mk('kw')))
        else:
            rest.append(mk('call', 'sum', mk('args', mk('seq', g)), mk('kw')))
    return add(total, *rest)


def _noenv(s):
    return s


def _common(pa, pb, pre, c):
    n = len(pre)
    extra_a = pa[n:]
    extra_b = pb[n:]
    # conditions implied on both sides: keep what was appended after the branch condition as gates
    ga, gb = band(*extra_a), band(*extra_b)
    g = bor(ga, gb)
    return list(pre) + ([] if g is TRUE else [g])


def _dummy_fn():
    return ast.parse('def f():\n pass').body[0]


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t
