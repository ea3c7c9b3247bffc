"""Running one witness program through the interpreter and presenting the result as a transition
relation: (state, previous event, next event | return value | panic)."""
import time
import interp
import models
import policy
from values import *

OK, ERR = 0, 1
TOKEN, PROXY, SKIP, BREAK, CONTINUE, NONE_, STOP = range(7)
FAIL, ERROR = 0, 1
SN = ['Token', 'ProxyChildren', 'Skip', 'Break', 'Continue', 'None', 'Stop']
FN = ['Fail', 'Error']


class Step:
    """what happens after `prev`: kind in exec cb set get ret panic m.*"""
    __slots__ = ('kind', 'st', 'prev', 'ev', 'val', 'fn', 'info', 'definite', 'stack')

    def __init__(self, kind, st, prev, ev=None, val=None, fn=None, info=None, definite=None, stack=None):
        self.kind, self.st, self.prev, self.ev, self.val, self.fn = kind, st, prev, ev, val, fn
        self.info, self.definite, self.stack = info, definite, stack


class Unit:
    pass


def names_of(body):
    return {l: n for l, n in body.names} if body.names and isinstance(body.names[0], list) else {}


def run_unit(prog, name, debug=0, budget=300, mkpolicy=None, max_steps=4000000, pre=None):
    u = Unit()
    u.name, u.debug = name, debug
    pol = (mkpolicy or policy.MatcherPolicy)()
    I = interp.Interp(prog, pol, models.M, budget_s=budget, max_steps=max_steps)
    body = prog.bodies.get(name)
    if body is None:
        raise KeyError('missing witness ' + name)
    st = interp.State()
    nm = names_of(body)
    args = [I.sym(nm.get(i + 1, 'a%d' % i), prog.ty(body.crate, body.locals[i + 1])) for i in range(body.argc)]
    pol.pinned = frozenset(r for a in args for r in a.roots)
    pol.setup(I, st)
    u.args = pol.uargs = {nm.get(i + 1, 'a%d' % i): a for i, a in enumerate(args)}
    if 'ctx' in u.args:
        root = mk('H', u.args['ctx'])
        d = I.read(st, root, ('c', ('f', pol.ctx_field(I, 'debug_mode'))))
        if debug < 2:
            I.assume(st, I.eq(d, N(debug)), True)
        else:
            I.assume(st, I.ge0(n_add(d, N(-2))), True)
        cur, end = pol.cursor(I, st, root)
        I.assume(st, I.le(cur, end), True)
        src = I.read(st, root, ('c', ('f', pol.ctx_field(I, 'parser')), ))
        proot, _ = I.deref_loc(st, src)
        text = I.read(st, proot, ('c', ('f', 0)))
        I.assume(st, I.le(end, I.veclen(text)), True)
        u.cur, u.end, u.text = cur, end, text
        u.ctx_root = root
        u.ctx0 = I.read(st, root, ('c',))
    if pre:
        pre(u, I, st)
    t = time.time()
    u.I, u.pol = I, pol
    u.budget = None
    try:
        rets = I.call_body(st, body, (), args, None, None)
    except interp.Budget as e:
        u.budget = str(e)
        rets = []
    u.secs = time.time() - t
    u.rets = rets
    u.steps = [Step(o.kind, o.st, o.prev, ev=o.ev, fn=o.fn, info=o.info, definite=o.definite, stack=o.stack)
               for o in pol.obs]
    u.steps += [Step('ret', s, s.ghost['last'], val=v) for s, v in rets]
    return u


# ---------------------------------------------------------------------- normal forms
def norm(I, st, v, depth=12):
    """spell out what is known about an opaque value"""
    if depth <= 0 or not isinstance(v, V):
        return v
    if v.t == 'adt':
        f = tuple(norm(I, st, x, depth - 1) for x in v.a[2])
        return mk('adt', v.a[0], v.a[1], f)
    if v.t == 'tup':
        return mk('tup', tuple(norm(I, st, x, depth - 1) for x in v.a[0]))
    if v.t == 'box':
        return mk('box', norm(I, st, v.a[0], depth - 1))
    if v.t == 'n':
        return v
    ty = I.vty(v)
    if v.t in ('sym', 'phi', 'uf') and ty and ty[0] == 'adt':
        if ty[1] == 'alloc::boxed::Box':
            inner = I.project(st, v, '*')
            n = norm(I, st, inner, depth - 1)
            return mk('box', n)
        if I.is_enum(ty):
            k = st.vars.get(v)
            if k is None:
                return v
            w = mk('dc', v, k)
            nf = len(I.variants(ty)[k]['f'])
            return mk('adt', ty, k, tuple(norm(I, st, I.project(st, w, ('f', i)), depth - 1) for i in range(nf)))
        return v
    if v.t == 'sym' and ty and ty[0] == 'tuple':
        return mk('tup', tuple(norm(I, st, I.project(st, v, ('f', i)), depth - 1) for i in range(len(ty[1]))))
    return v


def with_vars(st, d):
    """st refined by variant knowledge; None if contradictory"""
    for k, x in d.items():
        have = st.vars.get(k)
        if have is not None and have != x:
            return None
    s = st.copy()
    s.vars.update(d)
    return s


def field(I, v, var, i):
    """payload i of variant var of an opaque enum value"""
    ty = I.vty(v)
    return I.project(None, mk('dc', v, var), ('f', i))


class Ans:
    """the answer r of a child execution, spelled out for a given case"""

    def __init__(self, I, r):
        self.r = r
        self.ok = field(I, r, OK, 0)
        self.err = field(I, r, ERR, 0)
        self.tok = {TOKEN: field(I, self.ok, TOKEN, 0), PROXY: field(I, self.ok, PROXY, 0)}
        self.skip = field(I, self.ok, SKIP, 0)
        self.error = field(I, self.err, ERROR, 0)
        self.pair = {k: field(I, self.ok, k, 0) for k in (BREAK, CONTINUE)}
        self.label = {k: I.project(None, p, ('f', 0)) for k, p in self.pair.items()}
        self.pbox = {k: I.project(None, p, ('f', 1)) for k, p in self.pair.items()}
        self.pay = {k: I.project(None, p, '*') for k, p in self.pbox.items()}

    def cases(self, payloads=True):
        """every shape an answer can have: (name, variant knowledge)"""
        r, ok = self.r, self.ok
        for k in range(7):
            base = {r: OK, ok: k}
            if k in (BREAK, CONTINUE) and payloads:
                for j in range(7):
                    yield SN[k] + '(' + SN[j] + ')', dict(list(base.items()) + [(self.pay[k], j)])
            else:
                yield SN[k], base
        for k in range(2):
            yield FN[k], {r: ERR, self.err: k}

    def case(self, name):
        for n, d in self.cases():
            if n == name or n.split('(')[0] == name and '(' not in name:
                yield n, d


def opaque_in(v, what=('phi', 'uf')):
    """does the value depend on something the analysis merged or invented"""
    if isinstance(v, tuple):
        return any(opaque_in(x, what) for x in v)
    if not isinstance(v, V):
        return False
    if v.t in what:
        return True
    if v.t == 'sym' and v.a[0] == 'unk':
        return True
    return any(opaque_in(x, what) for x in v.a if isinstance(x, (V, tuple)))


def eqv(I, st, a, b):
    """True / False / None (cannot tell)"""
    a, b = norm(I, st, a), norm(I, st, b)
    return eqn(I, st, a, b)


def eqn(I, st, a, b):
    if a is b:
        return True
    if a.t == 'n' and b.t == 'n':
        d = I.decide(st, I.eq(a, b))
        if d is not None:
            return d
        return None if opaque_in((a, b)) else False
    if a.t == b.t == 'adt':
        if a.a[0][:2] != b.a[0][:2]:
            return None
        if a.a[1] != b.a[1]:
            return False
        return all3(eqn(I, st, x, y) for x, y in zip(a.a[2], b.a[2]))
    if a.t == b.t == 'tup':
        return all3(eqn(I, st, x, y) for x, y in zip(a.a[0], b.a[0]))
    if a.t == b.t == 'box':
        return eqn(I, st, a.a[0], b.a[0])
    if a.t == b.t == 'rc':
        return False
    if a.t == b.t == 'str':
        return False
    if opaque_in((a, b)):
        return None
    ta, tb = a.t, b.t
    if 'adt' in (ta, tb) and 'sym' in (ta, tb):
        s = a if ta == 'sym' else b
        o = b if ta == 'sym' else a
        ty = I.vty(s)
        if ty and ty[0] == 'adt' and I.is_enum(ty):
            # variant not known here: where knowledge is never merged away, it can be the other one
            return False if getattr(I, 'exact', False) and ty[:2] == o.a[0][:2] else None
        if ty and ty[0] == 'adt' and ty[:2] == o.a[0][:2] and ty[1].startswith('adextopa_core::') and st is not None:
            return all3(eqn(I, st, norm(I, st, I.project(st, s, ('f', i))), x) for i, x in enumerate(o.a[2]))
        return None
    if {ta, tb} == {'sym', 'str'}:
        # a text that was handed in against a constant: the same only if the path found that out
        c, x = (a, b) if ta == 'str' else (b, a)
        if c.a[0] == '':
            d = I.decide(st, I.eq(I.veclen(x), N(0)))
        else:
            d = I.decide(st, mk('streq', *sorted((a, b))))
        return False if d is None else d
    if ta == tb == 'sym':
        return False                    # two different unconstrained inputs
    if {ta, tb} == {'sym', 'rc'}:
        return False                    # a fresh object against one that was handed in
    return None


def all3(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r
