"""Abstract interpreter over the dumped MIR: a worklist dataflow analysis with trace
partitioning.  Every function is analysed over abstract values (linear forms over opaque atoms,
structured values, opaque typed symbols); states that reach the same block are kept apart only while
their *shapes* differ, loop heads join states (differing numeric or opaque leaves become phi
symbols) and iterate to a fixpoint."""
import time
from values import *
import ir

USIZE = ('int', 'usize')
ISIZE = ('int', 'isize')
BOOL = ('bool',)
STR = ('str',)
STRING = ('adt', 'alloc::string::String')
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
UMAX = 2 ** 64 - 1
IMAX = 2 ** 63 - 1


RV = mk('L', 0, 'ret')


class Split(Exception):
    def __init__(self, atom):
        self.atom = atom


class SplitVariant(Exception):
    def __init__(self, v):
        self.v = v


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ('cells', 'facts', 'cons', 'vars', 'borrows', 'ghost', 'trace')

    def __init__(self):
        self.cells = {}
        self.facts = {}
        self.cons = frozenset()
        self.vars = {}
        self.borrows = {}
        self.ghost = {}
        self.trace = None

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.cons = self.cons
        s.vars = dict(self.vars)
        s.borrows = dict(self.borrows)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.cells.items()), frozenset(self.facts.items()), self.cons,
                frozenset(self.vars.items()), frozenset(self.borrows.items()), frozenset(self.ghost.items()))

    def note(self, *a):
        self.trace = (self.trace, a)

    def traces(self, n=40):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


def is_int(ty):
    return ty[0] in ('int', 'char')


class Call:
    __slots__ = ('I', 'st', 'key', 'name', 'targs', 'args', 'argtys', 'ret', 'fr', 'bb', 'span', 'site', 'selfty')

    def arg(self, i):
        return self.args[i]


class Frame:
    __slots__ = ('fid', 'body', 'env', 'key', 'live', 'parent', 'bb')


class Interp:
    def __init__(self, prog, policy, models, budget_s=120, max_steps=600000):
        self.ent_memo = {}
        self.p = prog
        self.policy = policy
        self.models = models
        self.fids = {}
        self.stack = []
        self.steps = 0
        self.max_steps = max_steps
        self.t_end = time.time() + budget_s
        self.undecided = {}
        self.funcs = set()
        self.blocks_seen = set()
        self.calls_seen = set()
        self._refs = {}
        self.deep = 0

    # ------------------------------------------------------------------ bookkeeping
    def unknown(self, what):
        self.undecided[what] = self.undecided.get(what, 0) + 1

    def fid(self, parent, bb, key):
        k = (parent, bb, key)
        f = self.fids.get(k)
        if f is None:
            f = len(self.fids) + 1
            self.fids[k] = f
        return f

    # ------------------------------------------------------------------ opaque values
    def opaque(self, v, ty):
        if is_int(ty):
            return atom_n(v)
        if ty == ('tuple', ()):
            return UNIT
        if ty[0] == 'adt' and not self.is_enum(ty) and self.unit_struct(ty):
            return mk('adt', ty, 0, ())
        return v

    def is_enum(self, ty):
        e = self.p.adts.get(ty[1])
        return bool(e and e[1]['enum'])

    def unit_struct(self, ty):
        e = self.p.adts.get(ty[1])
        return bool(e and e[1]['full'] and len(e[1]['v']) == 1 and not e[1]['v'][0]['f'])

    def sym(self, root, ty, path=()):
        return self.opaque(mk('sym', root, path, ty), ty)

    def unk(self, ty, tag='?'):
        return self.opaque(mk('sym', 'unk', (tag,), ty), ty)

    def uf(self, name, args, ty):
        return self.opaque(mk('uf', name, tuple(args), ty), ty)

    def sub(self, v, step, ty):
        if v.t == 'sym':
            return self.opaque(mk('sym', v.a[0], v.a[1] + (step,), ty), ty)
        return self.opaque(mk('sym', v, (step,), ty), ty)

    def vty(self, v):
        """type of an opaque value"""
        if v.t in ('sym', 'uf', 'phi'):
            return v.a[-1]
        if v.t == 'adt':
            return v.a[0]
        if v.t == 'clo':
            return v.a[1]
        return None

    # ------------------------------------------------------------------ projection
    def project(self, st, v, e):
        t = v.t
        if e == '*':
            if t == 'box':
                return v.a[0]
            if t == 'adt' and v.a[0][1] == 'alloc::boxed::Box':
                return v.a[2][0]
            ty = self.vty(v)
            if ty:
                if ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box':
                    return self.sub(v, '*', ty[2])
                if ty[0] in ('ref',):
                    return self.sub(v, '*', ty[2])
                if ty[0] == 'ptr':
                    return self.sub(v, '*', ty[1])
            return self.unk(('other', 'deref'), 'deref')
        if e == 'c':
            if t == 'cell':
                return v.a[0]
            ty = self.vty(v)
            if ty and ty[0] == 'adt' and len(ty) > 2:
                return self.sub(v, 'c', ty[2])
            return self.unk(('other', 'cell'), 'cell')
        k = e[0]
        if k == 'f':
            i = e[1]
            if t == 'adt':
                if i < len(v.a[2]):
                    return v.a[2][i]
                return self.unk(('other', 'field'), 'field')
            if t == 'tup':
                return v.a[0][i]
            if t == 'clo':
                return v.a[2][i]
            if t == 'dc':
                base, var = v.a
                ty = self.vty(base)
                fs = self.p.fields(ty[1], ty[2:], var) if ty and ty[0] == 'adt' else None
                fty = fs[i] if fs and i < len(fs) else ('other', 'field')
                return self.sub(base, (var, i), fty)
            ty = self.vty(v)
            if ty:
                if ty[0] == 'adt':
                    fs = self.p.fields(ty[1], ty[2:], 0)
                    fty = fs[i] if fs and i < len(fs) else ('other', 'field')
                    return self.sub(v, i, fty)
                if ty[0] == 'tuple':
                    return self.sub(v, i, ty[1][i])
                if ty[0] == 'closure':
                    return self.sub(v, i, ty[2][i])
            return self.unk(('other', 'field'), 'field')
        if k == 'v':
            if t == 'adt':
                return v
            return mk('dc', v, e[1])
        if k == 'i':
            return self.elem(st, v, e[1])
        if k == 'tf':
            return self.token_field(v, e[1])
        if k == 'ss':
            if t == 'vec' and v.a[0] is None:
                n = len(v.a[1])
                hi = n - e[2] if e[3] else e[2]
                return mk('vec', None, v.a[1][e[1]:hi])
            return self.uf('subslice', (v,) + tuple(e[1:]), self.vty(v) or ('other', 'slice'))
        return self.unk(('other', 'proj'), 'proj')

    def elem_ty(self, v):
        ty = self.vty(v)
        if ty is None:
            if v.t == 'vec' and v.a[0] is not None:
                return self.elem_ty(v.a[0])
            if v.t == 'vec' and v.a[1]:
                return self.vty(v.a[1][-1]) or ('other', 'elem')
            return ('other', 'elem')
        if ty[0] in ('slice', 'array'):
            return ty[1]
        if ty[0] == 'adt' and len(ty) > 2:
            return ty[2]
        return ('other', 'elem')

    def elem(self, st, v, idx):
        if v.t == 'vec':
            base, parts = v.a
            k = const_of(idx)
            if base is None and k is not None:
                if 0 <= k < len(parts):
                    return parts[k]
                return self.unk(('other', 'oob'), 'oob')
            if base is not None:
                off = n_sub(idx, self.veclen(base))
                k = const_of(off)
                if k is not None and 0 <= k < len(parts):
                    return parts[k]
                if not parts or self.decide_ge0(st, n_add(n_sub(self.veclen(base), idx), N(-1))):
                    return self.sub(base, ('el', idx), self.elem_ty(base))
            elif parts and all(x is parts[0] for x in parts):
                return parts[0]
        if v.t == 'uf' and v.a[0] == 'vecset' and st is not None:
            same = self.decide(st, self.eq(idx, v.a[1][1]))
            if same is not None:
                return v.a[1][2] if same else self.elem(st, v.a[1][0], idx)
        return self.sub(v, ('el', idx), self.elem_ty(v))

    def veclen(self, v):
        if v is None:
            return N(0)
        if v.t == 'str':
            return N(len(v.a[0].encode('utf8', 'surrogatepass')))
        if v.t == 'uf' and v.a[0] == 'substr':
            return n_sub(v.a[1][2], v.a[1][1])
        if v.t == 'vec':
            return n_add(self.veclen(v.a[0]), N(len(v.a[1])))
        if v.t == 'uf' and v.a[0] == 'vecset':
            return self.veclen(v.a[1][0])
        if v.t == 'uf' and v.a[0] == 'extend' and v.a[1][1].t in ('sym', 'vec') and self.vecty(v.a[1][1]) == self.vecty(v):
            return n_add(self.veclen(v.a[1][0]), self.veclen(v.a[1][1]))
        return atom_n(mk('len', v))

    TOKF = {'name': STRING, 'value': STRING, 'captured_value': STRING, 'matched_value': STRING,
            'flags': ('int', 'u8')}

    def tokf_ty(self, f):
        p = 'adextopa_core::'
        if f in self.TOKF:
            return self.TOKF[f]
        if f in ('captured', 'matched'):
            return ('adt', p + 'source_range::SourceRange')
        tok = self.token_ref_ty()
        if f == 'parent':
            return ('adt', 'core::option::Option', tok)
        if f == 'children':
            return ('adt', 'alloc::vec::Vec', tok, ('adt', 'alloc::alloc::Global'))
        if f == 'attrs':
            return ('adt', 'std::collections::hash::map::HashMap', STRING, STRING, ('other', 'S'), ('other', 'A'))
        if f == 'parser':
            return ('adt', 'alloc::rcs::rc::Rc', ('adt', 'core::cell::RefCell', ('adt', p + 'parser::Parser')),
                    ('adt', 'alloc::alloc::Global'))
        return ('other', f)

    def token_ref_ty(self):
        g = ('adt', 'alloc::alloc::Global')
        return ('adt', 'alloc::rcs::rc::Rc',
                ('adt', 'core::cell::RefCell',
                 ('adt', 'alloc::boxed::Box', ('dyn', 'adextopa_core::token::Token'), g)), g)

    def token_field(self, v, f):
        if v.t == 'rec':
            for n, x in v.a[1]:
                if n == f:
                    return x
            v = v.a[0]
        return self.sub(v, ('tf', f), self.tokf_ty(f))

    def getroot(self, st, root):
        v = st.cells.get(root)
        if v is not None:
            return v
        if root.t == 'I':
            return root.a[0]
        if root.t == 'H':
            x = root.a[0]
            if isinstance(x, V):
                ty = self.vty(x)
                if ty and ty[0] == 'adt' and len(ty) > 2:     # Rc<T>
                    return self.sub(x, '*', ty[2])
                if ty and ty[0] == 'ref':
                    return self.sub(x, '*', ty[2])
                if ty and ty[0] == 'ptr':
                    return self.sub(x, '*', ty[1])
            return self.unk(('other', 'heap'), 'heap')
        if root.t == 'S':
            return self.sym('static:' + root.a[0], root.a[1])
        return UNINIT

    def read(self, st, root, proj):
        v = self.getroot(st, root)
        for e in proj:
            v = self.project(st, v, e)
        return v

    def expand(self, v, e):
        """make one layer of an opaque value explicit so that e can be updated in it"""
        ty = self.vty(v)
        if e == '*':
            if ty and ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box':
                return mk('box', self.sub(v, '*', ty[2]))
        elif e == 'c':
            if ty and ty[0] == 'adt' and len(ty) > 2:
                return mk('cell', self.sub(v, 'c', ty[2]))
        elif e[0] in ('f', 'v'):
            var = e[1] if e[0] == 'v' else 0
            if ty and ty[0] == 'adt':
                fs = self.p.fields(ty[1], ty[2:], var)
                if fs is not None:
                    if e[0] == 'v':
                        return mk('adt', ty, var, tuple(self.sub(v, (var, i), f) for i, f in enumerate(fs)))
                    return mk('adt', ty, 0, tuple(self.sub(v, i, f) for i, f in enumerate(fs)))
            if ty and ty[0] == 'tuple':
                return mk('tup', tuple(self.sub(v, i, f) for i, f in enumerate(ty[1])))
        elif e[0] == 'tf':
            return mk('rec', v, ())
        return None

    def update(self, st, v, proj, new):
        if not proj:
            return new
        e, rest = proj[0], proj[1:]
        if v.t in ('sym', 'phi', 'uf'):
            if e[0] == 'i' and self.vty(v) and self.vty(v)[0] in ('adt', 'slice', 'array'):
                return self.uf('vecset', (v, e[1], self.update(st, self.elem(st, v, e[1]), rest, new)), self.vty(v))
            x = self.expand(v, e)
            if x is None:
                return self.unk(self.vty(v) or ('other', 'upd'), 'upd')
            v = x
        t = v.t
        if e == '*' and t == 'box':
            return mk('box', self.update(st, v.a[0], rest, new))
        if e == 'c' and t == 'cell':
            return mk('cell', self.update(st, v.a[0], rest, new))
        if isinstance(e, tuple):
            k = e[0]
            if k == 'v':
                return self.update(st, v, rest, new)
            if k == 'f':
                i = e[1]
                if t == 'adt' and i < len(v.a[2]):
                    f = v.a[2]
                    return mk('adt', v.a[0], v.a[1], f[:i] + (self.update(st, f[i], rest, new),) + f[i + 1:])
                if t == 'tup' and i < len(v.a[0]):
                    f = v.a[0]
                    return mk('tup', f[:i] + (self.update(st, f[i], rest, new),) + f[i + 1:])
                if t == 'clo':
                    f = v.a[2]
                    return mk('clo', v.a[0], v.a[1], f[:i] + (self.update(st, f[i], rest, new),) + f[i + 1:])
                if t in ('uninit', 'moved'):
                    # piecewise initialisation (e.g. `(*box).1.0 = [..]`)
                    if new is MOVED:
                        return v
                    return mk('piece', e, self.update(st, UNINIT, rest, new))
                if t == 'piece':
                    return mk('piece', e, self.update(st, UNINIT, rest, new))
            if k == 'i' and t == 'vec':
                base, parts = v.a
                j = const_of(e[1])
                if base is None and j is not None and 0 <= j < len(parts):
                    return mk('vec', None, parts[:j] + (self.update(st, parts[j], rest, new),) + parts[j + 1:])
                return mk('vec', self.uf('vecset', (v, e[1], self.update(st, self.elem(st, v, e[1]), rest, new)),
                                         self.vecty(v)), ())
            if k == 'tf' and t == 'rec':
                old = self.token_field(v, e[1])
                nv = self.update(st, old, rest, new)
                d = dict(v.a[1])
                d[e[1]] = nv
                return mk('rec', v.a[0], tuple(sorted(d.items())))
        return self.unk(self.vty(v) or ('other', 'upd'), 'upd')

    def vecty(self, v):
        while v.t == 'vec' and v.a[0] is not None:
            v = v.a[0]
        return self.vty(v) or ('adt', 'alloc::vec::Vec', self.elem_ty(v))

    def write(self, st, root, proj, new):
        if root.t == 'I':
            return
        if not proj:
            st.cells[root] = new
        else:
            st.cells[root] = self.update(st, self.getroot(st, root), proj, new)

    # deref of a pointer value to a location
    def deref_loc(self, st, v):
        if v.t == 'ref':
            return v.a[0], v.a[1]
        if v.t == 'vref':
            return mk('I', v.a[0]), ()
        if v.t == 'rc':
            return v.a[0], ()
        if v.t in ('sym', 'phi', 'uf'):
            return mk('H', v), ()
        return mk('I', self.unk(('other', 'deref'), 'deref')), ()

    def load(self, st, refv):
        """value behind a reference"""
        r, p = self.deref_loc(st, refv)
        return self.read(st, r, p)

    def place(self, st, fr, pl):
        root = mk('L', fr.fid, pl[0])
        proj = ()
        for e in pl[1:]:
            k = e[0]
            if k == '*':
                v = self.read(st, root, proj)
                if v.t == 'box' or v.t == 'uninit' or v.t == 'boxu':
                    proj = proj + ('*',)
                    continue
                ty = self.vty(v)
                if ty and ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box':
                    proj = proj + ('*',)
                    continue
                root, proj = self.deref_loc(st, v)
            elif k == 'f':
                proj = proj + (('f', e[1]),)
            elif k == 'v':
                proj = proj + (('v', e[1]),)
            elif k == 'i':
                proj = proj + (('i', self.read(st, mk('L', fr.fid, e[1]), ())),)
            elif k == 'ci':
                if e[3]:
                    v = self.read(st, root, proj)
                    proj = proj + (('i', n_sub(self.veclen(v), N(e[1]))),)
                else:
                    proj = proj + (('i', N(e[1])),)
            elif k == 'ss':
                proj = proj + (('ss', e[1], e[2], e[3]),)
        return root, proj

    # ------------------------------------------------------------------ numeric facts
    def atom_lo(self, x):
        return -2 ** 63 if self.signed(x) else 0

    def signed(self, x):
        ty = x.a[-1] if x.t in ('sym', 'uf', 'phi') else None
        return bool(ty and ty[0] == 'int' and ty[1][0] == 'i')

    def atom_hi(self, x):
        if x.t == 'len':
            return IMAX
        if x.t in ('sym', 'uf', 'phi'):
            ty = x.a[-1]
            if ty[0] == 'char':
                return 0x10ffff
            if ty[0] == 'int':
                if x.t == 'sym' and self.policy.small(x):
                    return IMAX
                w = WIDTH[ty[1]]
                return 2 ** (w - 1) - 1 if ty[1][0] == 'i' else 2 ** w - 1
        return None

    def lin_lo(self, l):
        s = l.a[0]
        for x, c in l.a[1]:
            if c > 0:
                lo = self.atom_lo(x)
                s += c * lo
            else:
                hi = self.atom_hi(x)
                if hi is None:
                    return None
                s += c * hi
        return s

    def entails(self, cons, l):
        """l >= 0 provable"""
        if not isinstance(cons, frozenset):
            return self.entails1(cons, l)
        key = (cons, l)
        r = self.ent_memo.get(key)
        if r is None:
            if len(self.ent_memo) > 400000:
                self.ent_memo.clear()
            r = self.ent_memo[key] = self.entails1(cons, l)
        return r

    def entails1(self, cons, l):
        lo = self.lin_lo(l)
        if lo is not None and lo >= 0:
            return True
        rel = [k for k in cons]
        for k in rel:
            if not shares(l, k):
                continue
            d = n_sub(l, k)
            lo = self.lin_lo(d)
            if lo is not None and lo >= 0:
                return True
        if len(l.a[1]) >= 1:
            for i, k in enumerate(rel):
                if not shares(l, k):
                    continue
                d = n_sub(l, k)
                for k2 in rel:
                    if k2 is k:
                        continue
                    lo = self.lin_lo(n_sub(d, k2))
                    if lo is not None and lo >= 0:
                        return True
        return False

    def decide_ge0(self, st, l):
        if self.entails(st.cons, l):
            return True
        if self.entails(st.cons, n_add(n_scale(l, -1), N(-1))):
            return False
        return None

    def ge0(self, l):
        c = const_of(l)
        if c is not None:
            return mk('b', c >= 0)
        return mk('ge0', l)

    def lt(self, a, b):
        return self.ge0(n_add(n_sub(b, a), N(-1)))

    def le(self, a, b):
        return self.ge0(n_sub(b, a))

    def eq(self, a, b):
        l = n_sub(a, b)
        c = const_of(l)
        if c is not None:
            return mk('b', c == 0)
        if l.a[1][0][1] < 0:
            l = n_scale(l, -1)
        return mk('eq0', l)

    def neg(self, b):
        if b.t == 'b':
            return mk('b', not b.a[0])
        if b.t == 'not':
            return b.a[0]
        if b.t == 'ge0':
            return mk('ge0', n_add(n_scale(b.a[0], -1), N(-1)))
        return mk('not', b)

    def decide(self, st, b):
        t = b.t
        if t == 'b':
            return b.a[0]
        if t == 'not':
            r = self.decide(st, b.a[0])
            return None if r is None else not r
        if t == 'ge0':
            d = self.decide_ge0(st, b.a[0])
            return d if d is not None else self.policy.decide(self, st, b)
        if b in st.facts:
            return st.facts[b]
        if t == 'eq0':
            l = b.a[0]
            if len(l.a[1]) == 1 and l.a[1][0][0].t == 'discr':
                x, ty = l.a[1][0][0].a
                k = st.vars.get(x)
                if k is not None and self.variants(ty):
                    return l.a[0] + self.variants(ty)[k]['d'] * l.a[1][0][1] == 0
                return None
            p = self.decide_ge0(st, l)
            if p is False:
                return False
            n = self.decide_ge0(st, n_scale(l, -1))
            if n is False:
                return False
            if p and n:
                return True
            return None
        if t in ('and', 'or'):
            x, y = self.decide(st, b.a[0]), self.decide(st, b.a[1])
            if t == 'and':
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            else:
                if x or y:
                    return True
                if x is False and y is False:
                    return False
            return None
        if t == 'streq':
            x, y = b.a
            if x is y:
                return True
            # a string known equal to one literal differs from every other literal
            for f, val in st.facts.items():
                if val and f.t == 'streq':
                    o = None
                    if f.a[0] is x and f.a[1] is not y:
                        o = f.a[1], y
                    elif f.a[1] is x:
                        o = f.a[0], y
                    elif f.a[0] is y:
                        o = f.a[1], x
                    elif f.a[1] is y:
                        o = f.a[0], x
                    if o and o[0].t == 'str' and o[1].t == 'str':
                        return o[0] is o[1]
        return self.policy.decide(self, st, b)

    def assume(self, st, b, val):
        """add b == val; returns False when infeasible"""
        d = self.decide(st, b)
        if d is not None:
            return d == val
        t = b.t
        if t == 'not':
            return self.assume(st, b.a[0], not val)
        if t == 'ge0':
            l = b.a[0] if val else n_add(n_scale(b.a[0], -1), N(-1))
            self.addcons(st, l)
            return True
        if t == 'eq0':
            l = b.a[0]
            if len(l.a[1]) == 1 and l.a[1][0][0].t == 'discr':
                x, ty = l.a[1][0][0].a
                vs = self.variants(ty)
                hit = [i for i, w in enumerate(vs or ()) if l.a[0] + w['d'] * l.a[1][0][1] == 0]
                rest = [i for i in range(len(vs or ())) if i not in hit]
                pick = hit if val else rest
                if len(pick) == 1:
                    st.vars[x] = pick[0]
                elif vs and not pick:
                    return False
                else:
                    st.facts[b] = val
                return True
            if val:
                self.addcons(st, l)
                self.addcons(st, n_scale(l, -1))
            else:
                st.facts[b] = False
                if self.entails(st.cons, l):
                    self.addcons(st, n_add(l, N(-1)))
                elif self.entails(st.cons, n_scale(l, -1)):
                    self.addcons(st, n_add(n_scale(l, -1), N(-1)))
            return True
        if t == 'and':
            if val:
                return self.assume(st, b.a[0], True) and self.assume(st, b.a[1], True)
            x = self.decide(st, b.a[0])
            if x:
                return self.assume(st, b.a[1], False)
            y = self.decide(st, b.a[1])
            if y:
                return self.assume(st, b.a[0], False)
        if t == 'or':
            if not val:
                return self.assume(st, b.a[0], False) and self.assume(st, b.a[1], False)
            x = self.decide(st, b.a[0])
            if x is False:
                return self.assume(st, b.a[1], True)
            y = self.decide(st, b.a[1])
            if y is False:
                return self.assume(st, b.a[0], True)
        st.facts[b] = val
        return True

    def addcons(self, st, l):
        if l in st.cons:
            return
        st.cons = st.cons | {l}
        # x != 0 facts sharpen new bounds
        for f, v in list(st.facts.items()):
            if v is False and f.t == 'eq0':
                m = f.a[0]
                if m is l or n_scale(m, -1) is l:
                    st.cons = st.cons | {n_add(l, N(-1))}

    # ------------------------------------------------------------------ operands / rvalues
    def operand(self, st, fr, o):
        k = o[0]
        if k == 'c':
            r, p = self.place(st, fr, o[1:] if not isinstance(o[1], list) else o[1])
            return self.read(st, r, p)
        if k == 'm':
            r, p = self.place(st, fr, o[1])
            v = self.read(st, r, p)
            if r.t == 'L':
                if not p:
                    st.cells[r] = MOVED
                elif self.needs_moved(v):
                    self.write(st, r, p, MOVED)
            return v
        if k == 'k':
            return self.const(st, fr, o[1])
        return self.unk(('other', 'operand'), 'operand')

    def needs_moved(self, v):
        """only values that own guards need partial-move tracking"""
        return has_guard(v)

    def const(self, st, fr, c):
        ty = self.p.ty(fr.body.crate, c['t'], fr.env)
        if 'int' in c:
            if ty[0] == 'bool':
                return mk('b', bool(c['int']))
            if ty[0] in ('int', 'char'):
                return N(c['int'])
            if ty[0] == 'adt' and self.is_enum(ty):
                info = self.p.adts[ty[1]][1]
                for i, v in enumerate(info['v']):
                    if v['d'] == c['int'] and not v['f']:
                        return mk('adt', ty, i, ())
            return mk('kint', c['int'], ty)
        if 'str' in c:
            return mk('vref', mk('str', c['str']))
        if 'fn' in c:
            return mk('fn', ty[1], ty[2])
        if 'static' in c:
            inner = ty[2] if ty[0] == 'ref' else ty[1] if ty[0] == 'ptr' else ty
            return mk('ref', mk('S', c['static'], inner), ())
        if 'zst' in c:
            if ty == ('tuple', ()):
                return UNIT
            if ty[0] == 'adt' and self.unit_struct(ty):
                return mk('adt', ty, 0, ())
            if ty[0] == 'closure':
                return mk('clo', ty[1], ty, ())
            return mk('zst', ty)
        if c.get('mem') is not None and ty[0] == 'ref':
            return mk('vref', self.uf('mem:' + c['mem'], (), ty[2]))
        if 'def' in c:
            return self.opaque(mk('sym', 'const:' + c['def'], (), ty), ty)
        return self.opaque(mk('sym', 'const', (str(sorted(c.items())),), ty), ty)

    def arith(self, st, op, a, b, ty):
        if a.t == 'n' and b.t == 'n' and (ty[0] == 'int' or ty[0] == 'char'):
            if op in ('Add', 'AddUnchecked'):
                return n_add(a, b)
            if op in ('Sub', 'SubUnchecked'):
                return n_sub(a, b)
            ca, cb = const_of(a), const_of(b)
            if op in ('Mul', 'MulUnchecked'):
                if cb is not None:
                    return n_scale(a, cb)
                if ca is not None:
                    return n_scale(b, ca)
            if ca is not None and cb is not None:
                try:
                    if op == 'BitAnd':
                        return N(ca & cb)
                    if op == 'BitOr':
                        return N(ca | cb)
                    if op == 'BitXor':
                        return N(ca ^ cb)
                    if op == 'Div':
                        return N(int(ca / cb))
                    if op == 'Rem':
                        return N(ca - cb * int(ca / cb))
                    if op in ('Shl', 'ShlUnchecked'):
                        return N(ca << cb)
                    if op in ('Shr', 'ShrUnchecked'):
                        return N(ca >> cb)
                except Exception:
                    pass
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Mul', 'MulUnchecked') and b.id < a.id:
                a, b = b, a
            return self.bitop(st, op, a, b, ty)
        return self.uf('op' + op, (a, b), ty)

    def bitop(self, st, op, a, b, ty):
        if op == 'BitOr' and a is b:
            return a
        if op == 'BitAnd' and a is b:
            return a
        if op == 'BitOr':
            if const_of(a) == 0:
                return b
            if const_of(b) == 0:
                return a
        return self.uf('op' + op, (a, b), ty)

    def binop(self, st, op, a, b, ty):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a.t == 'n' and b.t == 'n':
                m = self.bitmask_cmp(st, op, a, b)
                if m is not None:
                    return m
                r = {'Eq': lambda: self.eq(a, b), 'Ne': lambda: self.neg(self.eq(a, b)), 'Lt': lambda: self.lt(a, b),
                     'Le': lambda: self.le(a, b), 'Gt': lambda: self.lt(b, a), 'Ge': lambda: self.le(b, a)}[op]()
                d = self.decide(st, r)
                return r if d is None else mk('b', d)
            if ty[0] == 'bool':
                if op == 'Eq' or op == 'Ne':
                    for x, y in ((a, b), (b, a)):
                        if x.t == 'b':
                            r = y if x.a[0] else self.neg(y)
                            return r if op == 'Eq' else self.neg(r)
                    if a is b:
                        return mk('b', op == 'Eq')
            if a is b and op in ('Eq', 'Ne'):
                return mk('b', op == 'Eq')
            r = mk('cmp', op, a, b)
            if op == 'Ne':
                return self.neg(mk('cmp', 'Eq', a, b))
            return r
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            base = op[:3]
            v = self.arith(st, base, a, b, ty)
            if v.t == 'n' and ty[0] == 'int':
                w = WIDTH[ty[1]]
                sg = ty[1][0] == 'i'
                hi = 2 ** (w - 1) - 1 if sg else 2 ** w - 1
                lo = -2 ** (w - 1) if sg else 0
                over = self.ge0(n_add(v, N(-hi - 1)))
                under = self.ge0(n_add(n_scale(v, -1), N(lo - 1)))
                if not sg and base == 'Sub' and not v.a[1]:
                    over = FALSE
                if sg:
                    do, du = self.decide(st, over), self.decide(st, under)
                    if do or du:
                        o = TRUE
                    elif do is False and du is False:
                        o = FALSE
                    elif do is False:
                        o = under
                    elif du is False:
                        o = over
                    else:
                        o = mk('or', over, under)
                elif base == 'Sub':
                    o = under
                else:
                    o = over
                d = self.decide(st, o)
                if d is not None:
                    o = mk('b', d)
                return mk('tup', (v, o))
            return mk('tup', (v, FALSE))
        if ty[0] == 'bool':
            if op in ('BitAnd', 'BitOr'):
                for x, y in ((a, b), (b, a)):
                    d = self.decide(st, x)
                    if d is not None:
                        if op == 'BitAnd':
                            return y if d else FALSE
                        return TRUE if d else y
                return mk('and' if op == 'BitAnd' else 'or', a, b)
            if op == 'BitXor':
                for x, y in ((a, b), (b, a)):
                    d = self.decide(st, x)
                    if d is not None:
                        return self.neg(y) if d else y
        if op == 'Offset' or op == 'Cmp':
            if op == 'Cmp' and a.t == 'n' and b.t == 'n':
                return self.uf('Cmp', (a, b), ('adt', 'core::cmp::Ordering'))
            return self.uf(op, (a, b), ty)
        return self.arith(st, op, a, b, ty)

    def bitmask_cmp(self, st, op, a, b):
        """(x & M) != 0 as a named flag test"""
        if op in ('Eq', 'Ne', 'Gt'):
            for x, y in ((a, b), (b, a)):
                if const_of(y) == 0 and len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
                    u = x.a[1][0][0]
                    if u.t == 'uf' and u.a[0] == 'opBitAnd':
                        p, q = u.a[1]
                        if const_of(p) is None:
                            p, q = q, p
                        m = const_of(p)
                        if m is not None and (m & (m - 1)) == 0:
                            r = self.flagtest(q, m)
                            return self.neg(r) if op == 'Eq' else r
                        if m is None:
                            r = mk('flag', *sorted((p, q), key=lambda z: z.id))
                            return self.neg(r) if op == 'Eq' else r
        return None

    def flagtest(self, q, m):
        """bit m of q"""
        c = const_of(q)
        if c is not None:
            return mk('b', bool(c & m))
        if q.a[0] == 0 and len(q.a[1]) == 1 and q.a[1][0][1] == 1:
            u = q.a[1][0][0]
            if u.t == 'uf' and u.a[0] in ('opBitOr', 'opBitAnd'):
                x, y = u.a[1]
                fx, fy = self.flagtest(x, m), self.flagtest(y, m)
                if u.a[0] == 'opBitOr':
                    if TRUE in (fx, fy):
                        return TRUE
                    if fx is FALSE:
                        return fy
                    if fy is FALSE:
                        return fx
                    return mk('or', fx, fy)
                if FALSE in (fx, fy):
                    return FALSE
                if fx is TRUE:
                    return fy
                if fy is TRUE:
                    return fx
                return mk('and', fx, fy)
        return mk('flag', N(m), q)

    def rvalue(self, st, fr, r, destty):
        k = r[0]
        ty = lambda i: self.p.ty(fr.body.crate, i, fr.env)
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'rawptr':
            pl = r[2] if k == 'ref' else r[1]
            root, proj = self.place(st, fr, pl)
            if root.t == 'I' and not (proj and has_cellproj(proj)):
                return mk('vref', self.read(st, root, proj))
            return mk('ref', root, proj)
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, ty(r[4]))
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if a.t == 'n':
                    return self.bnot(a, destty)
                return self.neg(a)
            if r[1] == 'Neg' and a.t == 'n':
                return n_scale(a, -1)
            if r[1] == 'PtrMetadata':
                return self.veclen(self.load(st, a))
            return self.uf('un' + r[1], (a,), destty)
        if k == 'cast':
            a = self.operand(st, fr, r[2])
            return self.cast(st, r[1], a, ty(r[3]), ty(r[4]))
        if k == 'discr':
            root, proj = self.place(st, fr, r[1])
            v = self.read(st, root, proj)
            return self.discr(st, v, ty(r[2]))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == 'array':
                return mk('vec', None, tuple(ops))
            if a[0] == 'tuple':
                return mk('tup', tuple(ops))
            if a[0] == 'adt':
                return mk('adt', ty(a[2]), a[1], tuple(ops))
            if a[0] == 'closure':
                return mk('clo', a[1], ty(a[2]), tuple(ops))
        if k == 'repeat':
            a = self.operand(st, fr, r[1])
            if isinstance(r[2], int) and r[2] <= 8:
                return mk('vec', None, (a,) * r[2])
            return self.uf('repeat', (a,), destty)
        return self.unk(destty, 'rvalue')

    def bnot(self, a, ty):
        c = const_of(a)
        if c is not None and ty[0] == 'int':
            w = WIDTH[ty[1]]
            return N(~c if ty[1][0] == 'i' else (~c) & (2 ** w - 1))
        return self.uf('unNot', (a,), ty)

    def variants(self, ty):
        e = self.p.adts.get(ty[1])
        return e[1]['v'] if e and e[1]['full'] else None

    def discr(self, st, v, ty):
        if v.t == 'dc':
            v = v.a[0]
        if v.t == 'adt':
            vs = self.variants(v.a[0])
            return N(vs[v.a[1]]['d'] if vs else v.a[1])
        if v.t == 'kint':
            return N(v.a[0])
        k = st.vars.get(v)
        if k is not None:
            return N(self.variants(ty)[k]['d'])
        if ty[0] == 'adt' and self.variants(ty):
            f = self.policy.variant(self, st, v, ty)
            if f is not None:
                return N(self.variants(ty)[f]['d'])
            return atom_n(mk('discr', v, ty))
        return atom_n(mk('discr', v, ty))

    def cast(self, st, kind, a, fr, to):
        if kind.startswith('IntToInt') or kind == 'Transmute' and fr[0] == 'int':
            if a.t == 'n' and to[0] == 'int':
                if fr[0] == 'int':
                    fw, fs = WIDTH[fr[1]], fr[1][0] == 'i'
                else:
                    fw, fs = 32, False
                tw, ts = WIDTH[to[1]], to[1][0] == 'i'
                if fs and not ts and fw == tw:
                    d = self.decide_ge0(st, a)
                    if d is None:
                        raise Split(self.ge0(a))
                    return a if d else n_add(a, N(2 ** tw))
                if not fs and ts and fw == tw:
                    hi = self.ge0(n_add(N(2 ** (tw - 1) - 1), a, -1))
                    d = self.decide(st, hi)
                    if d is None:
                        raise Split(hi)
                    return a if d else n_add(a, N(-2 ** tw))
                if tw >= fw and (ts or not fs):
                    return a
                c = const_of(a)
                if c is not None:
                    c &= 2 ** tw - 1
                    if ts and c >= 2 ** (tw - 1):
                        c -= 2 ** tw
                    return N(c)
                return self.uf('cast', (a,), to)
            if a.t == 'b' and to[0] == 'int':
                return N(1 if a.a[0] else 0)
            if fr[0] == 'bool' and to[0] == 'int':
                d = self.decide(st, a)
                if d is None:
                    raise Split(a)
                return N(1 if d else 0)
            if a.t == 'adt' and to[0] == 'int':
                return self.discr(st, a, a.a[0])
        return a

    # ------------------------------------------------------------------ running bodies
    def call_body(self, st, body, env, args, fr, bb):
        """analyse a body on the given arguments; returns [(state, value)]"""
        key = (body.key, env)
        if (key in self.stack or len(self.stack) > 60) and not self.policy.unrolls(body, self.stack.count(key), len(self.stack)):
            return None
        self.p.cfg(body)
        self.funcs.add(body.key)
        f = Frame()
        f.fid = self.fid(fr.fid if fr else 0, bb, key)
        f.body, f.env, f.key, f.parent, f.bb = body, env, key, fr, bb
        if body.spread is not None and len(args) > body.argc:
            n = body.argc - 1
            args = args[:n] + [mk('tup', tuple(args[n:]))]
        for i, a in enumerate(args):
            st.cells[mk('L', f.fid, i + 1)] = a
        self.stack.append(key)
        try:
            out = self.run_frame(f, st)
        finally:
            self.stack.pop()
        res = []
        seen = set()
        for s, v in out:
            for r in [r for r in s.cells if r.t == 'L' and r.a[0] == f.fid]:
                del s.cells[r]
            k = (s.key(), v)
            if k in seen:
                continue
            seen.add(k)
            res.append((s, v))
        if len(res) > 1 and self.policy.merges(body):
            res = self.join_rets(res, f)
        return res

    def join_rets(self, res, f):
        """merge the outcomes of a call that only differ in leaves"""
        groups = []
        for s, v in res:
            for i, (J, jv) in enumerate(groups):
                if jv.t != v.t or v.t == 'b' and v is not jv:
                    continue
                if v is not UNIT and v is not jv and not self.policy.mergeable(v):
                    continue
                j1, s1 = J.copy(), s.copy()
                j1.cells[RV] = jv
                s1.cells[RV] = v
                try:
                    j = Lgg(self, j1, s1, (f.fid, 'ret'), join=True).run()
                except Mismatch:
                    continue
                groups[i] = (j, j.cells.pop(RV))
                break
            else:
                groups.append((s, v))
        return groups

    def run_frame(self, f, st):
        body = f.body
        rpo = body.rpo
        pending = {}
        heads = {}
        out = []

        peel = int(self.policy.peel(body)) if body.loops else 0

        def post(bb, s, frm=None):
            if peel:
                self.mark(f, bb, s, frm, peel)
            self.gc(s, f, bb)
            if bb in body.heads:
                self.policy.at_head(self, s, f, bb)
                if not self.policy.separate(body, bb, f):
                    s = self.join_head(heads.setdefault(bb, []), s, f, bb)
                if s is None:
                    return
            d, seen = pending.setdefault(bb, ([], set()))
            k = s.key()
            if k in seen:
                return
            seen.add(k)
            d.append(s)

        post(0, st)
        while True:
            todo = [b for b, (d, _) in pending.items() if d]
            if not todo:
                break
            bb = min(todo, key=rpo.__getitem__)
            states = pending[bb][0]
            s = states.pop()
            if bb in body.heads and getattr(s, 'trace', None) is DEAD:
                continue
            chain = [(bb, s)]
            while chain:
                bb, s = chain.pop()
                self.steps += 1
                if self.steps > self.max_steps or (self.steps & 63) == 0 and time.time() > self.t_end:
                    raise Budget(body.key)
                self.blocks_seen.add((body.key, bb))
                for kind, a, b in self.exec_block(s, f, bb):
                    if kind == 'ret':
                        out.append((a, b))
                    elif b not in body.heads and len(body.preds[b]) == 1:
                        chain.append((b, a))
                    else:
                        post(b, a, bb)
        return out

    def mark(self, f, bb, s, frm, peel):
        """keep the first pass through a loop apart from the later ones"""
        for h, blocks in f.body.loops.items():
            k = '!pass%s:%s' % (f.fid, h)
            if bb == h:
                if frm in blocks:
                    n = s.ghost.get(k)
                    i = PASS.index(n) if n in PASS else 0
                    s.ghost[k] = PASS[min(i + 1, peel)]
                else:
                    s.ghost[k] = PASS[0]
            elif bb not in blocks and k in s.ghost:
                del s.ghost[k]

    def exec_block(self, st, f, bb):
        work = [st]
        res = []
        guard = 0
        while work:
            s0 = work.pop()
            guard += 1
            if guard > 4000:
                raise Budget('split:' + f.body.key)
            s = s0.copy()
            try:
                res += self.exec_block1(s, f, bb)
            except Split as e:
                a = e.atom
                d = self.decide(s0, a)
                if d is not None:
                    # decided only through facts that are not in s0 yet: should not happen
                    self.unknown('split-decided')
                    continue
                for val in (True, False):
                    x = s0.copy()
                    if self.assume(x, a, val):
                        work.append(x)
            except SplitVariant as e:
                n = len(self.variants(self.vty(e.v)))
                for k in range(n):
                    x = s0.copy()
                    x.vars[e.v] = k
                    work.append(x)
            except Infeasible:
                pass
        return res

    def exec_block1(self, st, f, bb):
        stmts, term = f.body.blocks[bb]
        b = f.body
        for s in stmts:
            k = s[0]
            if k == '=':
                root, proj = self.place(st, f, s[1])
                v = self.rvalue(st, f, s[2], self.pl_ty(f, s[1]))
                self.write(st, root, proj, v)
            elif k == 'dead':
                st.cells.pop(mk('L', f.fid, s[1]), None)
            elif k == 'live':
                st.cells.pop(mk('L', f.fid, s[1]), None)
            elif k == 'setd':
                self.unknown('setdiscr')
        return self.terminator(st, f, bb, term)

    def pl_ty(self, f, pl):
        if not pl[1:]:
            return self.p.ty(f.body.crate, f.body.locals[pl[0]], f.env)
        e = pl[-1]
        if e[0] == 'f' and len(e) > 2:
            return self.p.ty(f.body.crate, e[2], f.env)
        return ('other', 'place')

    def terminator(self, st, f, bb, t):
        k = t[0]
        if k == 'goto':
            return [('go', st, t[1])]
        if k == 'ret':
            return [('ret', st, st.cells.get(mk('L', f.fid, 0), UNIT))]
        if k == 'switch':
            return self.switch(st, f, t)
        if k == 'drop':
            root, proj = self.place(st, f, t[1])
            v = self.read(st, root, proj)
            if v is not MOVED and v is not UNINIT:
                own = self.own_drop(v)
                outs = None
                if own:
                    r = mk('ref', root, proj)
                    self.gc(st, f, t[2], extra=[r])
                    outs = self.call_body(st, own[0], own[1], [r], f, bb)
                if outs is not None:
                    res = []
                    for s, _ in outs:
                        for g in guards_in(v):
                            self.release(s, g)
                        if root.t == 'L' and not proj:
                            s.cells[root] = MOVED
                        res.append(('go', s, t[2]))
                    return res
                self.drop_value(st, v, f, bb)
                if root.t == 'L' and not proj:
                    st.cells[root] = MOVED
            return [('go', st, t[2])]
        if k == 'assert':
            c = self.operand(st, f, t[1])
            exp = bool(t[2])
            d = self.decide(st, c)
            if d is None:
                bad = st.copy()
                if self.assume(bad, c, not exp):
                    self.policy.on_panic(self, bad, f, 'assert:' + str(t[3]), None, False)
                if not self.assume(st, c, exp):
                    return []
                return [('go', st, t[4])]
            if d != exp:
                self.policy.on_panic(self, st, f, 'assert:' + str(t[3]), None, True)
                return []
            return [('go', st, t[4])]
        if k == 'call':
            return self.call(st, f, bb, t)
        return []

    def switch(self, st, f, t):
        v = self.operand(st, f, t[1])
        targets, other = t[2], t[3]
        alive = lambda w: f.body.blocks[w] is not None
        if v.t == 'n':
            c = const_of(v)
            if c is not None:
                for x, w in targets:
                    if x == c:
                        return [('go', st, w)] if alive(w) else []
                return [('go', st, other)] if other is not None and alive(other) else []
            if v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] == 1 and v.a[1][0][0].t == 'discr':
                d = v.a[1][0][0]
                x, ty = d.a
                vs = self.variants(ty)
                if vs:
                    out = []
                    done = set()
                    for i, w in enumerate(vs):
                        tgt = other
                        for dv, bb in targets:
                            if dv == w['d']:
                                tgt = bb
                        if tgt is None or not alive(tgt):
                            continue
                        s = st.copy()
                        s.vars[x] = i
                        if self.policy.feasible(self, s, x, i):
                            out.append(('go', s, tgt))
                    return out
            out = []
            cur = st
            for x, w in targets:
                a = self.eq(v, N(x))
                s = cur.copy()
                if self.assume(s, a, True) and alive(w):
                    out.append(('go', s, w))
                cur = cur.copy()
                if not self.assume(cur, a, False):
                    return out
            if other is not None and alive(other):
                out.append(('go', cur, other))
            return out
        # booleans
        out = []
        tf = None
        tt = other
        for x, w in targets:
            if x == 0:
                tf = w
            else:
                tt = w
        if tf is None:
            tf = other
        d = self.decide(st, v)
        if d is not None:
            w = tt if d else tf
            return [('go', st, w)] if w is not None and alive(w) else []
        for val, w in ((True, tt), (False, tf)):
            s = st.copy()
            if w is not None and alive(w) and self.assume(s, v, val):
                out.append(('go', s, w))
        return out

    # ------------------------------------------------------------------ drops and borrows
    def drop_value(self, st, v, f, bb, depth=0):
        for g in guards_in(v):
            self.release(st, g)
        if v.t == 'adt':
            self.user_drop(v.a[0])

    def own_drop(self, v):
        """the body and substitution of a Drop written in the crate for this value"""
        if v.t != 'adt' or not v.a[0][1].startswith('adextopa_core::'):
            return None
        r = self.p.resolve('core::ops::drop::Drop', 'drop', v.a[0])
        b = r and self.p.bodies.get(r[0])
        return (b, r[1] or ()) if b is not None else None

    def user_drop(self, ty):
        if ty[0] == 'adt' and ty[1].startswith('adextopa_core::'):
            r = self.p.resolve('core::ops::drop::Drop', 'drop', ty)
            if r:
                self.unknown('drop:' + ty[1])

    def release(self, st, g):
        k = (g.a[1], g.a[2])
        n = st.borrows.get(k, 0)
        if g.a[0] == 'r':
            n -= 1
        else:
            n += 1
        if n:
            st.borrows[k] = n
        else:
            st.borrows.pop(k, None)

    def borrow(self, st, f, mode, ref, try_=False):
        root, proj = self.deref_loc(st, ref)
        k = (root, proj)
        n = st.borrows.get(k, 0)
        if mode == 'r' and n < 0 or mode == 'w' and n != 0:
            if not try_:
                self.policy.on_panic(self, st, f, 'borrow:' + mode, k, True)
            return None
        st.borrows[k] = n + 1 if mode == 'r' else -1
        return mk('guard', mode, root, proj)

    # ------------------------------------------------------------------ calls
    def call(self, st, f, bb, t):
        func, args, dest, target, res, span = t[1:7]
        argv = []
        for a in args:
            argv.append(self.operand(st, f, a))
        fv = None
        if func[0] == 'k':
            fty = self.p.ty(f.body.crate, func[1]['t'], f.env)
        else:
            fv = self.operand(st, f, func)
            fty = None
        argtys = [self.op_ty(f, a) for a in args]
        retty = self.pl_ty(f, dest)
        # forget what the callee cannot see: keeps states small and mergeable
        self.gc(st, f, target, extra=argv, dead=dest[0] if not dest[1:] else None)
        if fv is not None:
            outs = self.call_value(st, f, bb, fv, argv, retty, span)
        else:
            rk = None
            if res:
                rk = (res[0], tuple(self.p.ty(f.body.crate, i, f.env) for i in res[1] if isinstance(i, int)))
            outs = self.call_fn(st, f, bb, fty[1], fty[2], argv, argtys, retty, span, rk)
        r = []
        if target is None:
            return r
        for s, v in outs:
            root, proj = self.place(s, f, dest)
            self.write(s, root, proj, v)
            r.append(('go', s, target))
        return r

    def op_ty(self, f, o):
        if o[0] == 'k':
            return self.p.ty(f.body.crate, o[1]['t'], f.env)
        return self.pl_ty(f, o[1])

    def call_fn(self, st, f, bb, key, targs, args, argtys, retty, span='', rk=None):
        p = self.p
        c = Call()
        c.I, c.st, c.key, c.targs, c.args, c.argtys, c.ret, c.fr, c.bb, c.span = \
            self, st, key, targs, args, argtys, retty, f, bb, span
        c.name = p.canon(key)
        c.selfty = targs[0] if targs else None
        c.site = (f.fid, bb)
        info = p.fns.get(key, (None, {}))[1]
        self.calls_seen.add((f.body.key, bb))
        r = self.policy.intercept(self, c)
        if r is not None:
            return r
        impl = None
        if info.get('trait'):
            sty = targs[0] if targs else None
            sty2 = self.concrete_self(st, sty, args)
            c.selfty = sty2
            if sty2 and sty2[0] == 'closure' or sty2 and sty2[0] in ('fndef', 'fnptr') or info['trait'].startswith('core::ops::function::Fn'):
                m = self.models.get(c.name)
                if m is None and info['trait'].startswith('core::ops::function::Fn'):
                    fv = args[0]
                    x = args[1]
                    ca = list(x.a[0]) if x.t == 'tup' else [x]
                    return self.call_value(st, f, bb, fv, ca, retty, span)
            if sty2:
                impl = p.resolve(info['trait'], info['name'], sty2)
                if impl and info['trait'].startswith('core::') and impl[0] not in p.bodies:
                    impl = None
                if impl and rk and impl[0] == rk[0]:
                    # resolved statically: take the substitution rustc gives
                    b = p.bodies.get(rk[0])
                    if b is not None:
                        impl = (rk[0], None)
            if impl is None and rk:
                impl = (rk[0], None)
        if impl is None and rk:
            impl = (rk[0], None)
        if impl is None and c.selfty and c.selfty[0] == 'adt' and info.get('trait', '').startswith('core::iter::'):
            # an adapter of the standard library, known only by the type of the value
            k, env = p.adapter(info['trait'], info['name'], c.selfty)
            if k:
                for n, name in p.bodies[k].gen:
                    if name == 'B' and n not in dict(env):
                        v = args[0]
                        v = self.load(st, v) if v.t in ('ref', 'vref') else v
                        env += ((n, self.item_ty(st, v) or ('other', 'item')),)
                impl = (k, tuple(sorted(env)))
        tgt = impl[0] if impl else key
        b = p.bodies.get(tgt)
        local = b is not None and not is_ext(tgt)
        if not local and c.name in REFERENCE:
            r = self.reference(c, st, f, bb)
            if r is not None:
                return r
        if not local:
            m = self.models.get(c.name)
            if m is None and tgt != key:
                m = self.models.get(p.canon(tgt))
            if m is not None:
                r = m(c)
                if r is not None:
                    return r
        if b is not None:
            if impl and impl[1] is not None:
                env = impl[1]
                if info.get('trait') and not p.fns.get(tgt, (None, {}))[1].get('impl_trait'):
                    env = tuple(zip([g[0] for g in b.gen], (c.selfty,) + tuple(targs[1:])))
            else:
                ta = rk[1] if rk and rk[0] == tgt else targs
                env = tuple(zip([g[0] for g in b.gen], ta))
            r = self.call_body(st, b, env, list(args), f, bb)
            if r is not None:
                return r
            return self.policy.recursive(self, c)
        return self.unmodelled(c)

    def reference(self, c, st, f, bb):
        """an iterator method of the standard library as the loop it stands for (witness/src/reference.rs)"""
        op = c.name.split('::')[-1]
        into = c.ret[1].split('::')[-1] if op == 'collect' and c.ret[0] == 'adt' else ''
        if into in ('HashMap', 'Option', 'Result') and (into == 'HashMap' or c.ret[2][:2] == ('adt', 'alloc::vec::Vec')):
            op = 'collect_' + into.lower()
        b = self.p.bodies.get('witness::reference::' + op)
        if b is None:
            return None
        it = c.args[1 if op == 'extend' else 0]
        if op in ('find', 'find_map', 'any', 'all', 'position', 'try_for_each', 'try_fold'):
            it = self.load(st, it)
        if op in ('collect', 'extend') and (it.t != 'adt' or op == 'collect' and not (c.ret[0] == 'adt' and c.ret[1] == 'alloc::vec::Vec')):
            return None
        if op in ('try_for_each', 'try_fold') and not (c.ret[0] == 'adt' and c.ret[1] == 'core::result::Result'):
            return None
        if it.t not in ('sit', 'vit', 'adt') or it.t == 'adt' and is_vec_ty(it.a[0]):
            return None
        ta = [self.vty(it) or ('other', 'iter')]
        item = self.item_ty(st, it)
        if item is None and op == 'collect':
            item = c.ret[2]
        if op == 'collect_hashmap':
            ta += [c.ret[2], c.ret[3]]
        elif op.startswith('collect_'):
            ta.append(c.ret[2][2])
            if op == 'collect_result':
                ta.append(c.ret[3])
        if op.startswith('collect_'):
            return self.call_body(st, b, tuple(zip([g[0] for g in b.gen], ta)), list(c.args), f, bb)
        if item is None:
            return None
        for a, t in zip(c.args[1:], c.argtys[1:]):
            if op != 'extend':
                ta.append(t)
        if op == 'find_map':
            ta.insert(1, c.ret[2])
        if op in ('try_for_each', 'try_fold'):
            ta.append(c.ret[3])
        ta.append(item)
        return self.call_body(st, b, tuple(zip([g[0] for g in b.gen], ta)), list(c.args), f, bb)

    def item_ty(self, st, it):
        if it.t == 'sit':
            e = self.elem_ty(self.load(st, it.a[0]))
            return e and ('ref', False, e)
        if it.t == 'vit':
            return self.elem_ty(it.a[0])
        if it.t == 'adt':
            ty = it.a[0]
            n = ty[1].split('::')[-1]
            if n in ('Range', 'RangeFrom', 'RangeInclusive') and ty[2:]:
                return ty[2]
            fs = it.a[2]
            inner = next((self.item_ty(st, x) for x in fs if isinstance(x, V) and x.t in ('sit', 'vit', 'adt')), None)
            if n in ('Rev', 'Filter', 'Skip', 'Take', 'Peekable', 'StepBy', 'SkipWhile', 'TakeWhile', 'Inspect', 'Fuse', 'Chain'):
                return inner
            if n in ('Cloned', 'Copied'):
                return inner and inner[0] == 'ref' and inner[2] or None
            if n == 'Enumerate':
                return inner and ('tuple', (('int', 'usize'), inner))
            if n in ('Map', 'FilterMap') and ty[3:] and ty[3][0] in ('closure', 'fndef'):
                b = self.p.bodies.get(ty[3][1])
                if b is not None:
                    r = self.p.ty(b.crate, b.locals[0], tuple(zip([g[0] for g in b.gen], ty[3][4 if ty[3][0] == 'closure' else 2])))
                    if n == 'FilterMap':
                        return r[2] if r[:2] == ('adt', 'core::option::Option') else None
                    return r
        return None

    def concrete_self(self, st, sty, args):
        """self type of a trait call; for trait objects the value's own type when known"""
        if sty and sty[0] == 'dyn' and args:
            v = args[0]
            if v.t in ('ref', 'vref', 'rc'):
                x = self.load(st, v)
                if x.t == 'box':
                    x = x.a[0]
                if x.t == 'adt':
                    return x.a[0]
                if x.t == 'rec' and x.a[0].t == 'adt':
                    return x.a[0].a[0]
        return sty

    def call_value(self, st, f, bb, fv, args, retty, span=''):
        v = fv
        for _ in range(4):
            if v.t in ('ref', 'vref'):
                inner = self.load(st, v)
                if inner.t in ('clo', 'fn', 'ref', 'vref', 'box', 'sym', 'zst'):
                    if inner.t == 'clo' or inner.t == 'fn' or inner.t == 'zst':
                        break
                    v = inner
                    continue
            break
        x = self.load(st, v) if v.t in ('ref', 'vref') else v
        if x.t == 'box':
            x = x.a[0]
        if x.t == 'zst' and x.a[0][0] == 'fndef':
            x = mk('fn', x.a[0][1], x.a[0][2])
        if x.t == 'zst' and x.a[0][0] == 'closure':
            x = mk('clo', x.a[0][1], x.a[0], ())
        if x.t == 'fn':
            return self.call_fn(st, f, bb, x.a[0], x.a[1], args, [None] * len(args), retty, span, None)
        if x.t == 'clo':
            b = self.p.bodies.get(x.a[0])
            if b is None:
                self.unknown('closure:' + x.a[0])
                return [(st, self.unk(retty, 'clo'))]
            env = tuple(zip([g[0] for g in b.gen], x.a[1][4]))
            t0 = self.p.ty(b.crate, b.locals[1], env)
            if t0[0] == 'ref':
                me = v if v.t in ('ref', 'vref') else mk('vref', x)
            else:
                me = x
            r = self.call_body(st, b, env, [me] + list(args), f, bb)
            if r is None:
                self.unknown('recursion:' + b.key)
                return [(st, self.unk(retty, 'rec'))]
            return r
        r = self.policy.callback(self, st, f, bb, x, args, retty)
        if r is not None:
            return r
        self.unknown('call-value')
        self.havoc(st, args)
        return [(st, self.unk(retty, 'callv'))]

    def unmodelled(self, c):
        self.unknown('call:' + c.name)
        self.havoc(c.st, c.args, c.argtys)
        return [(c.st, self.unk(c.ret, 'call:' + c.name))]

    def havoc(self, st, args, argtys=None):
        for i, a in enumerate(args):
            if a.t == 'ref' and (argtys is None or not argtys[i] or argtys[i][0] != 'ref' or argtys[i][1]):
                old = self.read(st, a.a[0], a.a[1])
                self.write(st, a.a[0], a.a[1], self.unk(self.vty(old) or ('other', 'havoc'), 'havoc'))

    # ------------------------------------------------------------------ allocation
    def alloc(self, st, site, val):
        """a fresh heap object; an older live object of the same site is renamed"""
        site = self.policy.site(st, site)
        S = self.shift(st, 'o', site)
        root = mk('H', 'new', site, 0)
        st.cells[root] = S(val) if S else val
        return root

    def fresh(self, st, name, ty, hold=None):
        """a fresh opaque value named `name`; older live ones are renamed (also in `hold`)"""
        S = self.shift(st, 's', name, hold)
        v = self.sym((name, 0), ty)
        if hold is None:
            return v
        return v, (S(hold) if S else hold)

    def shift(self, st, kind, name, hold=None):
        used = set()
        vs = list(self.all_values(st))
        if hold is not None:
            vs += [mk('hold', hold)]
        for v in vs:
            for r in v.roots:
                if kind == 'o':
                    if isinstance(r, tuple) and len(r) == 3 and r[0] == 'new' and r[1] == name:
                        used.add(r[2])
                elif isinstance(r, tuple) and len(r) == 2 and r[0] == name:
                    used.add(r[1])
        if kind == 'o':
            for r in st.cells:
                if r.t == 'H' and r.a[0] == 'new' and r.a[1] == name:
                    used.add(r.a[2])
        if 0 not in used:
            return None
        top = 0
        while top in used:
            top += 1

        def f(v):
            if kind == 'o':
                if v.t == 'H' and v.a[0] == 'new' and v.a[1] == name and v.a[2] < top:
                    return mk('H', 'new', name, v.a[2] + 1)
            elif v.t == 'sym' and isinstance(v.a[0], tuple) and v.a[0][0] == name and v.a[0][1] < top:
                return mk('sym', (name, v.a[0][1] + 1), subst(v.a[1], f, memo), v.a[2])
            return None
        memo = {}
        self.rename(st, f, memo)
        return lambda v: subst(v, f, memo)

    def all_values(self, st):
        for k, v in st.cells.items():
            yield k
            yield v
        for k in st.facts:
            yield k
        for k in st.cons:
            yield k
        for k in st.vars:
            yield k
        for r, p in st.borrows:
            yield r
            for x in p:
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, V):
                            yield y
        for v in st.ghost.values():
            if isinstance(v, V):
                yield v

    def rename(self, st, f, memo):
        S = lambda v: subst(v, f, memo)
        st.cells = {S(k): S(v) for k, v in st.cells.items()}
        st.facts = {S(k): v for k, v in st.facts.items()}
        st.cons = frozenset(S(k) for k in st.cons)
        st.vars = {S(k): v for k, v in st.vars.items()}
        st.borrows = {(S(r), S(p)): n for (r, p), n in st.borrows.items()}
        st.ghost = {k: S(v) if isinstance(v, V) else v for k, v in st.ghost.items()}

    # ------------------------------------------------------------------ garbage collection
    def gc(self, st, f, bb, extra=(), dead=None):
        if self.policy.keeps(st, f, bb):
            return
        body = f.body
        live = body.live.get(bb, ()) if bb is not None else ()
        cells = st.cells
        work = list(extra)
        keep = set()
        fid = f.fid
        names = set()
        for r in list(cells):
            if r.t == 'L':
                if r.a[0] == fid:
                    if r.a[1] in live and r.a[1] != dead:
                        keep.add(r)
                        work.append(cells[r])
                    elif has_guard(cells[r]):
                        keep.add(r)
                        work.append(cells[r])
                else:
                    keep.add(r)
                    work.append(cells[r])
        for v in st.ghost.values():
            if isinstance(v, V):
                work.append(v)
        for r, p in st.borrows:
            work.append(mk('ref', r, p))
        hs = [r for r in cells if r.t == 'H' or r.t == 'S']
        seen = set()
        pop = work.pop
        while True:
            while work:
                v = pop()
                if v in seen:
                    continue
                if not isinstance(v, V):
                    if isinstance(v, tuple):
                        work.extend(v)
                    continue
                seen.add(v)
                if v.roots:
                    names |= v.roots
                for l in v.locs:
                    if l not in keep and l in cells:
                        keep.add(l)
                        work.append(cells[l])
            rest = []
            for r in hs:
                if r in keep:
                    continue
                if r.t == 'S' or not r.roots or not r.roots.isdisjoint(names):
                    keep.add(r)
                    work.append(cells[r])
                else:
                    rest.append(r)
            hs = rest
            if not work:
                break
        if len(keep) != len(cells):
            st.cells = {r: v for r, v in cells.items() if r in keep}
        base = self.policy.pinned
        names |= base
        for k in st.facts:
            if not k.roots <= names:
                st.facts = {k: v for k, v in st.facts.items() if k.roots <= names}
                break
        for k in st.cons:
            if not k.roots <= names:
                st.cons = frozenset(k for k in st.cons if k.roots <= names)
                break
        for k in st.vars:
            if not k.roots <= names:
                st.vars = {k: v for k, v in st.vars.items() if k.roots <= names}
                break

    # ------------------------------------------------------------------ loop heads
    def join_head(self, groups, s, f, bb):
        """join s into the invariants of a loop head; returns the state to (re)process or None"""
        for i, J in enumerate(groups):
            try:
                j = Lgg(self, J, s, (f.fid, bb, i)).run()
            except Mismatch:
                continue
            if j.key() == J.key():
                return None
            groups[i] = j
            return j.copy()
        if len(groups) > 400:
            raise Budget('head:' + f.body.key)
        # own phis of this head left over from another group are renamed apart by position
        j = s.copy()
        j = self.own_to_stale(j, (f.fid, bb, len(groups)))
        groups.append(j)
        return j.copy()

    def own_to_stale(self, s, hd):
        return s


DEAD = ('dead',)
PASS = [mk('k', 'pass%d' % i) for i in range(6)]


class Mismatch(Exception):
    pass


class Lgg:
    """least general generalisation of two states of the same shape"""

    def __init__(self, I, J, s, hd, join=False):
        self.I, self.J, self.s, self.hd = I, J, s, hd
        self.join = join
        self.num = {}      # delta -> list of (phi-based value, rep)
        self.opq = {}
        self.claims = {}
        self.sigma = {}
        self.newphi = {}
        self.minlen = []
        self.used = None
        self.ctr = 0

    def element(self, k):
        """an object known only as an element of an opaque collection: what was written into it in
        an earlier iteration is not remembered"""
        return k.t == 'H' and isinstance(k.a[0], V) and k.a[0].t == 'sym' and (
            any(isinstance(p, tuple) and p[0] == 'el' for p in k.a[0].a[1]) or self.I.policy.stale(k))

    def own(self, v):
        if self.join:
            return False
        for r in v.roots:
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], tuple) and r[0] == self.hd:
                return True
        return False

    def taken(self):
        self.used = set()
        seen = set()
        for st in (self.J, self.s):
            for v in self.I.all_values(st):
                if v in seen:
                    continue
                seen.add(v)
                for r in v.roots:
                    if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], tuple) and r[0] == self.hd:
                        self.used.add(r[1])

    def phi(self, ty, rep_s):
        if self.used is None:
            self.taken()
        while self.ctr in self.used:
            self.ctr += 1
        n = (self.hd, self.ctr)
        self.used.add(self.ctr)
        return mk('phi', n, ty)

    def run(self):
        J, s = self.J, self.s
        if set(J.cells) != set(s.cells):
            if set(k for k in J.cells if k.t == 'L') != set(k for k in s.cells if k.t == 'L'):
                raise Mismatch
        if sorted(J.borrows.values()) != sorted(s.borrows.values()):
            raise Mismatch
        for k, v in J.ghost.items():
            if k[0] == '!' and s.ghost.get(k) is not v:
                raise Mismatch
        for k in J.facts:
            if k in s.facts and s.facts[k] != J.facts[k] and not self.own(k) and self.I.policy.keep_fact(k):
                raise Mismatch
        for k in J.vars:
            if k in s.vars and s.vars[k] != J.vars[k] and not self.own(k) and self.I.policy.keep_fact(k):
                raise Mismatch
        o = State()
        o.trace = J.trace
        cells = {}
        for k in sorted(J.cells, key=lambda r: r.id):
            a = J.cells[k]
            b = s.cells.get(k)
            if b is None:
                if self.element(k):
                    continue
                b = self.I.getroot(s, k)
                if b is UNINIT:
                    raise Mismatch
            cells[k] = self.g(a, b)
        for k in s.cells:
            if k not in J.cells and k.t != 'L' and not self.element(k):
                b = s.cells[k]
                a = self.I.getroot(J, k)
                if a is UNINIT or a.t == 'sym' and a.a[0] == 'unk':
                    continue
                cells[k] = self.g(a, b)
        o.cells = cells
        o.borrows = {}
        left = []
        for k, n in J.borrows.items():
            if s.borrows.get(k) == n and not any(self.own(x) for x in (k[0], mk('k', k[1]))):
                o.borrows[k] = n
            else:
                left.append((k, n))
        rest = [(k, n) for k, n in s.borrows.items() if o.borrows.get(k) != n]
        for k, n in left:
            for i, (k2, n2) in enumerate(rest):
                if n2 == n and k[0].t == k2[0].t == 'H' and k[1] == k2[1] and self.alike(k[0], k2[0]):
                    o.borrows[(self.g(k[0], k2[0]), k[1])] = n
                    rest.pop(i)
                    break
            else:
                raise Mismatch
        if set(J.ghost) != set(s.ghost):
            raise Mismatch
        o.ghost = {}
        for k in sorted(J.ghost):
            a, b = J.ghost[k], s.ghost[k]
            if isinstance(a, V) and isinstance(b, V):
                o.ghost[k] = self.g(a, b)
            elif a != b:
                raise Mismatch
            else:
                o.ghost[k] = a
        if not self.I.policy.joined(self.I, J, s, o):
            raise Mismatch
        # facts
        memo = {}
        S = lambda v: subst(v, lambda x: self.sigma.get(x), memo) if self.sigma else v
        for k, v in J.facts.items():
            if s.facts.get(S(k)) == v:
                o.facts[k] = v
        for k, v in J.vars.items():
            if s.vars.get(S(k)) == v:
                o.vars[k] = v
        for (a, b), p in self.opq.items():
            # variant facts of both sides carried over to the joined symbol
            for k, v in J.vars.items():
                t = self.rebase(k, a, p)
                if t is not None:
                    k2 = self.rebase(k, a, b)
                    if k2 is not None and s.vars.get(k2) == v:
                        o.vars[t] = v
        cons = set()
        for c in J.cons:
            if self.I.entails(s.cons, S(c)):
                cons.add(c)
        if self.join:
            for c in s.cons:
                if c not in cons and S(c) is c and self.I.entails(J.cons, c):
                    cons.add(c)
        fresh = []
        for p, (a, b) in self.newphi.items():
            # simple bounds of a fresh joined number
            fresh.append((atom_n(p), a, b))
            if p.a[1][0] == 'int':
                for lo in (1,):
                    l = lambda x: n_add(x, N(-lo))
                    if self.I.entails(J.cons, l(a)) and self.I.entails(s.cons, l(b)):
                        cons.add(l(atom_n(p)))
        if fresh:
            cons |= self.relations(fresh, S, o)
        for p, a, b in self.minlen:
            ln = self.I.veclen
            if self.I.entails(J.cons, n_add(ln(a), N(-1))) and self.I.entails(s.cons, n_add(ln(b), N(-1))):
                cons.add(n_add(ln(p), N(-1)))
        o.cons = frozenset(cons)
        return o

    def relations(self, fresh, S, o):
        """what both sides know about a number that the join merged, said about the merged number"""
        J, s, I = self.J, self.s, self.I
        ph = {p.a[1][0][0]: (p, a, b) for p, a, b in fresh if len(p.a[1]) == 1 and p.a[0] == 0}

        def inst(l, side):
            o = N(l.a[0])
            for x, c in l.a[1]:
                o = n_add(o, ph[x][side + 1] if x in ph else atom_n(x), c)
            return o

        def rename(l, side, skip=None):
            """l with every atom that a merged number stands for on that side replaced"""
            outs = [N(l.a[0])]
            hit = False
            for x, c in l.a[1]:
                alts = []
                for q, (p, a, b) in ph.items():
                    v = (a, b)[side]
                    if len(v.a[1]) == 1 and v.a[1][0] == (x, 1):
                        alts.append(n_add(p, N(-v.a[0])))
                hit = hit or bool(alts)
                if not (side == 1 and self.own(x)) or not alts:
                    alts.append(atom_n(x))
                outs = [n_add(o, y, c) for o in outs for y in alts]
                if len(outs) > 8:
                    return []
            res = outs if hit else []
            if len(l.a[1]) == 1 and l.a[1][0][1] == 1 and not (side == 1 and self.own(l.a[1][0][0])):
                for q, (p, a, b) in ph.items():
                    if const_of(a) is not None and const_of(b) is not None:
                        k = const_of((a, b)[side])
                        if k < 2 ** 32:
                            res = res + [n_add(n_sub(l, p), N(k))]
            return res
        out = set()
        cand = set()
        for c in J.cons:
            cand.update(rename(c, 0))
        for c in s.cons:
            for d in rename(c, 1):
                if not any(self.own(x) and x not in ph for x, _ in d.a[1]):
                    cand.add(d)
        for d in sorted(cand, key=lambda v: v.id):
            if len(d.a[1]) != 2 or not any(x in ph for x, _ in d.a[1]) or not I.policy.relational(d):
                continue
            if I.entails(out, d):
                continue
            if I.entails(J.cons, inst(d, 0)):
                e = inst(d, 1) if not self.sigma else None
                if e is None:
                    e = N(d.a[0])
                    for x, c in d.a[1]:
                        y = ph[x][2] if x in ph else S(atom_n(x))
                        e = n_add(e, y if y.t == 'n' else atom_n(y), c)
                if I.entails(s.cons, e):
                    out.add(d)
        # two numbers that are different
        for f in list(J.facts) + list(s.facts):
            side = 0 if f in J.facts else 1
            if f.t != 'eq0' or (s if side else J).facts[f] is not False or len(f.a[0].a[1]) > 3:
                continue
            for d in rename(f.a[0], side):
                if side == 1 and any(self.own(x) and x not in ph for x, _ in d.a[1]):
                    continue
                if not any(x in ph for x, _ in d.a[1]) or not I.policy.distinct(J, s, d, ph):
                    continue
                e = N(d.a[0])
                for x, c in d.a[1]:
                    y = ph[x][2] if x in ph else S(atom_n(x))
                    e = n_add(e, y if y.t == 'n' else atom_n(y), c)
                if I.decide(J, I.eq(inst(d, 0), N(0))) is False and I.decide(s, I.eq(e, N(0))) is False:
                    o.facts[I.eq(d, N(0))] = False
        return out

    def rebase(self, k, frm, to):
        if k is frm:
            return to
        if k.t == 'sym':
            base = frm
            if frm.t == 'sym' and k.a[0] == frm.a[0] and k.a[1][:len(frm.a[1])] == frm.a[1]:
                rest = k.a[1][len(frm.a[1]):]
                if to.t == 'sym':
                    return mk('sym', to.a[0], to.a[1] + rest, k.a[2])
                return mk('sym', to, rest, k.a[2])
            if k.a[0] is frm:
                if to.t == 'sym':
                    return mk('sym', to.a[0], to.a[1] + k.a[1], k.a[2])
                return mk('sym', to, k.a[1], k.a[2])
        return None

    def claim(self, p, x):
        """own phi p currently stands for x on the other side"""
        y = self.claims.get(p)
        if y is None:
            self.claims[p] = x
            self.sigma[p] = x
            return True
        return y is x

    def gn(self, a, b):
        """numeric leaves"""
        if a is b and not self.own(a):
            return a
        # already described by the claims?
        at = [t for t, c in a.a[1] if t.t == 'phi' and t.a[0][0] == self.hd and not self.join]
        oth = [t for t, c in a.a[1] if not (t.t == 'phi' and t.a[0][0] == self.hd) and self.own(t)]
        if len(at) == 1 and not oth:
            c = dict(a.a[1])[at[0]]
            if c == 1:
                # a = phi + rest
                val = n_sub(b, n_sub(a, atom_n(at[0])))
                if self.claim(at[0], val):
                    return a
        elif not at and len(oth) == 1 and len(a.a[1]) == 1 and len(b.a[1]) == 1:
            # e.g. len(phi) against len(x)
            (x, cx), (y, cy) = a.a[1][0], b.a[1][0]
            if cx == cy and a.a[0] == b.a[0]:
                try:
                    z = self.g(x, y)
                    return n_add(N(a.a[0]), atom_n(z) if z.t != 'n' else z, cx)
                except Mismatch:
                    pass
        elif len(a.a[1]) == 1 and len(b.a[1]) == 1 and a.a[1][0][1] == b.a[1][0][1] == 1 and a.a[0] == b.a[0]:
            x, y = a.a[1][0][0], b.a[1][0][0]
            if x.t == 'len' and y.t == 'len':
                z = self.g(x.a[0], y.a[0])
                return self.I.veclen(z)
        d = n_sub(b, a)
        for ph, ra in self.num.get(d, ()):
            off = n_sub(a, ra)
            if not self.own(off) and not any(isinstance(r, tuple) and len(r) == 2 and not isinstance(r[0], tuple) and r[1] != 0 for r in off.roots):
                return n_add(atom_n(ph), off)
        ty = USIZE
        for v in (a, b):
            if len(v.a[1]) == 1 and v.a[1][0][0].t in ('sym', 'phi', 'uf'):
                ty = v.a[1][0][0].a[-1]
        ph = self.phi(ty, b)
        self.num.setdefault(d, []).append((ph, a))
        self.newphi[ph] = (a, b)
        return atom_n(ph)

    def go(self, a, b, ty):
        """opaque leaves"""
        if a.t == 'phi' and a.a[0][0] == self.hd and not self.join:
            if self.claim(a, b):
                return a
        p = self.opq.get((a, b))
        if p is None:
            p = self.I.opaque(self.phi(ty, b), ty)
            if p.t != 'phi':
                return p
            self.opq[(a, b)] = p
        return p

    STRUCT = {'adt', 'tup', 'clo', 'rc', 'ref', 'vref', 'box', 'cell', 'guard', 'rec', 'sit', 'k', 'H', 'I', 'fn',
              'ghost', 'ev', 'piece', 'L', 'S', 'vit'}

    def g(self, a, b):
        if isinstance(a, tuple):
            if a == b and not any(isinstance(x, V) and self.own(x) or isinstance(x, tuple) for x in a):
                return a
            if not isinstance(b, tuple) or len(a) != len(b):
                raise Mismatch
            return tuple(self.g(x, y) if isinstance(x, (V, tuple)) else self.same(x, y) for x, y in zip(a, b))
        if not isinstance(b, V):
            raise Mismatch
        if a is b and not self.own(a):
            return a
        if a.t == 'n' and b.t == 'n':
            return self.gn(a, b)
        if a.t == 'n' or b.t == 'n':
            raise Mismatch
        if a.t != b.t:
            if a.t in self.LAYER and b.t in ('sym', 'phi', 'uf'):
                b = self.unfold(b, a)
            elif b.t in self.LAYER and a.t in ('sym', 'phi', 'uf'):
                a = self.unfold(a, b)
        if a.t == 'rec' and b.t == 'rec' and [n for n, _ in a.a[1]] != [n for n, _ in b.a[1]]:
            names = sorted({n for n, _ in a.a[1]} | {n for n, _ in b.a[1]})
            a, b = (mk('rec', x.a[0], tuple((n, self.I.token_field(x, n)) for n in names)) for x in (a, b))
        if a.t == b.t and a.t in self.STRUCT:
            if a.t == 'adt':
                if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
                    raise Mismatch
                return mk('adt', a.a[0], a.a[1], self.g(a.a[2], b.a[2]))
            if a.t == 'clo':
                if a.a[0] != b.a[0]:
                    raise Mismatch
                return mk('clo', a.a[0], a.a[1], self.g(a.a[2], b.a[2]))
            if a.t == 'fn':
                if a is not b:
                    raise Mismatch
                return a
            if len(a.a) != len(b.a):
                raise Mismatch
            return mk(a.t, *[self.g(x, y) if isinstance(x, (V, tuple)) else self.same(x, y) for x, y in zip(a.a, b.a)])
        if a.t == 'sym' and b.t == 'sym' and self.symlike(a, b):
            return mk('sym', self.g(a.a[0], b.a[0]) if isinstance(a.a[0], V) else a.a[0],
                      self.g(a.a[1], b.a[1]), a.a[2])
        ta, tb = self.lty(a), self.lty(b)
        if ta == 'vec' or tb == 'vec':
            if ta == 'vec' and tb == 'vec':
                ty = self.I.vecty(a)
                if a.t == 'vec' and a.a[0] is not None and not a.a[1]:
                    a = a.a[0]
                if b.t == 'vec' and b.a[0] is not None and not b.a[1]:
                    b = b.a[0]
                p = self.go(a, b, ty)
                self.minlen.append((p, a, b))
                return p
            ta = ta if ta != 'vec' else self.I.vecty(a)
            tb = tb if tb != 'vec' else self.I.vecty(b)
            if ta[0] in ('adt', 'array', 'slice') and ta[:2] == tb[:2]:
                p = self.go(a, b, ta)
                self.minlen.append((p, a, b))
                return p
            raise Mismatch
        if ta is None or tb is None:
            raise Mismatch
        if ta != tb:
            if {ta[0], tb[0]} <= {'str', 'adt'} and ('str',) in (ta, tb):
                ta = STRING
            else:
                raise Mismatch
        for side, x, st, oth, ot in ((0, a, self.J, b, self.s), (1, b, self.s, a, self.J)):
            pass
        # partition on variants known on both sides
        va, vb = self.J.vars.get(a), self.s.vars.get(b)
        if va is not None and vb is not None and va != vb:
            raise Mismatch
        return self.go(a, b, ta)

    LAYER = {'cell', 'box', 'rec', 'adt'}

    def unfold(self, v, like):
        """spell out the layer of an opaque value that the other side has changed"""
        ty = self.I.vty(v)
        if not ty:
            return v
        if like.t == 'cell':
            x = self.I.expand(v, 'c')
        elif like.t == 'box':
            x = self.I.expand(v, '*') if ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box' else None
        elif like.t == 'rec':
            x = mk('rec', v, ())
        else:
            x = self.I.expand(v, ('f', 0)) if ty == like.a[0] and not self.I.is_enum(ty) else None
        return x if x is not None else v

    def alike(self, a, b):
        x, y = a.a[0], b.a[0]
        if a is b:
            return True
        return isinstance(x, V) and isinstance(y, V) and x.t == y.t == 'sym' and self.symlike(x, y)

    def same(self, x, y):
        if x != y:
            raise Mismatch
        return x

    def symlike(self, a, b):
        """same access path except for numeric indices"""
        if a.a[2] != b.a[2] or len(a.a[1]) != len(b.a[1]):
            return False
        x, y = a.a[0], b.a[0]
        if isinstance(x, V) != isinstance(y, V):
            return False
        if not isinstance(x, V) and x != y:
            return False
        if isinstance(x, V) and x is not y and not (x.t == y.t and x.t in ('phi', 'sym')):
            return False
        for p, q in zip(a.a[1], b.a[1]):
            if p == q:
                continue
            if isinstance(p, tuple) and isinstance(q, tuple) and p[0] == q[0] == 'el' and isinstance(p[1], V):
                continue
            return False
        return True

    def lty(self, v):
        if v.t == 'vec':
            return 'vec'
        if v.t == 'str':
            return ('str',)
        if v.t in ('sym', 'uf', 'phi'):
            return v.a[-1]
        return None


REFERENCE = {'core::iter::traits::iterator::Iterator::' + n for n in (
    'find', 'find_map', 'any', 'all', 'position', 'for_each', 'fold', 'try_for_each', 'try_fold', 'last', 'collect')}
REFERENCE |= {'core::iter::traits::collect::Extend::extend'}


def is_vec_ty(t):
    return t[:2] == ('adt', 'alloc::vec::Vec')


def is_ext(key):
    return key.split('::')[0] in ('core', 'alloc', 'std')


def shares(l, k):
    ls = {t for t, _ in l.a[1]}
    return any(t in ls for t, _ in k.a[1])


_hg = {}


def has_guard(v):
    r = _hg.get(v)
    if r is None:
        r = bool(guards_in(v))
        _hg[v] = r
    return r


_gi = {}


def guards_in(v):
    r = _gi.get(v)
    if r is not None:
        return r
    t = v.t
    if t == 'guard':
        r = (v,)
    elif t in ('adt', 'tup', 'clo', 'box', 'vec', 'cell', 'gmap'):
        r = ()
        for x in v.a:
            if isinstance(x, V):
                r += guards_in(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V):
                        r += guards_in(y)
    else:
        r = ()
    _gi[v] = r
    return r


def has_cellproj(proj):
    return any(e == 'c' for e in proj)
