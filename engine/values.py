"""Abstract values: hash-consed terms.

Integers are linear forms over opaque atoms; everything the analysed code gets from its
environment is an opaque typed symbol that is projected on demand."""


class V:
    __slots__ = ('t', 'a', 'roots', 'id', 'locs')
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(t, *a):
    k = (t, a)
    v = V._tab.get(k)
    if v is None:
        v = V()
        v.t, v.a = t, a
        V._n += 1
        v.id = V._n
        r = None
        if t == 'sym' and not isinstance(a[0], V):
            r = {a[0]}
        elif t == 'phi':
            r = {a[0]}
        elif t == 'H' and not isinstance(a[0], V):
            r = {a}
        rs = [r] if r else []
        ls = []
        for x in a:
            _roots(x, rs, ls)
        if t == 'L':
            v.locs = frozenset((v,))
        elif not ls:
            v.locs = EMPTY
        elif len(ls) == 1:
            v.locs = ls[0]
        else:
            v.locs = frozenset().union(*ls)
        if not rs:
            v.roots = EMPTY
        elif len(rs) == 1:
            v.roots = frozenset(rs[0])
        else:
            v.roots = frozenset().union(*rs)
        V._tab[k] = v
    return v


EMPTY = frozenset()


def _roots(x, rs, ls):
    if isinstance(x, V):
        if x.roots:
            rs.append(x.roots)
        if x.locs:
            ls.append(x.locs)
    elif isinstance(x, tuple):
        for y in x:
            _roots(y, rs, ls)


def show(v, d=0):
    if isinstance(v, tuple):
        return '(' + ','.join(show(x) for x in v) + ')'
    if not isinstance(v, V):
        return str(v)
    t, a = v.t, v.a
    if t == 'n':
        s = []
        for x, c in a[1]:
            s.append(('' if c == 1 else '-' if c == -1 else str(c) + '*') + show(x))
        if a[0] or not s:
            s.append(str(a[0]))
        return '+'.join(s)
    if t == 'b':
        return str(a[0])
    if t == 'str':
        return repr(a[0])
    if t == 'sym':
        return str(a[0]) + ''.join('.' + (show(p) if not isinstance(p, tuple) else '/'.join(map(show, p))) for p in a[1])
    if t == 'phi':
        return 'φ' + str(a[0])
    if t == 'adt':
        return a[0][1].split('::')[-1] + '#' + str(a[1]) + (show(a[2]) if a[2] else '')
    if t == 'tup':
        return show(a[0])
    if t == 'ref':
        return '&' + show(a[0]) + ''.join('.' + show(p) for p in a[1])
    if t == 'vref':
        return '&' + show(a[0])
    return t + '(' + ','.join(show(x) for x in a if not (isinstance(x, tuple) and x and x[0] in TYK)) + ')'


TYK = {'adt', 'ref', 'ptr', 'int', 'bool', 'str', 'tuple', 'closure', 'fndef', 'fnptr', 'dyn', 'param', 'slice',
       'array', 'never', 'char', 'float', 'other'}

TRUE = mk('b', True)
FALSE = mk('b', False)
UNIT = mk('tup', ())
MOVED = mk('moved')
UNINIT = mk('uninit')


def N(c, terms=()):
    return mk('n', c, terms)


def const_of(v):
    if v.t == 'n' and not v.a[1]:
        return v.a[0]
    return None


def atom_n(x):
    return mk('n', 0, ((x, 1),))


def n_add(x, y, k=1):
    """x + k*y"""
    d = dict(x.a[1])
    for t, c in y.a[1]:
        n = d.get(t, 0) + k * c
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return mk('n', x.a[0] + k * y.a[0], tuple(sorted(d.items(), key=lambda p: p[0].id)))


def n_sub(x, y):
    return n_add(x, y, -1)


def n_scale(x, k):
    if k == 0:
        return N(0)
    return mk('n', x.a[0] * k, tuple((t, c * k) for t, c in x.a[1]))


def subst(v, f, memo):
    """rebuild v, mapping sym/phi leaves by f (returns None for unchanged)."""
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            y = subst(x, f, memo) if isinstance(x, (V, tuple)) else x
            if y is not x:
                ch = True
            out.append(y)
        return tuple(out) if ch else v
    if not isinstance(v, V):
        return v
    if not v.roots:
        return v
    r = memo.get(v)
    if r is not None:
        return r
    r = f(v)
    if r is None:
        if v.t == 'n':
            acc = N(v.a[0])
            for x, c in v.a[1]:
                y = subst(x, f, memo)
                acc = n_add(acc, y if y.t == 'n' else atom_n(y), c)
            r = acc
        else:
            a = subst(v.a, f, memo)
            r = v if a is v.a else mk(v.t, *a)
    memo[v] = r
    return r
