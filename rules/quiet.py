"""C15: the paths taken at one debug level against those at another.

Each unit is analysed once per level. What happens on a path (executions, callbacks, look-ups, the answer) is written down with the
objects made on the way numbered in the order they are met, the debug level left out. For each thing that happens at one level there
has to be a path at the other level where the same happens and whose conditions do not contradict those of the first."""
import effects
import collect
from common import *          # noqa
import unit as U

LEVELS = (1, 2)
UNITS = effects.LEAVES + effects.ONE + ['switch_macro', 'program_one', 'program_macro']
DEEP = 9


class Shape:
    """a value written down so that it can be compared with one of another run"""

    def __init__(self, I, st, level, pol):
        self.I, self.st, self.level, self.pol, self.names = I, st, level, pol, {}
        self.torn = False

    def new(self, k):
        n = self.names.get(k)
        if n is None:
            n = self.names[k] = len(self.names)
            return n, True
        return n, False

    def of(self, v, d=DEEP):
        if isinstance(v, tuple):
            return tuple(self.of(x, d) for x in v)
        if isinstance(v, frozenset):
            return frozenset(self.of(x, d) for x in v)
        if not isinstance(v, V):
            return v
        if v is self.level:
            return 'level'
        if v.t == 'phi' or v.t == 'sym' and v.a[0] == 'unk':
            self.torn = True
            return ANY
        if v.t == 'L':
            return ('L',)
        if v.t == 'H' and not isinstance(v.a[0], V):
            n, first = self.new(v)
            c = self.st.cells.get(v)
            if first and c is not None and d > 0:
                return ('H', n, self.of(c, d - 1))
            return ('H', n)
        if v.t == 'adt' and isinstance(v.a[0], tuple) and v.a[0][1:2] == (A + 'parser_context::ParserContext',):
            i = self.pol.ctx_field(self.I, 'debug_mode')
            return ('ctx', tuple('level' if j == i else self.of(x, d) for j, x in enumerate(v.a[2])))
        return (v.t,) + tuple(self.of(x, d) for x in v.a)


ANY = ('?',)


def alike(a, b):
    """can the two stand for the same, given that what was merged can stand for anything"""
    if a is ANY or b is ANY or a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    if a[:1] == b[:1] == ('H',):
        return True
    for x, y in ((a, b), (b, a)):       # a range as it was, or put together again
        if x[:1] == ('sym',) and y[:1] == ('adt',) and y[1][1:2] == (A + 'source_range::SourceRange',):
            return True
    if a[:1] != b[:1] or a[:1] in (('n',), ('uf',), ('sym',)) or len(a) != len(b):
        return holds(a, ANY) or holds(b, ANY)       # what is picked by something merged
    return all(alike(x, y) for x, y in zip(a, b))


def holds(a, x):
    return a is x or isinstance(a, tuple) and any(holds(y, x) for y in a)


def fresh(v):
    """does the term name something made on the way, whose number differs between runs"""
    return any(isinstance(r, tuple) and len(r) > 1 for r in v.roots)


def about(v, level):
    if isinstance(v, tuple):
        return any(about(x, level) for x in v)
    return isinstance(v, V) and (v is level or any(about(x, level) for x in v.a))


class Path:
    def __init__(self, u, s, level):
        self.s = s
        h = Shape(u.I, s.st, level, u.pol)
        self.key = (s.kind, h.of(s.prev), h.of(s.ev), h.of(s.val) if s.kind == 'ret' else None)
        self.torn = h.torn

    def agrees(self, I, o, level):
        """can the conditions of both paths hold at once"""
        a, b = self.s.st, o.s.st
        for k, x in b.vars.items():
            if not fresh(k) and a.vars.get(k, x) != x:
                return False
        for k, x in b.facts.items():
            if isinstance(k, V) and not fresh(k) and not about(k, level) and a.facts.get(k, x) != x:
                return False
        st = a.copy()
        st.cons = frozenset(l for l in a.cons if not about(l, level))
        for l in b.cons:
            if not about(l, level) and not fresh(l):
                if I.decide_ge0(st, l) is False:
                    return False
        return True


def paths(u, level):
    return [Path(u, s, level) for s in u.steps if s.kind != 'panic' or s.definite]


def said(s):
    return '%s after %s' % (show_step(s)[:160], str(show(s.prev))[:120])


def quiet(u, R, levels=LEVELS, again=policy.MatcherPolicy):
    I = u.I
    level = I.read(u.rets[0][0] if u.rets else u.steps[0].st, u.ctx_root, ('c', ('f', u.pol.ctx_field(I, 'debug_mode')))) if u.rets or u.steps else None
    if level is not None and level.t == 'n' and level.a[1]:
        level = level.a[1][0][0]
    base = paths(u, level)
    whole = not u.budget and not I.undecided
    for n in levels:
        w = U.run_unit(I.p, u.name, n, mkpolicy=again, budget=240)
        I.blocks_seen |= w.I.blocks_seen
        for k, x in w.I.undecided.items():
            R.notes['engine: ' + str(k)[:120]] = x
        ok = whole and not w.budget and not w.I.undecided
        other = paths(w, level)
        for mine, theirs, now in ((other, base, 'at level %d' % n), (base, other, 'with debugging off')):
            have = {}
            for p in theirs:
                have.setdefault(p.key, []).append(p)
            for p in mine:
                same = have.get(p.key, ())
                good = any(q.agrees(I, p, level) for q in same)
                R.count('compared')
                if not good and (p.torn or not ok or any(alike(q.key, p.key) for q in theirs if q.key != p.key)):
                    good = None
                R.verdict(good, '%s: debugging' % short(u.name).split('::')[-1],
                          '%s %s: %s%s' % (short(u.name), now, said(p.s), '' if same else ', and nowhere else'))


def parts():
    J, RU, PO = [(n, 'quiet', 0) for n in UNITS], {'quiet': quiet}, {'quiet': policy.MatcherPolicy}
    for n, s, apart in collect.LISTS:
        k = 'quiet ' + ' '.join(s)
        J.append((n, k, 0))
        PO[k] = collect.maker(s, False)
        RU[k] = lambda u, R, m=PO[k]: quiet(u, R, again=m)
    return J, RU, PO
