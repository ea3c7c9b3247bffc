"""Shared pieces of the rules."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from values import *          # noqa
from unit import *            # noqa
import policy                 # noqa

A = 'adextopa_core::'


class Report:
    """what one job of one rule found; picklable"""

    def __init__(self):
        self.violations = {}        # key -> message
        self.undecided = {}         # what -> count
        self.counts = {}            # what was analysed
        self.samples = []
        self.notes = {}
        self.functions = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def bad(self, key, msg):
        self.violations.setdefault(key, msg)

    def unsure(self, what):
        self.undecided[what] = self.undecided.get(what, 0) + 1

    def verdict(self, ok, key, msg):
        """ok: True / False / None"""
        self.count('obligations')
        if ok is None:
            self.unsure(key)
        elif ok is False:
            self.bad(key, msg)

    def merge(self, o):
        for k, m in o.violations.items():
            self.violations.setdefault(k, m)
        for k, n in o.undecided.items():
            self.undecided[k] = self.undecided.get(k, 0) + n
        for k, n in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n
        self.samples += o.samples
        self.functions += o.functions
        self.notes.update(o.notes)


def short(name):
    return name.replace('witness::', '')


def evr(ev):
    """the answer of an exec or cb event"""
    return ev.a[-1]


def is_ev(ev, kind):
    return ev.t == 'ev' and ev.a[0] == kind


def where(s):
    return (s.fn or s.info and '' or '') or ''


def adt(ty, var, *fs):
    return mk('adt', ty, var, fs)


def ok(v):
    return adt(policy.RESULT, OK, v)


def err(v):
    return adt(policy.RESULT, ERR, v)


def suc(k, *fs):
    return adt(policy.SUCCESS, k, *fs)


def fail():
    return err(adt(policy.FAILURE, FAIL))


def skip0():
    return ok(suc(SKIP, N(0)))


def noted(I, R, u):
    """bookkeeping common to all rules over a unit"""
    R.count('functions', len(getattr(I, 'called', ())))
    R.count('states', I.steps)
    for k, n in I.undecided.items():
        R.undecided['engine ' + short(u.name) + ': ' + str(k)] = n
    if u.budget:
        R.undecided['budget ' + short(u.name) + ': ' + u.budget] = 1


def after(u, kind='exec'):
    """steps whose previous event is of that kind, with the spelled-out answer"""
    for s in u.steps:
        if is_ev(s.prev, kind) and s.kind not in ('get',):
            yield s


def show_step(s):
    if s.kind == 'ret':
        return 'returns ' + show(s.val)[:160]
    if s.kind == 'panic':
        return 'panics: ' + str(s.info)[:120]
    if s.ev is not None:
        return s.kind + ' ' + show(s.ev)[:160]
    return s.kind


def answers(u, s, R, only=None):
    """(case name, state refined by the case) for every answer the last child may have given"""
    ans = Ans(u.I, evr(s.prev))
    for name, d in ans.cases():
        if only is not None and not only(name):
            continue
        st = with_vars(s.st, d)
        if st is None:
            continue
        yield name, ans, st


# ---------------------------------------------------------------------- objects
CTOK = {'captured': 'captured_range', 'matched': 'matched_range'}


def deref(u, st, v):
    return u.I.deref_loc(st, v)[0]


def tok_field(u, st, tok, f):
    """field f (name flags captured matched children attrs parent …) of a token, concrete or opaque"""
    I = u.I
    root = deref(u, st, tok)
    p = ('c', '*')
    x = I.read(st, root, p)
    ty = I.vty(x)
    if x.t == 'adt' or (ty and ty[0] == 'adt'):
        t = x.a[0] if x.t == 'adt' else ty
        i = I.p.field_index(t[1], {'captured': 'captured_range', 'matched': 'matched_range', 'attrs': 'attributes'}.get(f, f))
        return I.read(st, root, p + (('f', i),))
    return I.read(st, root, p + (('tf', f),))


def ctx_fields(u, st, ctx):
    I = u.I
    root = deref(u, st, ctx)
    return I.read(st, root, ('c',))


def ctx_field(u, st, ctx, name):
    root = deref(u, st, ctx)
    return u.I.read(st, root, ('c', ('f', u.pol.ctx_field(u.I, name))))


def is_error_token(u, st, v):
    """Ok(Token(t)) with t flagged as an error: True / False / None"""
    v = norm(u.I, st, v)
    if v.t != 'adt' or v.a[1] != OK:
        return False
    s = norm(u.I, st, v.a[2][0])
    if s.t != 'adt' or s.a[1] != TOKEN:
        return False
    fl = tok_field(u, st, s.a[2][0], 'flags')
    fl = const_of(fl) if fl.t == 'n' else None
    if fl is None:
        return None
    return bool(fl & 2)
