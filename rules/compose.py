"""Program, Switch and Loop: what they do after each answer of a child (C01 C02 C03 C04 C08)."""
from common import *
from answers import MANY

SWITCH = ['switch', 'switch_macro']
LOOPS = ['looping', 'looping_unbounded', 'looping_named', 'looping_one', 'looping_one_named', 'looping_two']
PROGRAMS = ['program', 'program_named', 'program_macro', 'program_macro_named']


def kind_of(name):
    return 'switch' if name in SWITCH else 'loop' if name in LOOPS else 'program'


class Shape:
    """children of the composite: which is which"""

    def __init__(self, u):
        self.u = u
        a = u.args
        if 'v' in a:
            self.base, self.fixed = a['v'], None
            self.n = u.I.veclen(a['v'])
        else:
            self.fixed = (a['c'],) if 'c' in a else (a['a'], a['b'])
            self.base = mk('vec', None, self.fixed)
            self.n = N(len(self.fixed))

    def index(self, mid):
        if self.fixed and mid in self.fixed:
            return N(self.fixed.index(mid))
        if mid.t == 'sym' and len(mid.a) > 1 and mid.a[1] and isinstance(mid.a[1][-1], tuple) and mid.a[1][-1][0] == 'el':
            b = mid.a[0] if isinstance(mid.a[0], V) else None
            if b is self.base or (b is None and self.base.t == 'sym' and mid.a[0] == self.base.a[0]
                                  and mid.a[1][:-1] == self.base.a[1]):
                i = mid.a[1][-1][1]
                return i if isinstance(i, V) else N(i)
        return None


def discarded(u, st, tok):
    root = deref(u, st, tok)
    return u.I.decide(st, u.I.uf('t.discard', (mk('ref', root, ('c', '*')),), policy_bool))


policy_bool = ('bool',)


def consuming(u, st, mid):
    return u.I.decide(st, u.I.uf('m.is_consuming', (mid,), policy_bool))


def split(u, st, cond):
    """the state under cond, and under its negation (None when impossible)"""
    d = u.I.decide(st, cond)
    if d is True:
        return st, None
    if d is False:
        return None, st
    a, b = st.copy(), st.copy()
    ra = u.I.assume(a, cond, True)
    rb = u.I.assume(b, cond, False)
    return (a if ra is not False else None), (b if rb is not False else None)


def moves(u, st, case, ans, mid, cur):
    """the cursor after this answer: a value, or None when there is no claim"""
    I = u.I
    base = case.split('(')[0]
    if base in ('Token', 'ProxyChildren'):
        t = ans.tok[TOKEN if base == 'Token' else PROXY]
        c = consuming(u, st, mid)
        if discarded(u, st, t) is not False:
            return cur
        if c is None:
            return None
        return I.project(st, tok_field(u, st, t, 'matched'), ('f', 1)) if c else cur
    if base == 'Skip':
        c = consuming(u, st, mid)
        if c is None:
            return None
        return n_add(cur, ans.skip) if c else cur
    if base == 'None':
        return cur
    if base == 'Continue':
        k = case[9:-1]
        if k in ('Token', 'ProxyChildren'):
            t = field(I, ans.pay[CONTINUE], TOKEN if k == 'Token' else PROXY, 0)
            if discarded(u, st, t) is not False:
                return None
            return I.project(st, tok_field(u, st, t, 'matched'), ('f', 1))
        if k == 'Skip':
            return n_add(cur, field(I, ans.pay[CONTINUE], SKIP, 0))
        return cur
    return None


def eqc(u, st, a, b):
    """equality of cursors"""
    d = u.I.decide(st, u.I.eq(a, b))
    if d is not None:
        return d
    return None if opaque_in((a, b)) else False


def is_token_ret(u, st, v):
    v = norm(u.I, st, v)
    if v.t != 'adt' or v.a[1] != OK:
        return False
    s = norm(u.I, st, v.a[2][0])
    return s.t == 'adt' and s.a[1] == TOKEN


def variant(u, st, v):
    """(OK|ERR, inner variant) of a returned value, None where unknown"""
    v = norm(u.I, st, v)
    if v.t != 'adt':
        return None, None
    s = norm(u.I, st, v.a[2][0])
    return v.a[1], (s.a[1] if s.t == 'adt' else None)


def own_program_token(u, st, v):
    """the answer is a token this Program built"""
    v = norm(u.I, st, v)
    if v.t != 'adt' or v.a[1] != OK:
        return False
    s = norm(u.I, st, v.a[2][0])
    if s.t != 'adt':
        return None
    if s.a[1] != TOKEN:
        return False
    return deref(u, st, s.a[2][0]).t == 'H' and deref(u, st, s.a[2][0]).a[0] == 'new'


# ------------------------------------------------------------------ C01 / C02
def fatal(u, R):
    """an Error is the result, and nothing is executed after it"""
    name = short(u.name).split('::')[-1]
    hit = 0
    for s in after(u):
        if s.kind not in ('ret', 'exec', 'cb', 'panic') or s.kind == 'panic' and not s.definite:
            continue
        for case, ans, st in answers(u, s, R, lambda c: c == 'Error'):
            hit += 1
            good = s.kind == 'ret' and eqv(u.I, st, s.val, evr(s.prev))
            R.verdict(good, '%s on Error' % name, '%s: when a child answers a fatal error that error is the answer, but it %s%s'
                      % (name, show_step(s), ' in ' + s.fn if s.fn else ''))
    if not hit:
        R.unsure('%s: no outcome seen for Error' % name)


def failed(u, R):
    """a Fail ends a Program, moves a Switch on, and ends a Loop"""
    name = short(u.name).split('::')[-1]
    kind = kind_of(name)
    sh = Shape(u)
    hit = 0
    for s in after(u):
        if s.kind not in ('ret', 'exec', 'cb', 'panic') or s.kind == 'panic' and not s.definite:
            continue
        for case, ans, st in answers(u, s, R, lambda c: c == 'Fail'):
            hit += 1
            if s.kind != 'ret' and kind != 'switch' or s.kind == 'panic':
                R.verdict(False, '%s on Fail: goes on' % name, '%s: when a child fails it %s' % (name, show_step(s)))
                continue
            if kind == 'program':
                good = eqv(u.I, st, s.val, fail())
            elif kind == 'loop':
                a, b = variant(u, st, s.val)
                if a is None:
                    good = None
                elif a == ERR:
                    good = eqv(u.I, st, s.val, fail())
                elif b == SKIP:
                    good = eqv(u.I, st, s.val, skip0())
                else:
                    good = own_program_token(u, st, s.val)
            elif s.kind == 'ret':
                i = sh.index(s.prev.a[1])
                end = None if i is None else u.I.decide(st, u.I.eq(n_add(i, N(1)), sh.n))
                good = all3([eqv(u.I, st, s.val, fail()), end])
            else:
                i, j = sh.index(s.prev.a[1]), sh.index(s.ev.a[1])
                good = None if i is None or j is None else eqc(u, st, j, n_add(i, N(1)))
            R.verdict(good, '%s on Fail' % name, '%s: when a child fails it should %s, but it %s' % (
                name, {'program': 'fail', 'loop': 'end with what it has', 'switch': 'try the next alternative'}[kind],
                show_step(s)))
    if not hit:
        R.unsure('%s: no outcome seen for Fail' % name)


# ------------------------------------------------------------------ C03
def choice(u, R):
    """Switch: first success wins, unchanged, every alternative tried in order at the entry cursor"""
    name = short(u.name).split('::')[-1]
    I, sh = u.I, Shape(u)
    for s in u.steps:
        if s.kind == 'exec':
            R.count('executions')
            R.verdict(eqc(u, s.st, s.ev.a[5], u.cur) if s.prev is policy.NONE else True, '%s: first alternative cursor' % name,
                      '%s: the first alternative does not start at the cursor' % name)
            i = sh.index(s.ev.a[1])
            if s.prev is policy.NONE:
                R.verdict(None if i is None else eqc(u, s.st, i, N(0)), '%s: first alternative' % name,
                          '%s: the first alternative tried is %s' % (name, show(s.ev.a[1])))
        if s.kind == 'ret' and s.prev is policy.NONE:
            R.verdict(I.decide(s.st, I.eq(sh.n, N(0))), '%s: no alternative tried' % name,
                      '%s answers %s without trying an alternative' % (name, show(s.val)))
    for s in after(u):
        if s.kind not in ('ret', 'exec', 'cb', 'panic') or s.kind == 'panic' and not s.definite:
            continue
        mid, cur = s.prev.a[1], s.prev.a[5]
        i = sh.index(mid)
        for case, ans, st in answers(u, s, R):
            base = case.split('(')[0]
            if base in ('Stop', 'Error'):
                continue
            todo = [(st, base in ('Token', 'ProxyChildren', 'Break', 'Continue'))]
            if base == 'Skip':
                pos, rest = split(u, st, I.ge0(n_add(ans.skip, N(-1))))
                todo = [(pos, True)]
                if rest is not None:
                    zero, _ = split(u, rest, I.eq(ans.skip, N(0)))
                    todo.append((zero, False))
            for st1, wins in todo:
                if st1 is None:
                    continue
                if base in ('Token', 'ProxyChildren') and discarded(u, st1, ans.tok[TOKEN if base == 'Token' else PROXY]):
                    wins = False
                key = '%s on %s' % (name, base + ('' if base != 'Skip' else '>0' if wins else '=0'))
                if wins:
                    good = s.kind == 'ret' and eqv(I, st1, s.val, evr(s.prev))
                    R.verdict(good, key + ': first success wins', '%s: when an alternative answers %s that is the result, but it %s%s'
                              % (name, case, show_step(s), ' in ' + s.fn if s.fn else ''))
                elif s.kind == 'exec':
                    j = sh.index(s.ev.a[1])
                    good = None if i is None or j is None else eqc(u, st1, j, n_add(i, N(1)))
                    R.verdict(good, key + ': order', '%s: after alternative %s answers %s, alternative %s is tried'
                              % (name, show(mid), case, show(s.ev.a[1])))
                    R.verdict(eqc(u, st1, s.ev.a[5], cur), key + ': cursor', '%s: after alternative %s answers %s the next one starts at %s instead of %s'
                              % (name, show(mid), case, show(s.ev.a[5]), show(cur)))
                elif s.kind == 'ret':
                    end = None if i is None else I.decide(st1, I.eq(n_add(i, N(1)), sh.n))
                    R.verdict(all3([eqv(I, st1, s.val, fail()), end]), key + ': exhausted',
                              '%s: after alternative %s answers %s it %s' % (name, show(mid), case, show_step(s)))
                else:
                    R.verdict(False, key + ': ' + s.kind, '%s: when an alternative answers %s it %s in %s' % (name, case, show_step(s), s.fn))


# ------------------------------------------------------------------ C08
def order(u, R):
    """Program and Loop: every child in order, each where the one before it ended"""
    name = short(u.name).split('::')[-1]
    loop = kind_of(name) == 'loop'
    I, sh = u.I, Shape(u)
    for s in u.steps:
        if s.kind != 'exec':
            continue
        R.count('executions')
        R.verdict(eqc(u, s.st, s.ev.a[6], u.end), '%s: window end' % name,
                  '%s: a child is given a window ending at %s' % (name, show(s.ev.a[6])))
        if s.prev is policy.NONE:
            i = sh.index(s.ev.a[1])
            R.verdict(None if i is None else eqc(u, s.st, i, N(0)), '%s: first child' % name,
                      '%s: the first child executed is %s' % (name, show(s.ev.a[1])))
            R.verdict(eqc(u, s.st, s.ev.a[5], u.cur), '%s: first cursor' % name,
                      '%s: the first child starts at %s' % (name, show(s.ev.a[5])))
    for s in after(u):
        if s.kind not in ('ret', 'exec'):
            continue
        mid, cur = s.prev.a[1], s.prev.a[5]
        i = sh.index(mid)
        for case, ans, st in answers(u, s, R):
            base = case.split('(')[0]
            if base in ('Stop', 'Error', 'Fail', 'Break'):
                continue
            if base == 'Continue' and not loop:
                continue
            if s.kind == 'ret':
                if base == 'Continue':
                    continue
                if variant(u, st, s.val)[0] == OK or not loop:
                    end = None if i is None else I.decide(st, I.eq(n_add(i, N(1)), sh.n))
                    if end is None and not opaque_in(i):
                        end = False
                    R.verdict(end, '%s on %s: ends early' % (name, base),
                              '%s: after child %s answers %s it %s before the remaining children were executed' % (
                                  name, show(mid), case, show_step(s)))
                continue
            j = sh.index(s.ev.a[1])
            if i is None or j is None:
                R.unsure('%s on %s: index' % (name, base))
                continue
            nxt = eqc(u, st, j, n_add(i, N(1)))
            if nxt is not True and loop:
                again = all3([eqc(u, st, j, N(0)), True if base == 'Continue' else eqc(u, st, n_add(i, N(1)), sh.n)])
                nxt = True if again is True else None if None in (nxt, again) else False
            R.verdict(nxt, '%s on %s: order' % (name, base), '%s: after child %s answers %s it executes %s' % (
                name, show(mid), case, show(s.ev.a[1])))
            want = moves(u, st, case, ans, mid, cur)
            if want is None:
                R.unsure('%s on %s: consumption unknown' % (name, base))
                continue
            R.verdict(eqc(u, st, s.ev.a[5], want), '%s on %s: cursor' % (name, base),
                      '%s: after child %s answers %s the next one starts at %s instead of %s' % (
                          name, show(mid), case, show(s.ev.a[5]), show(want)))


# ------------------------------------------------------------------ C04
class SignalPolicy(policy.MatcherPolicy):
    """remembers what a label was compared with"""

    def keep_fact(self, k):
        if k.t == 'streq':
            return any(r == ('r', 0) for r in k.roots)
        return super().keep_fact(k)

    def joined(self, I, J, s, o):
        """paths on which the latest signal is for this loop stay apart from those on which it may not be"""
        e = s.ghost['last']
        if is_ev(e, 'exec') and is_ev(J.ghost['last'], 'exec'):
            for k in (BREAK, CONTINUE):
                x, y = (own_label(self, st, Ans(I, evr(st.ghost['last'])).label[k], I, True) for st in (J, s))
                if x != y and (True in x or True in y):
                    return False
        return super().joined(I, J, s, o)


def own_label(u, st, label, I=None, why=False):
    """is the label the name of this loop or empty: True / False / None"""
    I = I or u.I
    args = u.uargs if I is not getattr(u, 'I', None) else u.args
    own = args['name'] if 'name' in args else mk('str', 'Loop')
    empty = I.decide(st, I.eq(I.veclen(label), N(0)))
    same = True if own is label else I.decide(st, mk('streq', *sorted((label, own))))
    if why:
        return empty, same
    if empty or same:
        return True
    if empty is False and same is False:
        return False
    return None


def signals(u, R):
    """a Break or Continue leaves every construct up to the loop it names, with its label"""
    I, name = u.I, short(u.name).split('::')[-1]
    kind = kind_of(name) if name in SWITCH + LOOPS + PROGRAMS + ['program_one'] else 'wrapper'
    sh = Shape(u) if kind == 'loop' else None
    for s in after(u):
        if s.kind not in ('ret', 'exec', 'cb', 'panic') or s.kind == 'panic' and not s.definite:
            continue
        for k, sig in ((BREAK, 'Break'), (CONTINUE, 'Continue')):
            ans = Ans(I, evr(s.prev))
            st = with_vars(s.st, {ans.r: OK, ans.ok: k})
            if st is None:
                continue
            label = ans.label[k]
            if s.kind in ('cb', 'panic'):
                R.verdict(False, '%s on %s: %s' % (name, sig, s.kind), '%s: when a child answers %s it %s' % (name, sig, show_step(s)))
                continue
            cases = [(st, None)]
            if kind == 'loop':
                d = own_label(u, st, label)
                cases = [(st, d)]
                if d is None:
                    # nothing on this path tells whose signal it is: it has to be right for both
                    mine, other = st.copy(), st.copy()
                    I.assume(mine, I.eq(I.veclen(label), N(0)), True)
                    ok1 = I.assume(other, I.eq(I.veclen(label), N(0)), False)
                    own = u.args['name'] if 'name' in u.args else mk('str', 'Loop')
                    ok2 = I.assume(other, mk('streq', *sorted((label, own))), False)
                    cases = [(mine, True)] + ([(other, False)] if ok1 is not False and ok2 is not False else [])
            for st1, mine in cases:
                what = '%s on %s%s' % (name, sig, '' if mine is None else ' for itself' if mine else ' for another')
                if s.kind == 'exec':
                    if kind == 'loop' and mine and sig == 'Continue':
                        j = sh.index(s.ev.a[1])
                        R.verdict(None if j is None else eqc(u, st1, j, N(0)), what + ': next iteration',
                                  '%s: after a Continue for it the next child executed is %s' % (name, show(s.ev.a[1])))
                    else:
                        R.verdict(False, what + ': goes on', '%s: when a child answers %s it goes on with %s' % (what, sig, show(s.ev.a[1])))
                    continue
                v = norm(I, st1, s.val)
                good = label_of(u, st1, v, k)
                if mine:
                    # consumed: no signal leaves the loop
                    w = variant(u, st1, v)
                    good = None if w[0] is None or w[1] is None else not (w[0] == OK and w[1] in (BREAK, CONTINUE)) and (w[0] == OK or w[1] == FAIL)
                elif kind in ('program', 'loop') and v.t == 'adt' and v.a[1] == ERR:
                    good = eqv(I, st1, v, fail())
                else:
                    good = None if good is None else good is label or eqv(I, st1, good, label) if good is not False else False
                R.verdict(good, what + ': result', '%s: when a child answers %s it %s' % (what, sig, show_step(s)))
    if name.startswith('break'):
        for s in u.steps:
            if s.kind != 'ret':
                continue
            v = norm(I, s.st, s.val)
            got = label_of(u, s.st, v, BREAK)
            want = 'Label' if name == 'break_named' else ''
            R.verdict(got is not False and got is not None and show(got) == show(mk('str', want)), name + ': result',
                      '%s %s' % (name, show_step(s)))


def label_of(u, st, v, k):
    """the label of Ok(signal k (label, …)); False when it is something else, None when unknown"""
    if v.t != 'adt':
        if v.t in ('sym', 'phi'):
            ty = u.I.vty(v)
            if st.vars.get(v) == OK:
                return u.I.project(st, field(u.I, field(u.I, v, OK, 0), k, 0), ('f', 0)) if st.vars.get(field(u.I, v, OK, 0)) == k else None
        return None
    if v.a[1] != OK:
        return False
    s = norm(u.I, st, v.a[2][0])
    if s.t != 'adt':
        return None
    if s.a[1] != k:
        return False
    return u.I.project(st, s.a[2][0], ('f', 0))
