"""C33: literals, regular expressions and quoted sequences match at the cursor and inside the window."""
from common import *
import names

ALL = ['equals', 'equals_named', 'equals_fetch', 'matches', 'matches_named', 'sequence', 'sequence_named']
WEAK = ('str.contains', 'str.ends_with', 'str.find', 'str.rfind', 'regex::Regex::is_match')


class TermPolicy(policy.MatcherPolicy):
    """keeps the outcomes of calls apart: leaf matchers are small"""

    def merges(self, body):
        return False

    def keep_fact(self, k):
        return True


mkpolicy = TermPolicy


def ends_of(I, m):
    x = [I.uf('regex::Match::' + f, (m,), ('int', 'usize')) for f in ('start', 'end')]
    return [n if n.t == 'n' else atom_n(n) for n in x]


def text_of(u, x):
    """(start, end) in the source of a string value, or None"""
    if x is u.text:
        return N(0), u.I.veclen(u.text)
    if x.t == 'uf' and x.a[0] == 'substr' and x.a[1][0] is u.text:
        return x.a[1][1], x.a[1][2]
    return None


def prefixes(u, st):
    """what the path knows about starts_with: (lo, hi, pattern, holds)"""
    out = []
    for k, v in st.facts.items():
        if k.t == 'uf' and k.a[0] == 'str.starts_with':
            w = text_of(u, k.a[1][0])
            out.append((w, k.a[1][1], v))
    return out


def weaker(st):
    return any(k.t == 'uf' and k.a[0] in WEAK for k in list(st.facts) + list(st.vars))


def axioms(u, st):
    """a prefix is not longer than the text; a match lies in the text it was found in"""
    I, s = u.I, st.copy()
    for w, p, v in prefixes(u, st):
        if v and w:
            I.assume(s, I.le(n_add(w[0], I.veclen(p)), w[1]), True)
    for k, v in st.vars.items():
        if k.t == 'uf' and k.a[0] == 'regex::Regex::find' and v == 1:
            m = field(I, k, 1, 0)
            a, b = ends_of(I, m)
            w = text_of(u, k.a[1][1])
            I.assume(s, I.le(a, b), True)
            if w:
                I.assume(s, I.le(n_add(w[0], b), w[1]), True)
    return s


def begins(u, st, at, p, R, what, msg):
    """the text at `at` begins with p, and lies in the window"""
    I = u.I
    hits = [w for w, q, v in prefixes(u, st) if v and w and (q is p or show(q) == show(p))]
    at_hits = [w for w in hits if I.decide(st, I.eq(w[0], at))]
    if at_hits:
        good = True
    elif hits and all(I.decide(st, I.eq(w[0], at)) is False for w in hits):
        good = False
    elif not hits and weaker(st):
        good = False
    else:
        good = None
    R.verdict(good, what + ': text', msg)


def terminals(u, R):
    I, n = u.I, short(u.name).split('::')[-1]
    kind = n.split('_')[0]
    for s in u.steps:
        if s.kind in ('exec', 'cb'):
            R.verdict(False, n + ': runs something', '%s %s' % (n, show_step(s)))
        if s.kind == 'panic' and s.definite and n != 'equals_fetch' and not no_delimiter(u, s):   # an unknown attribute of Fetch is a documented panic
            R.verdict(False, n + ': panics', '%s %s' % (n, show_step(s)))
        if s.kind != 'ret':
            continue
        st = axioms(u, s.st)
        v = norm(I, st, s.val)
        t = names.own(u, st, v)
        case = variant_of(u, v)
        if t is not None:
            cap, mat = (tok_field(u, st, t, f) for f in ('captured', 'matched'))
            f = lambda x, i: I.project(st, x, ('f', i))
            R.verdict(eqv(I, st, f(mat, 0), u.cur), n + ': begins at the cursor', '%s answers a token that begins at %s' % (n, show(f(mat, 0))[:150]))
            d = I.decide(st, I.le(f(mat, 1), u.end))
            if d is None and n.startswith('sequence') or d is None and not phi_in(f(mat, 1)):
                d = None if phi_in(f(mat, 1)) else False
            R.verdict(d, n + ': ends in the window', '%s answers a token that may end behind the window: %s' % (n, show(f(mat, 1))[:150]))
            if kind == 'equals' and n != 'equals_fetch':
                p = u.args['pat']
                begins(u, st, u.cur, p, R, n, '%s answers a token although the text at the cursor may not begin with the pattern' % n)
                R.verdict(eqv(I, st, f(mat, 1), n_add(u.cur, I.veclen(p))), n + ': width', '%s answers a token that ends at %s' % (n, show(f(mat, 1))[:150]))
                R.verdict(all3(eqv(I, st, f(cap, i), f(mat, i)) for i in (0, 1)), n + ': captured', '%s captures %s' % (n, show(cap)[:150]))
            if kind == 'sequence':
                a, b = u.args['a'], u.args['b']
                begins(u, st, u.cur, a, R, n + ' (start)', '%s answers a token although the text at the cursor may not begin with its start' % n)
                begins(u, st, f(cap, 1), b, R, n + ' (end)', '%s answers a token although its content may not be followed by its end' % n)
                R.verdict(eqv(I, st, f(cap, 0), n_add(u.cur, I.veclen(a))), n + ': content', '%s: the content begins at %s' % (n, show(f(cap, 0))[:150]))
                R.verdict(eqv(I, st, f(mat, 1), n_add(f(cap, 1), I.veclen(b))), n + ': content end', '%s: the content ends at %s and the match at %s' % (n, show(f(cap, 1))[:150], show(f(mat, 1))[:150]))
            if kind == 'matches':
                regex(u, st, R, n, f(mat, 1))
                R.verdict(all3(eqv(I, st, f(cap, i), f(mat, i)) for i in (0, 1)), n + ': captured', '%s captures %s' % (n, show(cap)[:150]))
        elif case == 'Fail':
            fails(u, st, R, n, kind)
        elif case == 'Skip':
            R.verdict(kind == 'matches' and eqv(I, st, v.a[2][0].a[2][0], N(0)), n + ': skip', '%s %s' % (n, show_step(s)))
            if kind == 'matches':
                regex(u, st, R, n + ' (empty)', u.cur)
        elif case == 'Error':
            R.verdict(n == 'equals_fetch', n + ': error', '%s %s' % (n, show_step(s)))
        else:
            R.verdict(None if case is None else False, n + ': answer', '%s %s' % (n, show_step(s)))


def no_delimiter(u, s):
    """a sequence whose start or end is the empty text is refused by design"""
    return 'a' in u.args and any(u.I.decide(s.st, u.I.eq(u.I.veclen(u.args[x]), N(0))) for x in ('a', 'b'))


def phi_in(v):
    return opaque_in(v, ('phi',))


def variant_of(u, v):
    if v.t != 'adt':
        return None
    w = v.a[2][0]
    if w.t != 'adt':
        return None
    return (SN if v.a[1] == OK else FN)[w.a[1]]


def regex(u, st, R, n, end):
    """the match found at the cursor, ending there"""
    I = u.I
    found = [k for k, v in st.vars.items() if k.t == 'uf' and k.a[0] == 'regex::Regex::find' and v == 1]
    if not found:
        R.verdict(False if weaker(st) else None, n + ': text', '%s answers a match although the expression may not match at the cursor' % n)
        return
    k = found[0]
    w = text_of(u, k.a[1][1])
    a, b = ends_of(I, field(I, k, 1, 0))
    at = eqv(I, st, n_add(w[0], a), u.cur) if w else None
    R.verdict(False if w and at is None else at, n + ': at the cursor', '%s answers a match that may not begin at the cursor' % n)
    R.verdict(eqv(I, st, n_add(w[0], b), end) if w else None, n + ': width', '%s: the match ends at %s, its token at %s' % (n, show(n_add(w[0], b)) if w else '?', show(end)))
    R.verdict(k.a[1][0] is u.args['re'] or show(k.a[1][0]) == show(u.args['re']), n + ': expression', '%s searches for %s' % (n, show(k.a[1][0])[:100]))


def fails(u, st, R, n, kind):
    I = u.I
    if kind == 'equals' and n != 'equals_fetch':
        p = u.args['pat']
        if I.decide(st, I.eq(I.veclen(p), N(0))):
            return R.verdict(True, n + ': fails', '')
        hits = [(w, v) for w, q, v in prefixes(u, st) if q is p or show(q) == show(p)]
        no = [w for w, v in hits if not v and w and I.decide(st, I.eq(w[0], u.cur)) and eqv(I, st, w[1], u.end)]
        R.verdict(True if no else False if hits else None, n + ': fails', '%s fails although the text at the cursor may begin with the pattern' % n)
    if kind == 'matches':
        k = [(k, v) for k, v in st.vars.items() if k.t == 'uf' and k.a[0] == 'regex::Regex::find']
        if not k:
            return R.verdict(None, n + ': fails', '')
        k, v = k[0]
        w = text_of(u, k.a[1][1])
        if v == 0:
            good = w is not None and all3([eqv(I, st, w[0], u.cur), eqv(I, st, w[1], u.end)])
        else:
            a, _ = ends_of(I, field(I, k, 1, 0))
            e = I.decide(st, I.eq(n_add(w[0], a), u.cur)) if w else None
            good = None if e is None and w is None else e is False
        R.verdict(good, n + ': fails', '%s fails although the expression may match at the cursor' % n)
    if kind == 'sequence':
        a = u.args['a']
        hits = [(w, v) for w, q, v in prefixes(u, st) if (q is a or show(q) == show(a))]
        if any(not v and w and I.decide(st, I.eq(w[0], u.cur)) for w, v in hits):
            return R.verdict(True, n + ': fails', '')
        if I.decide(st, I.eq(I.veclen(a), N(0))):
            return R.verdict(True, n + ': fails', '')
        # it began: the search went on to the end of the window
        R.verdict(scanned(u, st, R), n + ': unterminated', '%s fails although its end may still come' % n)


def scanned(u, st, R):
    I = u.I
    for k in st.cons:
        # index >= end, with an index that is not the cursor
        if k.t == 'n' and any(x is not None for x, c in k.a[1] if c < 0 and mk('n', 0, ((x, 1),)) is u.end):
            if phi_in(k):
                return True
    return None
