"""Variables live in levels, and Fetch reads what it names (C36)."""
from common import *
import accessors

PRE = 'witness::scopes::'
LEVELS = [PRE + x for x in ('lookup', 'lookup_nothing', 'bind', 'bind_other', 'bind_nothing', 'rebind', 'level_removed', 'popped')]
FETCH = [PRE + 'fetch_' + x for x in ('captured_value', 'matched_value', 'start', 'end', 'captured_start', 'captured_end', 'range',
                                      'captured_range', 'string', 'matcher', 'plain_str', 'plain_string', 'plain_matcher')]


class ScopePolicy(accessors.AccessPolicy):
    """the number of levels is known: every pass over them is followed on its own"""
    def separate(self, body, bb, f=None):
        return True

    def merges(self, body):
        return False

    def keep_fact(self, k):
        return True


mkpolicy = ScopePolicy


def canon(u, st, v):
    """a value in one spelling: what is known about its variants is spelled out, borrowing left out"""
    known = {}
    for k, i in st.vars.items():
        known[show(k).replace('.*', '')] = (i, (u.I.vty(k) or ('', ''))[1].split('::')[-1])

    def spell(ty, i, inner):
        if ty == 'Option':
            return 'Some(%s)' % inner() if i else 'None'
        return '#%d(%s)' % (i, inner())

    def text(s, n=0):
        i, ty = known.get(s, (None, None))
        if i is None or n > 6:
            return s
        return spell(ty, i, lambda: text('%s.%d/0' % (s, i), n + 1))

    def walk(v):
        if v.t == 'vref':
            return walk(v.a[0])
        if v.t == 'ref':
            return walk(u.I.load(st, v))
        if v.t == 'adt' and v.a[0][0] == 'adt' and v.a[0][1].split('::')[-1] in ('Option', 'VariableType', 'FetchableType'):
            return spell(v.a[0][1].split('::')[-1], v.a[1], lambda: ','.join(walk(x) for x in v.a[2]))
        w = norm(u.I, st, v)
        if w is not v and w.t == 'adt':
            return walk(w)
        return text(show(w).replace('.*', ''))
    return walk(v)


def none(s):
    return s == 'None'


def parts(u, st, v):
    n = len(v.a[2]) if v.t == 'adt' else None
    if v.t == 'tup':
        return [canon(u, st, x) for x in v.a[-1]]
    if n is None:
        return [canon(u, st, u.I.project(st, v, ('f', i))) for i in range(8)]
    return [canon(u, st, x) for x in v.a[2]]


def same(a, b):
    """equal (True), different (False), or not told apart (None)"""
    if a == b or none(a) and none(b):
        return True
    if any(x in a + b for x in ('φ', 'next@', 'unk', 'collect', 'mapiter')):
        return None
    return False


def levels(u, R):
    n = short(u.name).split('::')[-1]
    for s in u.steps:
        if s.kind == 'panic':
            R.verdict(False if s.definite else None, n + ': panic', '%s panics: %s' % (n, s.info))
        if s.kind != 'ret':
            continue
        st, I = s.st, u.I

        def claim(what, a, b):
            R.verdict(same(a, b), '%s: %s' % (n, what), '%s: %s: found %s, expected %s' % (n, what, a, b))
        if n == 'lookup_nothing':
            claim('nothing is bound anywhere', canon(u, st, s.val), 'None')
            continue
        p = parts(u, st, s.val)
        given = lambda x: 'Some(%s)' % canon(u, st, u.args[x])
        if n == 'lookup':
            want = next((x for x in p[1:] if not none(x)), 'None')
            claim('the innermost level that binds the name', p[0], want)
        elif n == 'bind':
            claim('the new binding is found', p[0], given('v'))
            claim('the binding of this level that was replaced', p[1], p[2])
            claim('the level around it', p[4], p[3])
            claim('the outermost level', p[6], p[5])
        elif n == 'bind_other':
            equal = I.decide(st, mk('streq', *sorted((deref_name(u, st, 'name'), deref_name(u, st, 'other')))))
            if equal is not True:
                claim('bindings of other names', p[1], p[0])
            else:
                claim('the new binding is found', p[1], given('v'))
        elif n == 'bind_nothing':
            claim('the first binding', p[0], given('v'))
            claim('nothing was replaced', p[1], 'None')
        elif n == 'rebind':
            claim('the latest binding is found', p[0], given('w'))
            claim('the binding that was replaced', p[1], given('v'))
        elif n == 'level_removed':
            claim('the binding of an inner level', p[1], given('v'))
            claim('the binding before the inner level', p[0], p[2])
        elif n == 'popped':
            claim('the innermost level comes off first', p[0], given('b'))
            claim('then the one around it', p[1], given('a'))
            claim('then none', p[2], 'None')


def deref_name(u, st, x):
    r, p = u.I.deref_loc(st, u.args[x])
    return u.I.read(st, r, p)


def fetches(u, R):
    n = short(u.name).split('::')[-1]
    for s in u.steps:
        if s.kind == 'panic':
            R.verdict(False if s.definite and not opaque_in(*[k for k in s.st.facts]) else None, n + ': panic',
                      '%s panics for a variable that is bound: %s' % (n, s.info))
        if s.kind != 'ret':
            continue
        p = parts(u, s.st, s.val)
        want = '#%d(%s)' % (1 if n.endswith('matcher') else 0, p[1])
        ok = same(p[0], want)
        if ok is False and leaves(p[0]) == leaves(p[1]) and shape(p[0]) != shape(p[1]):
            ok = None           # the same parts, put together by other means
        R.verdict(ok, n + ': value', '%s: found %s, expected %s' % (n, p[0], want))


def leaves(s):
    import re
    return re.findall(r't(?:\.c)?\.tf/[a-z_]+(?:\.\d)?', s)


def shape(s):
    """how a text is put together: the functions used"""
    import re
    return sorted(re.findall(r'uf\(([a-z_.]+)', s))
