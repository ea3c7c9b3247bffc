"""C35: a matcher is called what it was named, and so are its tokens."""
from common import *
import compose
from structure import W, S
import answers as tables

NM = ['equals_named', 'matches_named', 'sequence_named', 'program_named', 'switch_named', 'loop_named', 'loop_range_named',
      'program_new_named', 'loop_new_named', 'pin_named', 'pin_empty_named', 'proxy_named', 'reference_named']
P_ = 'witness::names::'
UNITS = [P_ + '%s::%s' % (n, f) for n in NM for f in ('given', 'renamed')]
PASSES = [S + w + '::renamed' for w in W if w != 'proxy']
TOKENS = {'equals': 'Equals', 'equals_named': 'Named', 'equals_fetch': 'Equals', 'matches': 'Matches', 'matches_named': 'Named',
          'sequence': 'Sequence', 'sequence_named': 'Named', 'pin_none': 'Pin', 'pin_none_named': 'Named', 'error': 'Error',
          'program_macro': 'Program', 'program_macro_named': 'Named', 'program_named': 'name', 'looping_one': 'Loop',
          'looping_one_named': 'name', 'program_one': 'Program'}


def names(u, R):
    I = u.I
    if u.name.startswith(P_):
        what = u.name.replace(P_, '').replace('::', ' ')
        want = u.args['n'] if what.endswith('renamed') else mk('str', 'Named')
        for s in u.steps:
            if s.kind == 'ret':
                R.verdict(s.val is want or eqv(I, s.st, s.val, want), what, '%s: the matcher is called %s instead of %s' % (what, show(s.val)[:80], show(want)))
        return
    what = u.name.replace(S, '').replace('::', ' ')
    n = 0
    for s in u.steps:
        if s.kind == 'm.set_name':
            n += 1
            good = s.ev.a[1] is u.pol.mid(I.deref_loc(s.st, u.args['c'])[0]) and same_text(I, s.st, s.ev.a[2][0], u.args['n'])
            R.verdict(good, what, '%s: names %s %s' % (what, show(s.ev.a[1]), show(s.ev.a[2])[:80]))
        if s.kind == 'ret':
            R.verdict(is_ev(s.prev, 'm.set_name'), what + ': handed on', '%s: giving it a name does not name what it wraps' % what)


def same_text(I, st, a, b):
    if a.t in ('ref', 'vref'):
        a = I.load(st, a)
    return a is b or show(a) == show(b)


def own(u, st, v):
    """the new token answered, or None"""
    v = norm(u.I, st, v)
    if v.t != 'adt' or v.a[1] != OK:
        return None
    x = norm(u.I, st, v.a[2][0])
    if x.t == 'adt' and x.a[1] in (BREAK, CONTINUE):
        x = norm(u.I, st, u.I.project(st, u.I.project(st, x.a[2][0], ('f', 1)), '*'))
    if x.t != 'adt' or x.a[1] != TOKEN:
        return None
    r = deref(u, st, x.a[2][0])
    return x.a[2][0] if r.t == 'H' and r.a[0] == 'new' else None


def tokens(u, R):
    I, n = u.I, short(u.name).split('::')[-1]
    want = TOKENS[n]
    want = u.args['name'] if want == 'name' else mk('str', want)
    for s in u.steps:
        if s.kind != 'ret':
            continue
        t = own(u, s.st, s.val)
        if t is None:
            continue
        nm = tok_field(u, s.st, t, 'name')
        R.verdict(nm is want or eqv(I, s.st, nm, want), n + ': name of its token', 'the token of %s is called %s instead of %s' % (n, show(nm)[:80], show(want)))


mkpolicy = policy.MatcherPolicy
