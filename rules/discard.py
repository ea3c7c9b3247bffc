"""Discard (C05): what it makes of tokens, and that collecting the errors leaves no token unvisited."""
from common import *
from answers import all_cases
import walk

mkpolicy = walk.WalkPolicy


def discards(u, R):
    I, name = u.I, 'discard'
    seen = set()
    for s in after(u):
        if s.kind in ('set', 'rec') or s.kind.startswith('w.'):
            continue
        for case, ans, st in answers(u, s, R):
            base = case.split('(')[0]
            if s.kind == 'panic':
                if s.definite:
                    R.verdict(False, 'Discard on %s: panics' % case, 'Discard: when its child answers %s it %s (in %s)' % (case, show_step(s), s.fn))
                continue
            if s.kind != 'ret':
                R.verdict(False, 'Discard on %s: goes on' % case, 'Discard: when its child answers %s it %s' % (case, show_step(s)))
                continue
            seen.add(case)
            v = norm(I, st, s.val)
            inner = case[case.index('(') + 1:-1] if '(' in case else None
            if base in ('Token', 'ProxyChildren'):
                tok = ans.tok[TOKEN if base == 'Token' else PROXY]
                good = v.t == 'adt' and v.a[1] == OK and skipped(u, st, norm(I, st, v.a[2][0]), tok)
            elif inner in ('Token', 'ProxyChildren'):
                k = BREAK if base == 'Break' else CONTINUE
                tok = field(I, ans.pay[k], TOKEN if inner == 'Token' else PROXY, 0)
                good = v.t == 'adt' and v.a[1] == OK
                if good:
                    w = norm(I, st, v.a[2][0])
                    good = w.t == 'adt' and w.a[1] == k
                    if good:
                        lab = I.project(st, w.a[2][0], ('f', 0))
                        pay = norm(I, st, I.project(st, I.project(st, w.a[2][0], ('f', 1)), '*'))
                        good = all3([lab is ans.label[k] or eqv(I, st, lab, ans.label[k]), skipped(u, st, pay, tok)])
            else:
                good = eqv(I, st, s.val, evr(s.prev))
            R.verdict(good, 'Discard on %s' % case, 'Discard: when its child answers %s it %s' % (case, show_step(s)))
    for case in all_cases():
        if case not in seen and not R.violations:
            R.unsure('Discard: no outcome seen for %s' % case)
    walk.error_walk(u, R, 'Discard collecting errors')


def skipped(u, st, x, tok):
    """is x the discarded form of tok: a skip to its end, or a token that holds the errors found"""
    I = u.I
    if x.t != 'adt':
        return None
    if x.a[1] == SKIP:
        end = I.project(st, tok_field(u, st, tok, 'matched'), ('f', 1))
        return eqv(I, st, x.a[2][0], n_sub(end, u.cur))
    if x.a[1] != TOKEN:
        return False
    t = x.a[2][0]
    root = deref(u, st, t)
    if not (root.t == 'H' and root.a[0] == 'new'):
        return False if root is deref(u, st, tok) else None
    kids = tok_field(u, st, t, 'children')
    return I.decide(st, I.lt(N(0), I.veclen(kids)))
