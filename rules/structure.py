"""C34: the children a matcher reports, and what replacing or adding one does."""
from common import *

W = ['optional', 'not', 'discard', 'debug', 'expand_range', 'set_scope', 'catch', 'map', 'proxy']
L = ['program2', 'program3', 'program_named2', 'switch2', 'switch3', 'switch_named2', 'loop2', 'loop_named2', 'loop_range2',
     'loop_range_named2']
N_ = ['program_new', 'switch_new', 'loop_new', 'program_new_named', 'loop_new_named']
S = 'witness::structure::'
UNITS = [S + '%s::%s' % (w, f) for w in W for f in ('children', 'replaced', 'replaced_runs', 'outside')] + \
    [S + l + '::children' for l in L] + [S + '%s::%s' % (n, f) for n in N_ for f in ('children', 'added', 'replaced')] + \
    [S + n for n in ('pin_children', 'pin_named_children', 'store_children', 'register_children', 'proxy_named_children')]


def items(u, st, v):
    """(base, items) of Some(list), or None"""
    v = norm(u.I, st, v)
    if v.t != 'adt' or v.a[1] != 1:
        return None
    l = v.a[2][0]
    if l.t == 'vec':
        return l.a[0], l.a[1], l
    return l, (), l


def structure(u, R):
    I = u.I
    short_ = u.name.replace(S, '')
    what = short_.split('::')[-1]
    rets = [s for s in u.steps if s.kind == 'ret']
    a = u.args
    name = short_.replace('::', ' ').replace(' children', '')
    panics = [s for s in u.steps if s.kind == 'panic']
    if what == 'outside':
        R.verdict(not rets, name + ': index out of bounds', '%s: replacing a child that does not exist is accepted silently' % name)
        return
    if what == 'replaced_runs':
        for s in u.steps:
            if s.kind == 'exec':
                mid = u.pol.mid(I.deref_loc(s.st, a['d'])[0])
                R.verdict(s.ev.a[1] is mid or s.ev.a[1] is a['d'], name, '%s: after its child was replaced it runs %s' % (name, show(s.ev.a[1])))
        return
    if not rets:
        R.verdict(False, name, '%s never returns its children%s' % (name, ': ' + str(panics[0].info)[:100] if panics else ''))
        return
    for s in rets:
        x = items(u, s.st, s.val)
        if x is None:
            R.verdict(False, name, '%s: reports %s' % (name, show(s.val)[:120]))
            continue
        base, its, v = x
        if 'v' in a:
            if what == 'children':
                R.verdict(v is a['v'] or base is a['v'] and not its, name, '%s: reports %s' % (name, show(v)[:120]))
            elif what == 'added':
                R.verdict(base is a['v'] and its == (a['d'],), name, '%s: after add_pattern it reports %s' % (name, show(v)[:120]))
            else:
                n = I.veclen(a['v'])
                R.verdict(eqv(I, s.st, I.veclen(v), n), name + ': length', '%s: after set_child it has %s children' % (name, show(I.veclen(v))))
                R.verdict(eqv(I, s.st, I.elem(s.st, v, a['i']), a['d']), name + ': replaced', '%s: set_child leaves %s at that index' % (name, show(v)[:200]))
                j = atom_n(I.sym('j', ('int', 'usize')))
                t = s.st.copy()
                I.assume(t, I.eq(j, a['i']), False)
                I.assume(t, I.lt(j, n), True)
                R.verdict(eqv(I, t, I.elem(t, v, j), I.elem(t, a['v'], j)), name + ': others', '%s: set_child also changes another child: %s' % (name, show(v)[:200]))
            continue
        if what == 'replaced':
            want = (a['d'],)
        else:
            want = tuple(a[k] for k in sorted(a))
        R.verdict(base is None and its == want, name, '%s: reports %s instead of %s' % (name, show(v)[:200], ', '.join(show(w) for w in want)))
    for s in panics:
        if what == 'replaced' and 'v' in a:
            t = s.st.copy()
            R.verdict(I.decide(t, I.lt(a['i'], I.veclen(a['v']))) is not True, name + ': panics', '%s: replacing an existing child panics' % name)


class BuildPolicy(policy.MatcherPolicy):
    """building and changing a matcher loops over nothing that was handed in: its paths stay apart"""
    def merges(self, body):
        return False


mkpolicy = BuildPolicy
