"""How often a Loop repeats (C09), and that it makes progress (C10)."""
from common import *
from compose import split, Shape, variant, own_program_token, all3


EXEC = 'adextopa_core::matcher::Matcher::exec'
USIZE = ('int', 'usize')


class LoopPolicy(policy.MatcherPolicy):
    """counts, as part of the abstract state, how often the first child was executed and where the
    current iteration began"""

    def setup(self, I, st):
        super().setup(I, st)
        self.prog, self.peeled = I.p, {}
        st.ghost['iters'] = N(0)
        st.ghost['istart'] = N(2 ** 64 - 1)
        st.ghost['!iters'] = mk('k', 0)
        st.ghost['!few'] = mk('k', '')

    def first(self, I, st, mid):
        if mid.t == 'sym' and not mid.a[1]:
            return True             # the only child
        if mid.t == 'sym' and mid.a[1] and isinstance(mid.a[1][-1], tuple) and mid.a[1][-1][0] == 'el':
            i = mid.a[1][-1][1]
            return I.decide(st, I.eq(i if isinstance(i, V) else N(i), N(0)))
        return None

    def at_head(self, I, st, f, bb):
        super().at_head(I, st, f, bb)
        if self.peel(f.body):
            d = I.decide(st, I.lt(st.ghost['iters'], self.lower(I)))
            st.ghost['!few'] = mk('k', str(d))

    def lower(self, I):
        return limits(I, self.uargs)[0]

    def pre_exec(self, I, c, ev):
        st = c.st
        f = self.first(I, st, ev.a[1])
        if f:
            st.ghost['iters'] = n_add(st.ghost['iters'], N(1))
            st.ghost['istart'] = ev.a[5]
            k = const_of(st.ghost['iters'])
            st.ghost['!iters'] = mk('k', k if k is not None and k <= 2 else 'many')
        elif f is None:
            st.ghost['!iters'] = mk('k', 'many')
            st.ghost['iters'] = atom_n(I.unk(USIZE, 'iters'))
            st.ghost['istart'] = atom_n(I.unk(USIZE, 'istart'))

    def peel(self, body):
        """keep the first passes apart in loops that execute children"""
        k = self.peeled.get(body.key)
        if k is None:
            k = 0
            for bl in body.blocks if body.key.startswith('adextopa_core::') else ():
                t = bl and bl[1]
                if t and t[0] == 'call' and t[1][0] == 'k' and t[1][1].get('fn'):
                    ty = self.prog.ty(body.crate, t[1][1]['t'])
                    if ty[1] == EXEC:
                        k = 2
            self.peeled[body.key] = k
        return k

    def relational(self, d):
        return super().relational(d) or any({'r', 'lo', 'hi', 'above'} & set(x.roots) for x, _ in d.a[1])

    def merges(self, body):
        # building the Loop: what the range of it is made of stays apart
        ty = str(self.prog.ty(body.crate, body.locals[0]))
        return 'ops::range::Range' not in ty and not ('matcher::Matcher' in ty and 'MatcherSuccess' not in ty)

    def distinct(self, J, s, d, ph):
        return True

    def stale(self, k):
        """how where the cursor is now relates to where this iteration began is still of interest"""
        return super().stale(k) and not (k.t == 'eq0' and ('r', 0) in k.roots)


mkpolicy = LoopPolicy
UNITS = ['looping_one', 'looping_from', 'looping_inclusive', 'looping_upto', 'looping_beyond', 'looping_macro']


def limits(I, args):
    """the bounds asked for, whichever way: a range, or its ends"""
    if 'r' in args:
        return I.project(None, args['r'], ('f', 0)), I.project(None, args['r'], ('f', 1))
    if 'above' in args:
        return n_add(args['above'], N(1)), args['hi']
    lo, hi = args.get('lo', N(0)), args.get('hi', N(2 ** 64 - 1))
    return lo, hi


def span(u):
    return limits(u.I, u.args)


def bounds(u, R):
    """C09"""
    I = u.I

    lo, hi = span(u)
    for s in u.steps:
        n = s.st.ghost['iters']
        if s.kind == 'exec':
            f = u.pol.first(I, s.st, s.ev.a[1])
            if f is False:
                continue
            if f is None:
                R.unsure('loop: which child')
                continue
            R.verdict(decided(I, s.st, I.le(n_add(n, N(1)), hi)), 'loop: upper bound',
                      'the children of a Loop are executed an (n+1)th time where n is not below the upper bound: n = %s' % show(n))
        if s.kind == 'ret' and is_ev(s.prev, 'exec'):
            for case, ans, st in answers(u, s, R):
                base = case.split('(')[0]
                if base in ('Error', 'Break', 'Stop', 'Continue'):
                    continue
                a, b = variant(u, st, s.val)
                if a is None:
                    R.unsure('loop on %s: answer' % base)
                    continue
                done = n_add(n, N(-1)) if base == 'Fail' else n
                if a == OK:
                    R.verdict(decided(I, st, I.le(lo, done)), 'loop on %s: lower bound' % base,
                              'a Loop succeeds after %s complete iterations although its lower bound is higher (%s)' % (show(done), show_step(s)))


def decided(I, st, cond):
    d = I.decide(st, cond)
    if d is None and not opaque_in(cond) and not any(merged(k) for k in st.cons):
        return False
    return d


def merged(v):
    """does it speak of what a function returned on several paths"""
    if isinstance(v, V):
        return v.t == 'phi' and 'ret' in str(v.a[0]) or any(merged(x) for x in v.a if isinstance(x, (V, tuple)))
    return isinstance(v, tuple) and any(merged(x) for x in v)


def progress(u, R):
    """C10"""
    I = u.I
    lo, hi = span(u)
    for s in u.steps:
        if s.kind != 'exec' or not is_ev(s.prev, 'exec'):
            continue
        f = u.pol.first(I, s.st, s.ev.a[1])
        if f is False:
            continue
        if f is None:
            R.unsure('loop: which child')
            continue
        start, cur = s.st.ghost['istart'], s.ev.a[5]
        # execs of the first child are counted including this one only after it: iters = completed iterations
        for case, ans, st in answers(u, s, R):
            base = case.split('(')[0]
            if base in ('Break', 'Stop', 'Error', 'Fail'):
                continue
            moved, few = I.decide(st, I.eq(cur, start)), I.decide(st, I.lt(st.ghost['iters'], lo))
            if moved is False or few is True:
                good = True
            elif moved is True and few is False:
                good = False
            elif few is not True and not opaque_in((cur, start, lo, st.ghost['iters'])):
                # nothing on this path rules out that the iteration consumed nothing
                still, _ = split(u, st, I.eq(cur, start))
                if still is not None:
                    _, enough = split(u, still, I.lt(st.ghost['iters'], lo))
                    still = enough
                good = still is None
            else:
                good = None
            R.verdict(good, 'loop on %s: progress' % base,
                      'a Loop starts another iteration at %s, where the previous one began, after enough iterations (last child answered %s)'
                      % (show(cur), case))
