"""Walks over token trees: a function that calls itself for the children of a token reaches every one of them."""
from common import *

KIDS = ('tf', 'children')


def targets(prog, body, b):
    """the functions a block calls"""
    t = body.blocks[b] and body.blocks[b][1]
    if t and t[0] == 'call' and t[1][0] == 'k' and t[1][1].get('fn'):
        yield prog.ty(body.crate, t[1][1]['t'])[1]
        if t[5] if len(t) > 5 else None:
            yield t[5][0]


def root_of(key):
    return key.split('::{closure')[0]


def passed_through(key):
    """closures, and what the standard library does with them"""
    return '::{closure' in key or key.startswith('witness::reference::') or not key.startswith(('adextopa_core', 'witness'))


def mentions(x, keys):
    return isinstance(x, tuple) and (x[:1] == ('closure',) and x[1] in keys or any(mentions(y, keys) for y in x))


def cycles(prog):
    """the functions of the crate, with their closures, that call themselves, possibly by way of each other"""
    r = getattr(prog, '_cycles', None)
    if r is None:
        out = {}
        keys = [k for k in prog.bodies if k.startswith(('adextopa_core', '<adextopa_core'))]
        for k in keys:
            d = out.setdefault(k, set())
            for b in range(len(prog.bodies[k].blocks)):
                d.update(targets(prog, prog.bodies[k], b))
            if '::{closure' in k:
                out.setdefault(k.rsplit('::{closure', 1)[0], set()).add(k)
        r = set()
        for k in keys:
            seen, todo = set(), list(out[k])
            while todo:
                x = todo.pop()
                if x in seen or x not in out:
                    continue
                seen.add(x)
                todo += out[x]
            if k in seen:
                r.add(k)
        prog._cycles = r
    return r


class WalkPolicy(policy.MatcherPolicy):
    """typestate of a walk: the list being gone through, the element taken and not yet visited, lists done"""

    def __init__(self):
        super().__init__()
        self.own = {}
        self.walkers = {}

    def setup(self, I, st):
        super().setup(I, st)
        self.prog = I.p
        for g in ('pending', 'open', 'done', 'pushed', 'kept', 'elem'):
            st.ghost[g] = policy.NONE

    def walker(self, fr):
        """the function walking a tree at this point: it takes part in a cycle of calls"""
        while fr is not None:
            if fr.body.key in cycles(self.prog):
                return fr
            if not passed_through(fr.body.key):
                return None
            fr = fr.parent
        return None

    def descending(self, fr, bb):
        """is this point part of a loop, here or in the callers, that descends"""
        top = self.walker(fr)
        while top is not None and fr is not None and bb is not None:
            if any(bb in l and self.descends(fr, l) for l in fr.body.loops.values()):
                return True
            if fr is top or not passed_through(fr.body.key):
                break
            fr, bb = fr.parent, fr.bb
        return False

    def descends(self, fr, blocks):
        cyc = cycles(self.prog)
        if fr.body.key in cyc:
            return any(k in cyc for b in blocks for k in targets(self.prog, fr.body, b))
        # the loop of an iterator method: it descends when what it is given does
        return mentions(fr.env, cyc)

    def known(self, fr):
        while fr is not None:
            if fr.body.key in cycles(self.prog):
                self.walkers[root_of(fr.body.key)] = self.prog.bodies[root_of(fr.body.key)]
            elif not passed_through(fr.body.key):
                break
            fr = fr.parent

    def list_of(self, c, it):
        src = it.a[0]
        v = c.I.load(c.st, src) if src.t in ('ref', 'vref') else src
        if v.t == 'vec' and v.a[0] is not None and not v.a[1]:
            v = v.a[0]
        return v

    def owner(self, v):
        """the token whose children v is"""
        if v.t == 'sym' and v.a[1] and v.a[1][-1] == KIDS:
            return v
        return None

    def iterated(self, c, it, i):
        if not self.descending(c.fr, c.bb):
            return
        v = self.list_of(c, it)
        if self.owner(v) is None:
            return
        st, I = c.st, c.I
        self.known(c.fr)
        if st.ghost['pending'] is not policy.NONE:
            self.observe(I, 'w.left', st, c.fr, ev=mk('ev', 'left', st.ghost['pending']))
        if st.ghost['open'] is not v:
            first = I.decide(st, I.eq(i, N(0)))
            last = I.decide(st, I.eq(n_add(i, N(1)), I.veclen(v)))
            if not first and not last:
                self.observe(I, 'w.start', st, c.fr, ev=mk('ev', 'start', v, i))
        st.ghost['open'] = v
        st.ghost['pending'] = I.elem(st, v, i)

    def exhausted(self, c, it):
        if not self.descending(c.fr, c.bb):
            return
        v = self.list_of(c, it)
        if self.owner(v) is None:
            return
        st, I = c.st, c.I
        if st.ghost['pending'] is not policy.NONE:
            self.observe(I, 'w.left', st, c.fr, ev=mk('ev', 'left', st.ghost['pending']))
            st.ghost['pending'] = policy.NONE
        st.ghost['done'] = v
        st.ghost['open'] = policy.NONE

    def recursive(self, I, c):
        st = c.st
        if self.walker(c.fr) is not None:
            self.known(c.fr)
            ev = mk('ev', 'rec', tuple(c.args))
            self.observe(I, 'rec', st, c.fr, ev=ev)
            if st.ghost['pending'] in c.args:
                st.ghost['pending'] = policy.NONE
            if c.ret == ('tuple', ()):
                return super().recursive(I, c)
            args = tuple(c.args)
            r, (args,) = I.fresh(st, 'rec', c.ret, (args,))
            self.event(I, st, mk('ev', 'rec', args, r))
            return [(st, r)]
        return super().recursive(I, c)

    def vec_push(self, c, r, p, v):
        if p and p[-1] == KIDS:
            c.st.ghost['pushed'] = mk('tup', (mk('ref', r, p), v))

    def retaining(self, c, st, e):
        st.ghost['elem'] = e

    def retained(self, c, st, r, p, e, kept):
        if p and p[-1] == KIDS:
            self.observe(c.I, 'w.retain', st, c.fr, ev=mk('ev', 'retain', mk('ref', r, p), e, mk('b', kept)))
            st.ghost['kept'] = mk('ref', r, p)
        st.ghost['elem'] = policy.NONE


mkpolicy = WalkPolicy


def walkers(u):
    return sorted(u.pol.walkers)


def sub(u, key):
    """the walking function itself, for any arguments"""
    import unit
    return unit.run_unit(u.I.p, key, 0, mkpolicy=WalkPolicy, budget=60)


def tokens(w):
    """names of the arguments that are tokens"""
    return [n for n, a in w.args.items() if w.I.vty(a) == w.I.token_ref_ty()]


def kids(w, st, a):
    r = w.I.deref_loc(st, a)[0]
    return w.I.read(st, r, ('c', '*', KIDS)), r


def complete(w, R, who, errs=False):
    """every return has gone through all children of the walked token; returns that token's argument name"""
    I = w.I
    left = [s for s in w.steps if s.kind in ('w.left', 'w.start')]
    R.verdict(not left, who + ': every child is visited', '%s: a child of the token is passed over: %s' % (who, show(left[0].ev)[:150] if left else ''))
    lists = {s.ev.a[1][0]: 1 for s in ()}
    name = None
    for s in w.steps:
        if s.kind == 'rec':
            for n in tokens(w):
                for x in s.ev.a[1]:
                    if x.t == 'sym' and x.a[0] is w.args[n].a[0] or x.t == 'sym' and x.a[0] == w.args[n].a[0]:
                        if x.a[1] and x is not w.args[n]:
                            name = n
    if name is None:
        R.unsure(who + ': which token it walks')
        return None
    for s in w.steps:
        if s.kind != 'ret':
            continue
        if errs:
            v = norm(I, s.st, s.val)
            if v.t == 'adt' and v.a[1] == ERR or v.t in ('sym', 'phi') and s.st.vars.get(v) != OK:
                if v.t == 'sym' and v is evr(s.prev) or v.t == 'adt':
                    continue
        d = s.st.ghost['done']
        tok = w.args[name]
        good = d.t == 'sym' and d.a[0] == tok.a[0] and s.st.ghost['pending'] is policy.NONE and s.st.ghost['open'] is policy.NONE
        if not good and w.I.undecided:
            good = None
        R.verdict(good, who + ': goes through all children', '%s: returns without having gone through all children of the token (%s)' % (who, show(d)[:80]))
    return name


def error_walk(u, R, who):
    """a walk that copies every token flagged as an error into the children of another one"""
    for key in walkers(u):
        try:
            w = sub(u, key)
        except KeyError:
            continue
        toks = tokens(w)
        if len(toks) != 2:
            continue
        R.count('walks')
        R.functions.append(key)
        name = complete(w, R, who)
        if name is None:
            continue
        I = w.I
        other = [t for t in toks if t != name][0]
        tok = w.args[name]
        for s in w.steps:
            if s.kind != 'ret':
                continue
            r = I.deref_loc(s.st, tok)[0]
            fl = I.read(s.st, r, ('c', '*', ('tf', 'flags')))
            f = I.decide(s.st, I.flagtest(fl, 2))
            p = s.st.ghost['pushed']
            dest = I.deref_loc(s.st, w.args[other])[0]
            did = p.t == 'tup' and p.a[0][1] is tok and p.a[0][0].a[0] is dest
            R.verdict(f is not None and did == f, who + ': an error is kept',
                      '%s: a token that %s flagged as an error is %s' % (who, 'is' if f else 'may be' if f is None else 'is not', 'kept' if did else 'left out'))
