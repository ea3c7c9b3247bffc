"""C19: error tokens are marked, carry their message, and are never lost."""
from common import *
import names
import walk
from interp import BOOL

API = 'witness::api::'
REPORTS = ['error', 'assert_if', 'assert_if_not', 'fatal_if', 'fatal_if_not', 'panic', API + 'error_token', API + 'error_token_range',
           API + 'error_matcher', API + 'panic_matcher']
TK = ('Token', 'ProxyChildren')


class ErrorPolicy(walk.WalkPolicy):
    def merges(self, body):
        return not body.key.startswith(('adextopa_core', 'witness')) or self.prog.ty(body.crate, body.locals[0])[0] in ('tuple', 'int', 'bool')

    def keep_fact(self, k):
        return True


mkpolicy = ErrorPolicy


def says(u, v):
    """does this text carry the message given"""
    m = u.args.get('msg')
    return (show(m) if m is not None else "'message'") in show(v)


def reports(u, R):
    I, n = u.I, short(u.name).split('::')[-1]
    kind = {'assert_if': TK, 'assert_if_not': ('Fail',), 'fatal_if': TK, 'fatal_if_not': ('Fail',)}.get(n)
    for s in u.steps:
        if s.kind == 'panic' and s.definite:
            R.verdict(False, n + ': panics', '%s panics: %s' % (n, s.info))
        if s.kind != 'ret':
            continue
        cases = [(None, None, s.st)]
        if is_ev(s.prev, 'exec'):
            cases = list(answers(u, s, R))
        for case, ans, st in cases:
            v = norm(I, st, s.val)
            due = kind is None or case in kind
            what = n if kind is None else '%s on %s' % (n, case)
            msg = '%s %s' % (what, show_step(s))
            fatal = 'fatal' in n or 'panic' in n
            t = names.own(u, st, v)
            e = v.a[2][0] if v.t == 'adt' and v.a[1] == ERR else None
            if t is not None:
                R.verdict(not fatal and due, what + ': answers', msg)
                marked(u, st, t, R, what, ans)
            elif e is not None and e.t == 'adt' and e.a[1] == ERROR and (ans is None or not eqv(I, st, s.val, ans.r)):
                R.verdict(fatal and due, what + ': answers', msg)
                p = e.a[2][0]
                R.verdict(says(u, p), what + ': message', '%s: its message is %s' % (what, show(p)[:150]))
                rng = [x for x in (p.a[2] if p.t == 'adt' else ()) if x.t == 'adt' and x.a[0][1] == 'core::option::Option']
                R.verdict(bool(rng) and rng[0].a[1] == 1 if p.t == 'adt' else None, what + ': range', '%s: its error has no range' % what)
                if rng and rng[0].a[1] == 1 and n == 'fatal_if':
                    R.verdict(eqv(I, st, rng[0].a[2][0], tok_field(u, st, ans.tok[TOKEN if 'Token' in what else PROXY], 'matched')), what + ': range', '%s: reports %s' % (what, show(rng[0])[:120]))
                if rng and rng[0].a[1] == 1 and n == 'fatal_if_not':
                    R.verdict(eqv(I, st, I.project(st, rng[0].a[2][0], ('f', 0)), u.cur), what + ': range', '%s: reports %s' % (what, show(rng[0])[:120]))
            elif due:
                R.verdict(False, what + ': says nothing', '%s reports no error: %s' % (what, msg))
            else:
                good = eqv(I, st, s.val, skip0()) if case in TK + ('Fail',) else eqv(I, st, s.val, ans.r)
                R.verdict(good, what, msg)


def marked(u, st, t, R, what, ans):
    I, n = u.I, what.split(' ')[0]
    f = tok_field(u, st, t, 'flags')
    R.verdict(I.decide(st, I.flagtest(f, 2)), what + ': flagged', '%s: the token it answers is not flagged as an error' % what)
    a, m = tok_field(u, st, t, 'attrs'), None
    while a.t == 'mapset' and m is None:
        if show(a.a[1]) == "'__message'":
            m = a.a[2]
        a = a.a[0]
    if m is None and a.t == 'map':
        for k, x in a.a[0]:
            if show(k) == "'__message'":
                m = x
    R.verdict(m is not None and says(u, m) if a.t in ('map', 'mapset') or m is not None else None, what + ': message',
              '%s: its message is %s' % (what, show(m)[:150] if m is not None else 'missing'))
    want = None
    if n == 'assert_if':
        want = tok_field(u, st, ans.tok[TOKEN if 'Token' in what else PROXY], 'matched')
    elif n == 'error_token_range':
        want = u.args['range']
    for g in ('captured', 'matched'):
        r = tok_field(u, st, t, g)
        p = lambda v, i: I.project(st, v, ('f', i))
        ok_ = all3(eqv(I, st, p(r, i), p(want, i) if want is not None else u.cur) for i in (0, 1))
        R.verdict(ok_, '%s: %s range' % (what, g), '%s: its %s range is %s' % (what, g, show(r)[:120]))


def collects(u, R):
    """after tokenizing, the errors are where the caller looks for them"""
    I, who = u.I, 'collecting the errors'
    for s in u.steps:
        if s.kind == 'panic' and s.definite:
            R.verdict(False, 'tokenize: panics', 'tokenize panics: %s' % (s.info,))
        if s.kind == 'ret' and is_ev(s.prev, 'exec'):
            for case, ans, st in answers(u, s, R):
                v = norm(I, st, s.val)
                if case in ('Token', 'ProxyChildren'):
                    R.verdict(eqv(I, st, v, ok_token(u, v, ans.tok[TOKEN if case == 'Token' else PROXY])), 'tokenize on ' + case, 'tokenize on %s %s' % (case, show_step(s)))
                elif case in ('Fail', 'Error'):
                    R.verdict(v.t == 'adt' and v.a[1] == ERR and eqv(I, st, v.a[2][0], ans.err), 'tokenize on ' + case, 'tokenize on %s %s' % (case, show_step(s)))
                if v.t == 'adt' and v.a[1] == OK and case in ('Token', 'ProxyChildren'):
                    d = st.ghost['done']
                    tok = ans.tok[TOKEN if case == 'Token' else PROXY]
                    kids = tok_field(u, st, tok, 'children')
                    w = [k for k in walk.walkers(u)]
                    R.verdict(None if not w else d.t == 'sym' and d.a[0] == tok.a[0] or None, 'tokenize on %s: collects' % case, 'tokenize on %s returns without collecting the errors' % case)
    if not walk.walkers(u):
        R.unsure(who + ': no walk found')
    for key in walk.walkers(u):
        import unit
        w = unit.run_unit(I.p, key, 0, mkpolicy=ErrorPolicy, budget=60)
        J = w.I
        R.count('walks')
        R.functions.append(key)
        name = walk.complete(w, R, who)
        if name is None:
            continue
        toks = [t for t in walk.tokens(w) if t != name]
        flt = False
        for s in w.steps:
            if s.kind == 'panic' and s.definite:
                R.verdict(False, who + ': panics', '%s panics: %s' % (who, s.info))
            if s.kind == 'w.retain':
                flt = True
                e, kept = s.ev.a[2], s.ev.a[3] is TRUE
                f = J.decide(s.st, J.flagtest(tok_field(w, s.st, e, 'flags'), 2))
                R.verdict(None if f is None else kept != f, who + ': takes out the errors',
                          '%s: a child that %s an error %s' % (who, 'is' if f else 'is not', 'stays where it is' if kept else 'is taken out'))
                if not kept and toks:
                    p = s.st.ghost['pushed']
                    dest = J.deref_loc(s.st, w.args[toks[0]])[0]
                    R.verdict(p.t == 'tup' and p.a[0][1] is e and p.a[0][0].a[0] is dest, who + ': keeps them',
                              '%s: a child that is taken out is not added to the root' % who)
        if not flt and w.steps:
            moved = any(s.st.ghost['pushed'] is not policy.NONE for s in w.steps)
            R.verdict(None if moved else False, who + ': moves them', '%s: the walk adds no token to the children of any other' % who)
        flags = [a for n, a in w.args.items() if J.vty(a) == BOOL]
        for s in w.steps:
            if s.kind != 'ret' or not flt:
                continue
            if any(J.decide(s.st, a) is not False for a in flags):
                continue                # the root keeps its own errors
            kids = tok_field(w, s.st, w.args[name], 'children')
            k = s.st.ghost['kept']
            none = J.decide(s.st, J.eq(J.veclen(kids), N(0)))
            R.verdict(True if k is not policy.NONE or none else none, who + ': of every token',
                      '%s: returns without having looked for errors among the children of a token that may have some' % who)


def ok_token(u, v, t):
    return mk('adt', v.a[0] if v.t == 'adt' else policy.RESULT, OK, (t,))
