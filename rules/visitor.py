"""Walking a token tree with handlers (C22)."""
from common import *
import walk

PRE = 'witness::visit::'
UNITS = [PRE + x for x in ('named_and_default', 'default_first', 'named', 'default', 'two', 'none', 'by_macro')]


class VisitPolicy(walk.WalkPolicy):
    def merges(self, body):
        return not body.key.startswith(('adextopa_core', 'witness')) or self.prog.ty(body.crate, body.locals[0])[0] in ('int', 'bool')

    def keep_fact(self, k):
        return True

    def separate(self, body, bb, f=None):
        """loops over the handlers, whose number is known, are unrolled"""
        if not body.key.startswith(('adextopa_core', 'witness')):
            return False
        return not self.descending(f, bb)


mkpolicy = VisitPolicy

def handlers(u, st):
    """(name, handler) in the order they were added"""
    I, n = u.I, short(u.name).split('::')[-1]

    def text(a):
        r, p = I.deref_loc(st, u.args[a])
        return I.read(st, r, p)
    star = mk('str', '*')
    f, g = u.args.get('f'), u.args.get('g')
    return {'named_and_default': lambda: [(text('name'), f), (star, g)],
            'default_first': lambda: [(star, g), (text('name'), f)],
            'named': lambda: [(text('name'), f)],
            'default': lambda: [(star, g)],
            'two': lambda: [(text('name'), f), (text('other'), g)],
            'none': lambda: [],
            'by_macro': lambda: [(mk('str', 'Name'), f), (star, g)]}[n]()


def expected(u, st):
    """the handler due for the token and the default one: an argument, '' for none, None when the path does not tell"""
    I = u.I
    name = tok_field(u, st, u.args['t'], 'name')
    hs = handlers(u, st)

    def first(t):
        for n, h in hs:
            d = True if n is t else I.decide(st, mk('streq', *sorted((n, t)))) if not (n.t == t.t == 'str') else False
            if d:
                return h
            if d is None:
                return None
        return ''
    own, default = first(name), first(mk('str', '*'))
    return own if own != '' else default, default


def visits(u, R):
    I, who = u.I, short(u.name)
    t = u.args['t']
    for s in u.steps:
        if s.kind in ('w.left', 'w.start'):
            continue
        if s.kind == 'panic':
            if s.definite:
                R.verdict(False, who + ': panics', '%s: the walk panics: %s' % (who, s.info))
            continue
        st = s.st
        due, default = expected(u, st)
        due_txt = 'none' if due == '' else show(due) if due is not None else '?'
        first = s.prev is policy.NONE
        a = norm(I, st, evr(s.prev)) if not first and (is_ev(s.prev, 'cb') or is_ev(s.prev, 'rec')) else None
        # an answer nothing on this path looked at may be an error
        failed = None if a is None else a.a[1] == ERR if a.t == 'adt' else True if a.t in ('sym', 'phi') else None
        if s.kind == 'cb':
            R.count('handler calls')
            R.verdict(first, who + ': once, before the children', '%s: a handler is called after %s' % (who, show(s.prev)[:120]))
            fid = s.ev.a[1]
            R.verdict(None if due is None else fid is due, who + ': the right handler', '%s: the handler called is %s, due is %s' % (who, show(fid)[:60], due_txt))
            R.verdict(any(x is t or deref(u, st, x) is deref(u, st, t) for x in s.ev.a[2]), who + ': with the token', '%s: the handler is given %s' % (who, show(s.ev.a[2])[:100]))
        elif s.kind == 'rec':
            R.count('descents')
            if first:
                R.verdict(None if due is None else due == '', who + ': no handler called', '%s: goes on to the children without calling handler %s' % (who, due_txt))
            else:
                R.verdict(None if failed is None else not failed, who + ': goes on after an error', '%s: goes on after %s answered an error' % (who, show(s.prev)[:100]))
            for x in s.ev.a[1]:
                x = norm(I, st, x)
                if x.t == 'adt' and x.a[0][1] == 'core::option::Option' and default is not None:
                    if x.a[1] == 0:
                        good = default == ''
                    else:
                        good = default != '' and holds(u, st, x.a[2][0], default)
                    R.verdict(good, who + ': default handler of the children', '%s: the children are walked with the default handler %s' % (who, show(x)[:100]))
        elif s.kind == 'ret':
            v = norm(I, st, s.val)
            if v.t != 'adt':
                R.unsure(who + ': result')
                continue
            if first:
                R.verdict(None if due is None else due == '', who + ': no handler called', '%s: returns without calling handler %s' % (who, due_txt))
                R.verdict(v.a[1] == OK, who + ': result', '%s: returns %s' % (who, show(v)[:100]))
            elif v.a[1] == ERR:
                R.verdict(eqv(I, st, v, a) if a is not None else None, who + ': result', '%s: after %s it returns %s' % (who, show(s.prev)[:100], show(v)[:100]))
            else:
                R.verdict(None if failed is None else not failed, who + ': the error is the result', '%s: returns Ok although %s answered an error' % (who, show(s.prev)[:100]))
    walk.complete(u, R, who, errs=True)


def holds(u, st, v, want):
    """does this shared cell hold that handler"""
    root = deref(u, st, v)
    x = u.I.read(st, root, ())
    seen = [x]
    while seen:
        y = seen.pop()
        if y is want:
            return True
        if isinstance(y, tuple):
            seen += list(y)
        elif isinstance(y, V):
            if y.t in ('rc', 'ref'):
                z = u.I.read(st, y.a[0], y.a[1] if y.t == 'ref' else ())
                if z is not y:
                    seen.append(z)
            else:
                seen += list(y.a)
    return False
