"""What Program and Loop collect (C20), the range of what they collected (C21), where they go on (C08).

Each run fixes what the children answer, one after the other, and nothing else: tokens, ranges, texts and
nested lists stay opaque.  Passes of loops are kept apart, so that within such a history the lists and
ranges are exact."""
from common import *
import names
from interp import BOOL

RESULTS = (OK, ERR)
MAX = 2 ** 64 - 1

# what a child answers
#  T a token        E0 an error token without width   E1 an error token with width   D a discarded token
#  N a token of a child that does not consume          P0 P1 P2 proxied children      S a skip
#  BT CT BP BS Break/Continue carrying a token, proxied children, a skip              F fails      O nothing
KIND = {'T': TOKEN, 'E0': TOKEN, 'E1': TOKEN, 'D': TOKEN, 'N': TOKEN, 'P0': PROXY, 'P1': PROXY, 'P2': PROXY, 'S': SKIP, 'O': NONE_}


class CollectPolicy(policy.MatcherPolicy):
    def __init__(self, seq, apart=True):
        super().__init__()
        self.seq, self.apart, self.heads = seq, apart, 0

    def setup(self, I, st):
        super().setup(I, st)
        self.prog = I.p
        st.ghost['hist'] = mk('tup', ())
        st.ghost['!n'] = mk('k', 0)
        st.ghost['starts'] = mk('tup', ())

    def stale(self, k):
        return False

    def keep_fact(self, k):
        return True

    def merges(self, body):
        return not body.key.startswith('adextopa_core') or self.prog.ty(body.crate, body.locals[0])[0] in ('int', 'bool')

    def at_head(self, I, st, f, bb):
        if self.separate(f.body, bb):
            self.heads += 1
            st.ghost['!head'] = mk('k', self.heads)

    def peel(self, body):
        return 0 if self.apart or not body.key.startswith('adextopa_core') else 3

    def distinct(self, J, s, d, ph):
        return True

    def separate(self, body, bb, f=None):
        """histories end, so their paths need not meet"""
        return self.apart and body.key.startswith('adextopa_core')

    def child_exec(self, I, c, mid):
        n = c.st.ghost['!n'].a[0]
        if n >= len(self.seq):
            return []
        return super().child_exec(I, c, mid)

    def joinpoint(self, c):
        pass

    def post_exec(self, I, c, st, ev):
        n = st.ghost['!n'].a[0]
        code = self.seq[n]
        st.ghost['!n'] = mk('k', n + 1)
        st.ghost['hist'] = mk('tup', st.ghost['hist'].a[0] + (mk('tup', (evr(ev), ev.a[1], ev.a[5])),))
        a = Ans(I, evr(ev))
        if code in ('F', 'X'):
            st.vars[a.r] = ERR
            st.vars[a.err] = FAIL if code == 'F' else ERROR
            return
        st.vars[a.r] = OK
        pay = a.ok
        if code[0] in 'BC':
            k = BREAK if code[0] == 'B' else CONTINUE
            st.vars[a.ok] = k
            pay, code = a.pay[k], code[1:]
        st.vars[pay] = KIND[code]
        I.assume(st, I.uf('m.is_consuming', (ev.a[1],), BOOL), code != 'N')
        t = token_of(I, pay)
        if KIND[code] in (TOKEN, PROXY):
            tok = t[KIND[code]]
            self.about(I, st, tok, code)
            if code[0] == 'P':
                kids = self.field(I, st, tok, 'children')
                I.assume(st, I.eq(I.veclen(kids), N(int(code[1]))), True)
                for i in range(int(code[1])):
                    self.about(I, st, I.elem(st, kids, N(i)), 'T')

    def field(self, I, st, tok, f):
        r = I.deref_loc(st, tok)[0]
        return I.read(st, r, ('c', '*', ('tf', f)))

    def about(self, I, st, tok, code):
        r = I.deref_loc(st, tok)[0]
        I.assume(st, I.uf('t.discard', (mk('ref', r, ('c', '*')),), BOOL), code == 'D')
        I.assume(st, I.flagtest(self.field(I, st, tok, 'flags'), 2), code[0] == 'E')
        s = tuple(I.project(st, self.field(I, st, tok, f), ('f', 0)) for f in ('captured', 'matched'))
        if code != 'D':
            st.ghost['starts'] = mk('tup', st.ghost['starts'].a[0] + s)
        if code[0] == 'E':
            m = self.field(I, st, tok, 'matched')
            a, b = (I.project(st, m, ('f', i)) for i in (0, 1))
            I.assume(st, I.le(a, b), True)
            I.assume(st, I.eq(a, b), code == 'E0')
            c = self.field(I, st, tok, 'captured')
            I.assume(st, I.le(I.project(st, c, ('f', 0)), I.project(st, c, ('f', 1))), True)


def token_of(I, pay):
    return {TOKEN: field(I, pay, TOKEN, 0), PROXY: field(I, pay, PROXY, 0)}


def maker(seq, apart=True):
    return lambda: CollectPolicy(seq, apart)


def history(u, st, seq):
    """the answers given so far: (code, payload, child, cursor)"""
    I = u.I
    for code, h in zip(seq, st.ghost['hist'].a[0]):
        r, mid, cur = h.a[0]
        a = Ans(I, r)
        pay = a.ok
        if code[0] in 'BC':
            pay, code = a.pay[BREAK if code[0] == 'B' else CONTINUE], code[1:]
        yield code, pay, mid, cur


def listed(u, st, seq):
    """the tokens due in the list of children, in order"""
    I, out = u.I, []
    for code, pay, mid, cur in history(u, st, seq):
        if code in ('T', 'E0', 'E1', 'N'):
            out.append((code, token_of(I, pay)[TOKEN]))
        elif code[0] == 'P':
            kids = tok_field(u, st, token_of(I, pay)[PROXY], 'children')
            out += [(code, I.elem(st, kids, N(i))) for i in range(int(code[1]))]
    return out


def answer(u, st, v):
    """the token answered (also inside a control signal), the kind of answer"""
    v = norm(u.I, st, v)
    if v.t != 'adt':
        return None, None
    if v.a[1] == ERR:
        e = norm(u.I, st, v.a[2][0])
        return None, FN[e.a[1]] if e.t == 'adt' else None
    s = norm(u.I, st, v.a[2][0])
    if s.t != 'adt':
        return None, None
    sig = ''
    if s.a[1] in (BREAK, CONTINUE):
        sig = SN[s.a[1]]
        s = norm(u.I, st, u.I.project(st, u.I.project(st, s.a[2][0], ('f', 1)), '*'))
        if s.t != 'adt':
            return None, None
    return (s.a[2][0] if s.a[1] == TOKEN else None), sig + SN[s.a[1]]


def same_tok(u, st, a, b):
    x, y = deref(u, st, a), deref(u, st, b)
    if x is y:
        return True
    return None if opaque_in((x, y)) else False


def collected(u, R, seq):
    I = u.I
    who = '%s after %s' % (short(u.name).split('::')[-1], ' '.join(seq))
    for s in u.steps:
        if s.kind == 'panic' and s.definite:
            continue                # "not moving forward": by design
        if s.kind != 'ret' or s.st.ghost['!n'].a[0] != len(seq):
            continue
        st = s.st
        want = listed(u, st, seq)
        t, k = answer(u, st, s.val)
        if t is None:
            if want and k and k.endswith('Fail') and 'looping' in u.name:
                continue            # fewer passes than its range asks for
            if want:
                R.verdict(None if k is None or not u.pol.apart or far(u, st) else False, who + ': lost', '%s: children were collected, but it %s' % (who, show_step(s)))
            continue
        R.count('groups')
        kids = tok_field(u, st, t, 'children')
        if kids.t == 'vec' and kids.a[0] is None:
            got = kids.a[1]
            good = len(got) == len(want) and all3([same_tok(u, st, g, w) for g, (c, w) in zip(got, want)] or [True])
            R.verdict(good, who + ': list', '%s: its children are %s instead of %s' % (who, [show(x)[:40] for x in got], [show(x)[:40] for c, x in want]))
        else:
            R.unsure(who + ': list')
        for c, w in want:
            p = norm(I, st, tok_field(u, st, w, 'parent'))
            good = False
            if p.t == 'adt' and p.a[1] == 1:
                good = same_tok(u, st, p.a[2][0], t)
            elif p.t != 'adt':
                good = None if opaque_in(p, ('phi', 'uf')) else False
            R.verdict(good, who + ': parent', '%s: the parent of its child %s is %s' % (who, show(w)[:60], show(p)[:80]))


def far(u, st):
    """a path on which a range starts at the end of the address space"""
    return any(u.I.decide(st, u.I.lt(x, N(MAX))) is not True for x in st.ghost['starts'].a[0])


def hull(u, R, seq):
    """the range of the group spans what its children span, and nothing else"""
    I = u.I
    who = '%s after %s' % (short(u.name).split('::')[-1], ' '.join(seq))
    for s in u.steps:
        if s.kind != 'ret' or s.st.ghost['!n'].a[0] != len(seq):
            continue
        st = s.st
        t, k = answer(u, st, s.val)
        if t is None:
            continue
        parts = {'captured': [], 'matched': []}
        for code, pay, mid, cur in history(u, st, seq):
            toks = []
            if code in ('T', 'E0', 'E1'):
                toks = [token_of(I, pay)[TOKEN]]
            elif code[0] == 'P':
                p = token_of(I, pay)[PROXY]
                kids = tok_field(u, st, p, 'children')
                toks = [p] + [I.elem(st, kids, N(i)) for i in range(int(code[1]))]
            for x in toks:
                if code[0] == 'E':
                    for f in parts:
                        r = tok_field(u, st, x, f)
                        R.verdict(I.decide(st, I.le(I.project(st, r, ('f', 0)), I.project(st, r, ('f', 1)))), '%s: %s range of the error' % (who, f),
                                  '%s: the %s range of the error becomes %s' % (who, f, show(r)[:120]))
                for f in parts:
                    r = tok_field(u, st, x, f)
                    parts[f].append((I.project(st, r, ('f', 0)), I.project(st, r, ('f', 1))))
            if code == 'S':
                parts['matched'].append((u.cur, n_add(cur, field(I, pay, SKIP, 0))))
        for f, ps in parts.items():
            if not ps:
                continue
            r = tok_field(u, st, t, f)
            a, b = I.project(st, r, ('f', 0)), I.project(st, r, ('f', 1))
            R.count('ranges')
            for lo, hi in ps:
                R.verdict(I.decide(st, I.le(a, lo)), '%s: %s start' % (who, f), '%s: its %s range starts at %s, behind %s' % (who, f, show(a)[:80], show(lo)[:80]))
                R.verdict(I.decide(st, I.le(hi, b)), '%s: %s end' % (who, f), '%s: its %s range ends at %s, before %s' % (who, f, show(b)[:80], show(hi)[:80]))
            for x, side, i in ((a, 'start', 0), (b, 'end', 1)):
                d = [I.decide(st, I.eq(x, p[i])) for p in ps]
                R.verdict(True if True in d else None if None in d and opaque_in(x) else False, '%s: %s %s' % (who, f, side),
                          '%s: its %s range has the %s %s, which is that of none of its parts' % (who, f, side, show(x)[:80]))


def goes_on(u, R, seq):
    """the next child starts where the last answer ended"""
    I = u.I
    who = '%s after %s' % (short(u.name).split('::')[-1], ' '.join(seq))
    for s in u.steps:
        if s.kind != 'exec' or not s.st.ghost['hist'].a[0]:
            continue
        st = s.st
        code, pay, mid, cur = list(history(u, st, seq))[-1]
        want = cur
        if code in ('T', 'E0', 'E1'):
            want = I.project(st, tok_field(u, st, token_of(I, pay)[TOKEN], 'matched'), ('f', 1))
        elif code[0] == 'P':
            want = I.project(st, tok_field(u, st, token_of(I, pay)[PROXY], 'matched'), ('f', 1))
        elif code == 'S':
            want = n_add(cur, field(I, pay, SKIP, 0))
        R.count('cursors')
        d = I.decide(st, I.eq(s.ev.a[5], want))
        R.verdict(d if d is not None else None if opaque_in(s.ev.a[5]) else False, '%s: cursor after %s' % (who, code),
                  '%s: after %s the next child starts at %s instead of %s' % (who, code, show(s.ev.a[5])[:80], show(want)[:80]))


ONE = [('program_one', [x]) for x in ('T', 'E0', 'E1', 'P1', 'BT', 'CT')]
LISTS = [(n, s, True) for n, s in ONE]
LISTS += [('program_one', [x], False) for x in ('D', 'P0', 'P2', 'BP1', 'CP1', 'BP2')]
LISTS += [('program_macro', s, False) for x in ('T', 'E0', 'E1', 'N', 'D', 'P0', 'P1', 'P2', 'S', 'O') for s in ([['T', x]] + ([[x, 'T']] if x != 'T' else []))]
LISTS += [('program_macro', s, False) for s in (['P1', 'P1'], ['E0', 'E0'], ['T', 'BT'], ['T', 'CP1'])]
LISTS += [('looping_one', s, False) for s in (['T', 'F'], ['P1', 'F'], ['T', 'T', 'F'], ['T', 'CT', 'F'], ['T', 'BT'], ['T', 'BP1'], ['P1', 'BT'], ['E0', 'T', 'F'], ['T', 'O'])]
LISTS += [('looping_two', s, True) for s in (['T', 'F'], ['T', 'T', 'F'], ['T', 'T', 'T', 'F'], ['P1', 'F'], ['E1', 'F'])]
RANGES = [(n, s, True) for n, s in ONE] + [('program_macro', s, True) for s in (
    ['T', 'T'], ['T', 'S'], ['S', 'T'], ['T', 'E0'], ['T', 'E1'], ['E0', 'T'], ['T', 'N'], ['P0', 'T'], ['T', 'O'], ['T', 'BT'])]
RANGES += [('looping_one', s, True) for s in (['T', 'F'], ['S', 'T', 'F'], ['T', 'BT'], ['CT', 'F'])]
CURSORS = [('program_macro', [x, 'T'], False) for x in ('T', 'E0', 'E1', 'N', 'D', 'P0', 'P1', 'P2', 'S', 'O')]
CURSORS += [('looping_one', [x, 'F'], False) for x in ('T', 'P1', 'P2', 'S', 'CT', 'CP1', 'CS')]


def jobs_of(runs, f, what):
    """registry pieces: jobs, rules, policies"""
    jobs, rules, pols = [], {}, {}
    for n, s, apart in runs:
        k = '%s %s' % (what, ' '.join(s)) + (' apart' if apart else '')
        jobs.append((n, k, 0))
        rules[k] = lambda u, R, s=s: f(u, R, s)
        pols[k] = maker(s, apart)
    return jobs, rules, pols
