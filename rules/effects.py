"""What a matcher does to the objects it was given: cursor (C07), life cycle (C11), scopes (C12),
variables (C13) and interior borrows (C14)."""
from common import *
import answers as tables
import compose
from compose import variant

LEAVES = ['debug_none', 'pin_none', 'pin_none_named', 'store_string', 'fetch', 'register', 'break_', 'break_named', 'null',
          'error', 'equals', 'equals_named', 'equals_fetch', 'matches', 'matches_named', 'sequence', 'sequence_named']
ONE = tables.PASS + tables.WRAP
MANY = compose.SWITCH[:1] + compose.LOOPS[:1] + compose.PROGRAMS[:1]
ALL = LEAVES + ONE + MANY + ['looping_named', 'program_named']

CTX_FIELDS = ['offset', 'debug_mode', 'scope', 'parser', 'name', 'token_stack']


def name_of(u):
    return short(u.name).split('::')[-1]


def fields_equal(u, st):
    """per field of the context: is it what it was on entry"""
    I = u.I
    for f in CTX_FIELDS:
        try:
            p = ('c', ('f', u.pol.ctx_field(I, f)))
        except KeyError:
            continue
        a = I.read(st, u.ctx_root, p)
        b = I.project(st, u.ctx0, p[1]) if u.ctx0.t != 'adt' else u.ctx0.a[2][p[1][1]]
        yield f, same(u, st, a, b)


def same(u, st, a, b):
    if a is b:
        return True
    I = u.I
    ty = I.vty(a) or I.vty(b)
    if ty and ty[0] == 'adt' and not I.is_enum(ty) and ty[1].startswith('adextopa_core') :
        n = len(I.variants(ty)[0]['f'])
        return all3(same(u, st, I.project(st, a, ('f', i)), I.project(st, b, ('f', i))) for i in range(n))
    return eqv(I, st, a, b)


def cursor(u, R):
    """C07: the context handed in is on return what it was on entry"""
    n = name_of(u)
    for s in u.steps:
        if s.kind not in ('ret', 'exec', 'cb'):
            continue
        for f, good in fields_equal(u, s.st):
            R.verdict(good, '%s: %s of the caller\'s context (%s)' % (n, f, s.kind),
                      '%s: the `%s` of the context it was given is changed when it %s' % (n, f, show_step(s)))


# ------------------------------------------------------------------ C11
NAMED = {'proxy_named', 'pin_named', 'pin_offset', 'pin_none_named', 'reference_named', 'program_named', 'looping_named',
         'equals_named', 'matches_named', 'sequence_named', 'store_matcher', 'store_string'}


AGAIN = [n + '_renamed' for n in ('equals', 'matches', 'sequence', 'pin_none', 'proxy', 'reference', 'program', 'store')]
# being given the name of one's kind is being given none
KINDS = {'equals_renamed': 'Equals', 'matches_renamed': 'Matches', 'sequence_renamed': 'Sequence', 'pin_none_renamed': 'Pin'}


def lifecycle(u, R):
    n = name_of(u)
    custom = n in NAMED or n in AGAIN
    for s in u.steps:
        if n in KINDS and u.I.decide(s.st, mk('streq', *sorted((u.args['n'], mk('str', KINDS[n]))))):
            continue
        R.verdict(s.kind not in ('m.before_exec', 'm.after_exec'), '%s: life cycle of a child' % n,
                  '%s runs a step of the life cycle of its child without executing it: %s' % (n, show_step(s)))
        if s.kind in ('exec', 'cb', 'ret'):
            if s.kind == 'exec':
                R.verdict(None if opaque_in((s.ev.a[1], s.ev.a[2])) and s.ev.a[1] is not s.ev.a[2] else s.ev.a[1] is s.ev.a[2],
                          '%s: `this` of a child' % n,
                          '%s: child %s is executed with `this` = %s' % (n, show(s.ev.a[1]), show(s.ev.a[2])))
            if s.prev is policy.NONE and n == 'store_string':
                R.verdict(any(x.kind == 'set' and is_self(u, x.st, x.ev) for x in u.steps), '%s: registered' % n,
                          '%s has a name but is never registered in the scope' % n)
            elif s.prev is policy.NONE:
                g = s.st.ghost.get('set')
                mine = g is not None and is_self(u, s.st, g)
                if custom:
                    R.verdict(bool(mine), '%s: registered before anything runs' % n,
                              '%s: a named matcher is registered in the scope before it runs, but it %s with %s' % (
                                  n, show_step(s), 'no registration' if g is None else 'registration ' + show(g)[:120]))
                else:
                    R.verdict(not mine, '%s: not registered' % n,
                              '%s has no name of its own but registers itself: %s' % (n, show(g)[:120] if g else ''))
        if s.kind == 'set' and is_self(u, s.st, s.ev) and custom:
            sroot = u.I.deref_loc(s.st, u.args['sc'])[0]
            R.verdict(s.ev.a[1] is sroot, '%s: registered in the scope it runs in' % n,
                      '%s registers itself in %s' % (n, show(s.ev.a[1])))
            R.verdict(same_text(s.ev.a[2], called(u, n)) or eqv(u.I, s.st, s.ev.a[2], called(u, n)), '%s: registered under its name' % n,
                      '%s: called %s, registers itself as %s' % (n, show(called(u, n)), show(s.ev.a[2])[:80]))
            R.verdict(s.prev is policy.NONE, '%s: registered before its children' % n,
                      '%s registers itself after its child was executed' % n)


def called(u, n):
    """the name this program gave its matcher"""
    if n in AGAIN:
        return u.args['n']
    return u.args.get('name') or mk('str', 'Var' if n.startswith('store') else 'Named')


def is_self(u, st, g):
    """is it the registration of a matcher this program built"""
    v = norm(u.I, st, g.a[3])
    if v.t != 'adt' or 'VariableType' not in v.a[0][1]:
        return False
    nm = [w['n'] for w in u.I.variants(v.a[0])][v.a[1]]
    if nm != 'Matcher':
        return False
    m = v.a[2][0]
    root = u.I.deref_loc(st, m)[0] if m.t in ('rc', 'sym', 'phi') else m
    return root.t == 'H' and root.a[0] == 'new'


# ------------------------------------------------------------------ C12
def scopes(u, R):
    I, n = u.I, name_of(u)
    sroot = None
    for s in u.steps:
        st = s.st
        sroot = I.deref_loc(st, u.args['sc'])[0]
        if s.kind == 'exec':
            sc = s.ev.a[4]
            if n == 'set_scope_with':
                want = u.args['sc2']
            elif n == 'set_scope':
                want = I.read(st, u.ctx_root, ('c', ('f', u.pol.ctx_field(I, 'scope'))))
            else:
                want = u.args['sc']
            R.verdict(True if sc is want else None if opaque_in(sc) else False, '%s: scope of a child' % n,
                      '%s: its child is executed in scope %s' % (n, show(sc)))
            root = I.deref_loc(st, sc)[0]
            R.verdict(stack_is(u, st, root, 0), '%s: stack during a child' % n,
                      '%s: the scope stack a child runs with is not the one it was given' % n) \
                if n not in ('set_scope',) else R.verdict(stack_is(u, st, root, 1), '%s: a level of its own' % n,
                      '%s: the child of SetScope does not run in a new scope level' % n)
        if s.kind == 'ret':
            for nm in ('sc', 'sc2'):
                if nm in u.args:
                    R.verdict(stack_is(u, st, I.deref_loc(st, u.args[nm])[0], 0), '%s: scope stack on return' % n,
                              '%s: the scope stack is not what it was on entry when it %s' % (n, show_step(s)))
            own = I.read(st, u.ctx_root, ('c', ('f', u.pol.ctx_field(I, 'scope'))))
            R.verdict(stack_is(u, st, I.deref_loc(st, own)[0], 0), '%s: own scope stack on return' % n,
                      '%s: the stack of the context\'s own scope is not what it was on entry when it %s' % (n, show_step(s)))


def stack_is(u, st, root, more):
    """the scope's stack is the one on entry, plus that many levels"""
    I = u.I
    sc = I.read(st, root, ('c',))
    v = I.project(st, sc, ('f', 0))
    from values import mk as _
    if v.t == 'sym' and more == 0:
        return True
    if v.t == 'vec' and v.a[0] is not None and v.a[0].t == 'sym':
        return len(v.a[1]) == more
    if v.t == 'sym':
        return False
    return None


# ------------------------------------------------------------------ C13
class VarPolicy(policy.MatcherPolicy):
    """what a lookup found stays known"""
    def keep_fact(self, k):
        return super().keep_fact(k) or any(r == ('g', 0) for r in k.roots)


def variables(u, R):
    I, n = u.I, name_of(u)
    sets = [s for s in u.steps if s.kind == 'set']
    for s in sets:
        R.count('bindings')
        sroot = I.deref_loc(s.st, u.args['sc'])[0]
        R.verdict(s.ev.a[1] is sroot, '%s: scope of a binding' % n, '%s binds a variable in %s' % (n, show(s.ev.a[1])))
    if n == 'store_matcher':
        for s in u.steps:
            if s.kind != 'ret' or not is_ev(s.prev, 'exec'):
                continue
            g = s.st.ghost.get('set')
            if g is not None and is_self(u, s.st, g):
                g = None            # a named matcher is also a name in the scope (C11)
            for case, ans, st in answers(u, s, R):
                if case == 'Token':
                    tok = ans.tok[TOKEN]
                    good = g is not None and binding(u, st, g, 'Var', 'Token', tok)
                    R.verdict(good, 'Store on %s' % case, 'Store: when its matcher answers %s the variable is bound to that token, but %s'
                              % (case, 'nothing is bound' if g is None else show(g)[:150]))
                else:
                    R.verdict(g is None, 'Store on %s' % case,
                              'Store: when its matcher answers %s it binds %s' % (case, show(g)[:150] if g else ''))
    if n == 'store_string':
        for s in u.steps:
            if s.kind == 'ret':
                g = s.st.ghost.get('set')
                R.verdict(g is not None and binding(u, s.st, g, 'Var', 'String', mk('str', 'Value')), 'Store of a string',
                          'Store of a string binds %s' % (show(g)[:150] if g else 'nothing'))
                R.verdict(eqv(I, s.st, s.val, skip0()), 'Store of a string: answer', 'Store of a string %s' % show_step(s))
    if n == 'register':
        got = []
        for s in sets:
            v = norm(I, s.st, s.ev.a[3])
            got.append((show(s.ev.a[2]), v.a[2][0] if v.t == 'adt' and v.a[2] else v))
        for k in ('a', 'b'):
            want = ("uf(mname,(%s))" % k)
            hit = [v for nm, v in got if nm == want]
            R.verdict(bool(hit) and all(v is u.args[k] for v in hit), 'Register: child %s' % k,
                      'Register binds each matcher under its own name; child %s: %s' % (k, [show(v) for v in hit] or 'not bound'))
        for s in u.steps:
            if s.kind in ('exec', 'cb'):
                R.verdict(False, 'Register runs a child', 'Register %s' % show_step(s))
            if s.kind == 'ret':
                R.verdict(eqv(I, s.st, s.val, skip0()), 'Register: answer', 'Register %s' % show_step(s))
    if n.startswith('reference') and n != 'reference_matcher':
        for s in u.steps:
            if s.kind == 'get':
                sroot = I.deref_loc(s.st, u.args['sc'])[0]
                R.verdict(s.ev.a[1] is sroot, '%s: scope of the lookup' % n, '%s looks its target up in %s' % (n, show(s.ev.a[1])))
                want = u.args['t'] if n == 'reference_string' else mk('str', 'Target')
                R.verdict(same_text(s.ev.a[2], want), '%s: name looked up' % n, '%s looks up %s' % (n, show(s.ev.a[2])))
            if s.kind == 'exec':
                g = s.st.ghost.get('get')
                good = g is not None and g.a[3] in parents(s.ev.a[1])
                R.verdict(good, '%s: target' % n, '%s executes %s, not what the lookup found' % (n, show(s.ev.a[1])))
            if s.kind == 'ret' and s.prev is policy.NONE:
                g = s.st.ghost.get('get')
                R.verdict(g is not None, '%s: fails without a lookup' % n, '%s %s without looking its target up' % (n, show_step(s)))
                if g is None:
                    continue
                a, b = variant(u, s.st, s.val)
                R.verdict(None if a is None or a == 1 and b is None else a == 1 and b == 1, '%s: nothing found' % n,
                          '%s finds no matcher under the name of its target and %s, where only an error is right' % (n, show_step(s)))
                R.verdict(not may_be_matcher(u, s.st, g.a[3]), '%s: found and not run' % n,
                          '%s %s although what it found may be a matcher' % (n, show_step(s)))
    if n in ('fetch', 'null', 'equals', 'matches', 'sequence', 'break_', 'error', 'optional', 'not', 'discard', 'catch', 'map',
             'program', 'switch', 'looping', 'expand_range', 'proxy'):
        R.verdict(not sets, '%s: binds nothing' % n, '%s binds a variable: %s' % (n, show(sets[0].ev)[:150] if sets else ''))


def may_be_matcher(u, st, found):
    """may the answer of a lookup be a matcher, for all this path knows about it"""
    found = norm(u.I, st, found)
    if found.t == 'adt':
        if found.a[1] == 0:
            return False
        v = norm(u.I, st, found.a[2][0])
        k = v.a[1] if v.t == 'adt' else st.vars.get(v)
    else:
        if st.vars.get(found) == 0:
            return False
        k = next((i for x, i in st.vars.items() if x.t == 'sym' and found.t == 'sym' and x.a[0] is found.a[0] and x.a[1] == found.a[1] + ((1, 0),)), None)
    return k is None or k == 2


def same_text(a, b):
    return a is b or show(a) == show(b)


def parents(v):
    """the values v was read out of"""
    out = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, V):
            out.add(x)
            if x.t == 'sym':
                for k in range(len(x.a[1])):
                    out.add(mk('sym', x.a[0], x.a[1][:k], x.a[2]))
                todo.append(x.a[0])
    roots = {r for x in out for r in x.roots}
    return Both(out, roots)


class Both:
    def __init__(self, vals, roots):
        self.vals, self.roots = vals, roots

    def __contains__(self, g):
        return g in self.vals or any(r in self.roots for r in g.roots)


def binding(u, st, g, name, kind, what):
    v = norm(u.I, st, g.a[3])
    if v.t != 'adt':
        return None
    var = [w['n'] for w in u.I.variants(v.a[0])][v.a[1]]
    return all3([same_text(g.a[2], mk('str', name)), var == kind, v.a[2][0] is what or same_text(v.a[2][0], what)])


# ------------------------------------------------------------------ C14
def borrows(u, R):
    I, n = u.I, name_of(u)
    for s in u.steps:
        if s.kind in ('exec', 'cb'):
            held = s.ev.a[7] if s.kind == 'exec' else s.ev.a[3]
            sroot = I.deref_loc(s.st, u.args['sc'])[0]
            for ref, mode in held:
                root, m = ref.a[0], mode.a[0]
                R.count('guards')
                what = 'the scope' if root is sroot else 'the context' if root is u.ctx_root else show(root)[:60]
                R.verdict(m != 'w', '%s: write guard on %s' % (n, what if 'the' in what else 'an object'),
                          '%s: %s is mutably borrowed while it %s' % (n, what, show_step(s)))
                if root is sroot:
                    R.verdict(False, '%s: guard on the scope' % n, '%s: the scope is borrowed while it %s' % (n, show_step(s)))
            R.count('re-entrant calls')
            R.count('obligations')
        if s.kind == 'panic':
            kind = str(s.info[0])
            R.verdict(not (kind.startswith('borrow') and s.definite), '%s: borrow conflict' % n,
                      '%s: RefCell already borrowed (%s) in %s' % (n, s.info, s.fn)) if kind.startswith('borrow') else None
