"""Analysis policy shared by all rules: entry assumptions and the treatment of the environment."""
from values import *
from interp import *

A = 'adextopa_core::'
G = ('adt', 'alloc::alloc::Global')


def rc(t):
    return ('adt', 'alloc::rcs::rc::Rc', ('adt', 'core::cell::RefCell', t), G)


SUCCESS = ('adt', A + 'matcher::MatcherSuccess')
FAILURE = ('adt', A + 'matcher::MatcherFailure')
RESULT = ('adt', 'core::result::Result', SUCCESS, FAILURE)


class Policy:
    pinned = frozenset()

    def small(self, x):
        return True

    def decide(self, I, st, b):
        return None

    def variant(self, I, st, v, ty):
        return None

    def feasible(self, I, st, v, i):
        return True

    def site(self, st, site):
        """what objects made here are told apart by"""
        return site

    def on_panic(self, I, st, f, kind, info, definite):
        pass

    def at_head(self, I, st, f, bb):
        pass

    def intercept(self, I, c):
        return None

    def keeps(self, st, f, bb):
        """may dead objects stay, because states are never joined and the heap is small"""
        return False

    def unrolls(self, body, n, depth):
        """follow a function into itself once more: it works off something that was built concretely"""
        return False

    def recursive(self, I, c):
        I.unknown('recursion:' + c.key)
        I.havoc(c.st, c.args, c.argtys)
        return [(c.st, I.unk(c.ret, 'rec'))]

    def callback(self, I, st, f, bb, fv, args, retty):
        return None

    def printed(self, c):
        pass

    def vec_push(self, c, r, p, v):
        pass

    def retaining(self, c, st, e):
        pass

    def retained(self, c, st, r, p, e, kept):
        pass

    def iterated(self, c, it, i):
        pass

    def exhausted(self, c, it):
        pass

    def map_insert(self, c, r, p, m, k, v):
        pass

    def slice(self, c, v, lo, hi):
        return True

    def keep_fact(self, k):
        return True

    def stale(self, k):
        return False

    def peel(self, body):
        return False

    def distinct(self, J, s, d, ph):
        return False

    def joined(self, I, J, s, o):
        return True

    def relational(self, d):
        """is this relation between a merged number and another one worth keeping: an index and a length"""
        return any(x.t == 'len' and self.matchers(x.a[0]) for x, _ in d.a[1])

    def matchers(self, v):
        while v.t == 'vec' and v.a[0] is not None:
            v = v.a[0]
        return v.t in ('sym', 'phi', 'uf') and 'matcher::Matcher' in str(v.a[-1])

    def merges(self, body):
        """may outcomes of this function be merged at all"""
        return True

    def separate(self, body, bb, f=None):
        """are the states at this loop head never joined"""
        return False

    def mergeable(self, v):
        """may outcomes with different values of this shape be merged"""
        return v.t == 'adt'


class Obs:
    """one observation: something the analysed code does that a rule may talk about"""
    __slots__ = ('kind', 'st', 'prev', 'ev', 'val', 'fn', 'info', 'definite', 'stack')

    def __init__(self, kind, st, **k):
        self.kind, self.st = kind, st
        for n in ('prev', 'ev', 'val', 'fn', 'info', 'definite', 'stack'):
            setattr(self, n, k.get(n))


NONE = mk('k', 'none')


class MatcherPolicy(Policy):
    """environment of a matcher: opaque children, tokens, scopes and user closures"""

    def __init__(self):
        self.obs = []
        self.small_cache = {}

    # ---- numbers
    def small(self, x):
        """offsets, lengths and ranges index memory; user-chosen iteration bounds do not"""
        for st in x.a[1]:
            if isinstance(st, tuple) and st[0] == 'tf' and st[1] == 'flags':
                return False
        return x.a[0] not in ('range', 'num')

    def setup(self, I, st):
        st.ghost['last'] = NONE

    def decide(self, I, st, b):
        """assumed of children: a Skip does not lead in front of the text"""
        if b.t != 'ge0':
            return None
        last = st.ghost['last']
        if last.t == 'ev' and last.a[0] == 'exec' and any(('r', 0) in x.roots for x, c in b.a[0].a[1]):
            cur = last.a[5]
            ok = I.project(st, mk('dc', last.a[-1], 0), ('f', 0))
            skips = [I.project(st, mk('dc', ok, 2), ('f', 0))]
            for k in (3, 4):
                pay = I.project(st, I.project(st, I.project(st, mk('dc', ok, k), ('f', 0)), ('f', 1)), '*')
                skips.append(I.project(st, mk('dc', pay, 2), ('f', 0)))
            for x in skips:
                w = n_add(cur, x)
                d = n_sub(b.a[0], w)
                if const_of(d) is not None and const_of(d) >= 0:
                    return True
                d = n_add(b.a[0], w)
                if const_of(d) is not None and const_of(d) < 0:
                    return False
        return None

    # ---- observations
    def observe(self, I, kind, st, f=None, **k):
        o = Obs(kind, st.copy(), prev=st.ghost['last'], fn=f.body.key if f else None, stack=[b for b, _ in I.stack], **k)
        self.obs.append(o)
        return o

    def event(self, I, st, ev):
        st.ghost['last'] = ev

    def at_head(self, I, st, f, bb):
        old = self.stale
        if any(old(k) for k in st.facts):
            st.facts = {k: v for k, v in st.facts.items() if not old(k)}
        if any(old(k) for k in st.vars):
            st.vars = {k: v for k, v in st.vars.items() if not old(k)}

    def joined(self, I, J, s, o):
        """whether the child executed last consumes, said about the joined name of that child"""
        a, b, c = (x.ghost['last'] for x in (J, s, o))
        if c.t == 'ev' and c.a[0] == 'exec':
            f = [I.uf('m.is_consuming', (e.a[1],), BOOL) for e in (a, b, c)]
            x, y = J.facts.get(f[0]), s.facts.get(f[1])
            if x != y and None not in (x, y):
                return False
            if x is not None and x == y:
                o.facts[f[2]] = x
        return True

    def stale(self, k):
        """about an answer older than the latest one"""
        return any(isinstance(r, tuple) and len(r) == 2 and r[0] in ('r', 'cb') and r[1] for r in k.roots)

    def on_panic(self, I, st, f, kind, info, definite):
        self.observe(I, 'panic', st, f, info=(kind, info), definite=definite)

    def keep_fact(self, k):
        """what a child or callback answered stays known when callee outcomes are merged"""
        if k.t in ('flag', 'streq'):
            return False
        if k.t == 'uf' and k.a[0] == 'm.is_consuming':
            return True
        return any(r == ('r', 0) or r == ('cb', 0) for r in k.roots)

    # ---- calls
    def intercept(self, I, c):
        info = I.p.fns.get(c.key, (None, {}))[1]
        tr = info.get('trait')
        if tr == A + 'matcher::Matcher':
            return self.matcher_call(I, c, info['name'])
        if tr == A + 'token::Token':
            return self.token_call(I, c, info['name'])
        n = c.name
        if n.startswith(A + 'scope_context::ScopeContext::'):
            return self.scope_call(I, c, n.split('::')[-1])
        if n == A + 'source_range::SourceRange::to_string' and self.range_text:
            from models import val
            return [(c.st, I.uf('rangetext', (val(c, 1), val(c, 0)), STRING))]
        return None

    range_text = True               # the text of a range is one function of the text and the range (it is analysed on its own)

    def opaque_self(self, I, c):
        t = I.concrete_self(c.st, c.targs[0] if c.targs else None, c.args)
        return t is None or t[0] in ('dyn', 'param')

    def matcher_call(self, I, c, name):
        if not self.opaque_self(I, c):
            return None
        st = c.st
        root, proj = I.deref_loc(st, c.args[0])
        mid = self.mid(root)
        if name == 'exec':
            return self.child_exec(I, c, mid)
        if name == 'get_name':
            return [(st, mk('vref', I.uf('mname', (mid,), STR)))]
        if name in ('has_custom_name', 'is_consuming'):
            return [(st, I.uf('m.' + name, (mid,), BOOL))]
        if name in ('get_children', 'to_string'):
            return [(st, I.uf('m.' + name, (mid,), c.ret))]
        if name in ('set_name', 'add_pattern', 'set_child'):
            ev = mk('ev', 'm.' + name, mid, tuple(c.args[1:]))
            self.observe(I, 'm.' + name, st, c.fr, ev=ev)
            self.event(I, st, ev)
            return [(st, UNIT)]
        if name in ('before_exec', 'after_exec'):
            self.observe(I, 'm.' + name, st, c.fr, ev=mk('ev', 'm.' + name, mid, tuple(c.args[1:])))
            return [(st, UNIT)]
        return None

    def mid(self, root):
        return root.a[0] if root.t == 'H' and isinstance(root.a[0], V) else root

    def child_exec(self, I, c, mid):
        st = c.st
        this, ctx, scope = c.args[1:4]
        cr, _ = I.deref_loc(st, ctx)
        sr, _ = I.deref_loc(st, scope)
        cur, end = self.cursor(I, st, cr)
        held = tuple(sorted(((mk('ref', r, p), mk('k', 'w' if n < 0 else 'r')) for (r, p), n in st.borrows.items()),
                            key=lambda x: x[0].id))
        ev = mk('ev', 'exec', mid, this, ctx, scope, cur, end, held)
        self.observe(I, 'exec', st, c.fr, ev=ev)
        self.pre_exec(I, c, ev)
        r, (ev,) = I.fresh(st, 'r', RESULT, (ev,))
        ev = mk('ev', *ev.a, r)
        self.event(I, st, ev)
        for k in [k for k in st.facts if k.t == 'uf' and k.a[0] == 'm.is_consuming']:
            del st.facts[k]
        self.post_exec(I, c, st, ev)
        self.joinpoint(c)
        return [(st, r)]

    def joinpoint(self, c):
        """paths that asked the same thing of the environment meet again where it answers"""
        fr, bb = c.fr, c.bb
        while fr is not None and bb is not None:
            t = fr.body.blocks[bb][1]
            # in the function itself, and where a loop calls a function that asks
            if t[0] == 'call' and t[4] is not None and (fr is c.fr or any(bb in l for l in fr.body.loops.values())):
                fr.body.heads.add(t[4])
            fr, bb = fr.parent, fr.bb

    def pre_exec(self, I, c, ev):
        pass

    def post_exec(self, I, c, st, ev):
        pass

    def ctx_field(self, I, name):
        return I.p.field_index(A + 'parser_context::ParserContext', name)

    def cursor(self, I, st, root):
        off = I.read(st, root, ('c', ('f', self.ctx_field(I, 'offset'))))
        return I.project(st, off, ('f', 0)), I.project(st, off, ('f', 1))

    def callback(self, I, st, f, bb, fv, args, retty):
        held = tuple(sorted(((mk('ref', r, p), mk('k', 'w' if n < 0 else 'r')) for (r, p), n in st.borrows.items()),
                            key=lambda x: x[0].id))
        fid = fv
        if fv.t in ('ref', 'vref'):
            fid = I.load(st, fv)
        ev = mk('ev', 'cb', fid, tuple(args), held)
        self.observe(I, 'cb', st, f, ev=ev)
        r, (ev,) = I.fresh(st, 'cb', retty, (ev,))
        ev = mk('ev', *ev.a, r)
        self.event(I, st, ev)
        return [(st, r)]

    # ---- scopes
    def scope_call(self, I, c, name):
        st = c.st
        if name not in ('get', 'set'):
            return None
        root, proj = I.deref_loc(st, c.args[0])
        sc = I.read(st, root, proj)
        stack = I.project(st, sc, ('f', 0))
        if stack.t == 'vec' and stack.a[0] is None:
            return None
        from models import val
        if name == 'get':
            nm = val(c, 1)
            r, (root, nm) = I.fresh(st, 'g', c.ret, (root, nm))
            ev = mk('ev', 'get', root, nm, r)
            self.observe(I, 'get', st, c.fr, ev=ev)
            st.ghost['get'] = ev
            return [(st, r)]
        ev = mk('ev', 'set', root, val(c, 1), c.args[2])
        self.observe(I, 'set', st, c.fr, ev=ev)
        r, (ev,) = I.fresh(st, 'old', c.ret, (ev,))
        st.ghost['set'] = ev
        return [(st, r)]

    # ---- tokens
    def token_call(self, I, c, name):
        st = c.st
        if not self.opaque_self(I, c):
            return None
        root, proj = I.deref_loc(st, c.args[0])
        from models import val, map_lookup
        tf = lambda f: proj + (('tf', f),)
        ref = lambda f: [(st, mk('ref', root, tf(f)) if root.t != 'I' else mk('vref', I.read(st, root, tf(f))))]
        get = lambda f: I.read(st, root, tf(f))

        def put(f, v):
            I.write(st, root, tf(f), v)
            return [(st, UNIT)]
        if name in ('get_captured_range', 'get_captured_range_mut'):
            return ref('captured')
        if name in ('get_matched_range', 'get_matched_range_mut'):
            return ref('matched')
        if name == 'get_name':
            return ref('name')
        if name in ('get_children', 'get_children_mut'):
            return ref('children')
        if name in ('get_value', 'get_captured_value', 'get_matched_value'):
            return ref(name[4:])
        if name == 'get_attributes':
            return ref('attrs')
        if name in ('get_parent', 'get_parser'):
            return [(st, get(name[4:]))]
        if name == 'get_flags':
            return [(st, get('flags'))]
        if name in ('set_captured_range', 'set_matched_range'):
            w = name[4:-6]
            put(w + '_value', I.uf('rangetext', (get('parser'), c.args[1]), STRING))
            return put(w, c.args[1])
        if name == 'set_parent':
            return put('parent', c.args[1])
        if name == 'set_children':
            return put('children', c.args[1])
        if name == 'add_child':
            v = get('children')
            v = v if v.t == 'vec' else mk('vec', v, ())
            return put('children', mk('vec', v.a[0], v.a[1] + (c.args[1],)))
        if name in ('set_value', 'set_captured_value', 'set_matched_value', 'set_name'):
            return put(name[4:], val(c, 1))
        if name == 'get_attribute':
            return [(st, map_lookup(c, get('attrs'), val(c, 1), c.ret, True))]
        if name == 'attribute_equals':
            return [(st, I.uf('t.attr_eq', (get('attrs'), val(c, 1), val(c, 2)), BOOL))]
        if name == 'set_attribute':
            m = get('attrs')
            old = map_lookup(c, m, val(c, 1), c.ret)
            put('attrs', mk('mapset', m, val(c, 1), val(c, 2)))
            return [(st, old)]
        if name == 'set_flags':
            return put('flags', c.args[1])
        if name == 'enable_flags':
            return put('flags', I.arith(st, 'BitOr', get('flags'), c.args[1], ('int', 'u8')))
        if name == 'disable_flags':
            return put('flags', I.arith(st, 'BitAnd', get('flags'), I.bnot(c.args[1], ('int', 'u8')), ('int', 'u8')))
        if name == 'flags_enabled':
            q, m = get('flags'), c.args[1]
            k = const_of(m)
            if k is not None and k and (k & (k - 1)) == 0:
                return [(st, I.flagtest(q, k))]
            return [(st, mk('flag', *sorted((q, m))))]
        if name == 'should_discard':
            return [(st, I.uf('t.discard', (mk('ref', root, proj),), BOOL))]
        return None

    def recursive(self, I, c):
        """a function calling itself: its effect on the tokens it is given is unknown"""
        st = c.st
        for i, a in enumerate(c.args):
            if a.t in ('rc', 'sym', 'phi', 'uf') and c.argtys[i] == I.token_ref_ty():
                root, proj = I.deref_loc(st, a)
                self.havoc_token(I, c, i)
        I.havoc(st, c.args, c.argtys)
        return [(st, I.unk(c.ret, 'rec') if c.ret != ('tuple', ()) else UNIT)]

    def havoc_token(self, I, c, n):
        st = c.st
        p = ('c', '*')

        def root():
            return I.deref_loc(st, c.args[n])[0]
        x = I.read(st, root(), p)
        ty = I.vty(x)
        if x.t == 'adt' or ty and ty[0] == 'adt':
            fs = []
            for f in ('children', 'captured_range', 'matched_range', 'captured_value', 'matched_value', 'parent'):
                try:
                    i = I.p.field_index(ty[1], f)
                except KeyError:
                    continue
                fs.append((('f', i), f, I.p.fields(ty[1], ty[2:], 0)[i]))
        else:
            fs = [(('tf', f), f, I.tokf_ty(f))
                  for f in ('children', 'captured', 'matched', 'captured_value', 'matched_value', 'parent')]
        for e, f, ft in fs:
            v, (args,) = I.fresh(st, ('hv', c.site, n, f), ft, (tuple(c.args),))
            c.args = list(args)
            I.write(st, root(), p + (e,), v)
