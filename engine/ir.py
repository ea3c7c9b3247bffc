"""The resolved program: MIR bodies, types, ADTs, impls as dumped by /verif/driver."""
import json
import re


class Body:
    __slots__ = ('key', 'pretty', 'argc', 'opt', 'gen', 'locals', 'names', 'blocks', 'spread', 'crate', 'rpo',
                 'heads', 'live', 'span', 'preds', 'loops')


class Program:
    def __init__(self, paths):
        self.bodies = {}
        self.adts = {}       # key -> (crate, info)
        self.fns = {}        # key -> (crate, info)
        self.impls = []      # (crate, info)
        self.traits = {}
        self.pub = set()
        self.types = {}
        self.crates = []
        self._ty = {}
        for p in paths:
            d = json.load(open(p))
            c = d['crate']
            self.crates.append(c)
            self.types[c] = d['types']
            for k, v in d['adts'].items():
                if k not in self.adts or v.get('full') and not self.adts[k][1].get('full'):
                    self.adts[k] = (c, v)
            for k, v in d['fns'].items():
                if k not in self.fns or 'pretty' not in self.fns[k][1]:
                    self.fns[k] = (c, v)
            seen = {i['key'] for _, i in self.impls}
            for i in d['impls']:
                if i['key'] not in seen:
                    self.impls.append((c, i))
            for k, v in d['traits'].items():
                self.traits.setdefault(k, v)
            self.pub.update(d['pub'])
            for b in d['bodies']:
                if b['key'] in self.bodies:
                    continue
                B = Body()
                B.crate = c
                for f in ('key', 'pretty', 'argc', 'opt', 'gen', 'locals', 'names', 'blocks', 'span'):
                    setattr(B, f, b[f])
                B.gen = sorted(B.gen)
                B.spread = b.get('spread')
                B.rpo = None
                self.bodies[b['key']] = B
        self.impl_by_trait = {}
        for c, i in self.impls:
            self.impl_by_trait.setdefault(i['trait'], []).append((c, i))
        self._canon = {}

    # ---- types ----
    def ty(self, crate, i, env=None):
        k = (crate, i, env)
        r = self._ty.get(k)
        if r is None:
            r = self._mkty(crate, self.types[crate][i], env)
            self._ty[k] = r
        return r

    def _mkty(self, crate, t, env):
        k = t['k']
        g = lambda j: self.ty(crate, j, env)
        if k == 'adt':
            return ('adt', t['d']) + tuple(g(a) for a in t['a'] if isinstance(a, int))
        if k == 'ref':
            return ('ref', bool(t['m']), g(t['t']))
        if k == 'ptr':
            return ('ptr', g(t['t']))
        if k == 'slice':
            return ('slice', g(t['t']))
        if k == 'array':
            return ('array', g(t['t']), t.get('l'))
        if k == 'tuple':
            return ('tuple', tuple(g(a) for a in t['a']))
        if k == 'closure':
            return ('closure', t['d'], tuple(g(a) for a in t['up']), t.get('kind'),
                    tuple(g(a) for a in t['a'] if isinstance(a, int)))
        if k == 'fndef':
            return ('fndef', t['d'], tuple(g(a) for a in t['a'] if isinstance(a, int)))
        if k == 'dyn':
            return ('dyn', t['d'])
        if k == 'param':
            if env is not None:
                for idx, ty in env:
                    if idx == t['i']:
                        return ty
            return ('param', t['i'], t['n'])
        if k == 'int':
            return ('int', t['n'])
        if k == 'float':
            return ('float', t['n'])
        if k in ('bool', 'char', 'str', 'never'):
            return (k,)
        if k == 'fnptr':
            return ('fnptr',)
        return ('other', str(t.get('s', t)))

    def fields(self, key, args, variant):
        """field types of an ADT variant, with generic args substituted."""
        e = self.adts.get(key)
        if not e:
            return None
        c, info = e
        if variant >= len(info['v']):
            return None
        env = self.adt_env(key, args)
        return [self.ty(c, f['t'], env) for f in info['v'][variant]['f']]

    def adt_env(self, key, args):
        c, info = self.adts[key]
        idx = info.get('gen')
        if idx is None:
            # type params occurring, in index order
            s = set()
            for v in info['v']:
                for f in v['f']:
                    self._params(c, f['t'], s)
            s = sorted(s)
            if len(s) == len(args):
                return tuple(zip(s, args))
            return tuple((i, args[i]) for i in s if i < len(args))
        return tuple(zip(idx, args))

    def _params(self, c, i, s, seen=None):
        seen = seen if seen is not None else set()
        if i in seen:
            return
        seen.add(i)
        t = self.types[c][i]
        if t['k'] == 'param':
            s.add(t['i'])
        for x in (t.get('t'),):
            if isinstance(x, int):
                self._params(c, x, s, seen)
        for x in t.get('a', []) or []:
            if isinstance(x, int):
                self._params(c, x, s, seen)

    def variant_index(self, key, name):
        c, info = self.adts[key]
        for i, v in enumerate(info['v']):
            if v['n'] == name:
                return i
        raise KeyError((key, name))

    def field_index(self, key, name, variant=0):
        c, info = self.adts[key]
        for i, f in enumerate(info['v'][variant]['f']):
            if f['n'] == name:
                return i
        raise KeyError((key, name))

    # ---- names ----
    def canon(self, key):
        r = self._canon.get(key)
        if r is None:
            c, f = self.fns.get(key, (None, {}))
            if f.get('impl_trait') or f.get('trait'):
                r = (f.get('impl_trait') or f.get('trait')) + '::' + f['name']
            elif f.get('pretty'):
                r = strip_generics(f['pretty'])
            else:
                r = key
            self._canon[key] = r
        return r

    # ---- trait dispatch ----
    def resolve(self, trait, method, selfty):
        """(key, env) of trait method on a concrete type, or None."""
        for c, i in self.impl_by_trait.get(trait, []):
            m = {}
            if self.unify(c, i['self'], selfty, m):
                k = i['items'].get(method)
                if k:
                    return k, tuple(sorted(m.items()))
                d = self.traits.get(trait, {}).get(method)
                if d and d[1]:
                    return d[0], ((0, selfty),)
                return None
        return None

    def adapter(self, trait, method, selfty):
        """the body of a standard library implementation that was dumped"""
        if not hasattr(self, '_adapters'):
            self._adapters = {}
            for k in self.bodies:
                if k.startswith('core::iter::'):
                    c, i = self.fns.get(k, (None, {}))
                    if i.get('impl_trait') and 'impl_self' in i:
                        self._adapters.setdefault((i['impl_trait'], i['name']), []).append((k, c, i['impl_self']))
        for k, c, i in self._adapters.get((trait, method), []):
            m = {}
            if self.unify(c, i, selfty, m):
                return k, tuple(m.items())
        return None, ()

    def implements(self, trait, selfty):
        for c, i in self.impl_by_trait.get(trait, []):
            if self.unify(c, i['self'], selfty, {}):
                return True
        return False

    def unify(self, crate, i, ty, m):
        t = self.types[crate][i]
        k = t['k']
        if k == 'param':
            if t['i'] in m:
                return m[t['i']] == ty
            m[t['i']] = ty
            return True
        u = lambda j, x: self.unify(crate, j, x, m)
        if k == 'adt':
            a = [x for x in t['a'] if isinstance(x, int)]
            return ty[0] == 'adt' and ty[1] == t['d'] and len(a) == len(ty) - 2 and all(u(x, y) for x, y in zip(a, ty[2:]))
        if k == 'ref':
            return ty[0] == 'ref' and ty[1] == bool(t['m']) and u(t['t'], ty[2])
        if k in ('slice', 'ptr'):
            return ty[0] == k and u(t['t'], ty[1])
        if k == 'array':
            return ty[0] == k and u(t['t'], ty[1])
        if k == 'tuple':
            return ty[0] == k and len(t['a']) == len(ty[1]) and all(u(x, y) for x, y in zip(t['a'], ty[1]))
        if k in ('closure', 'fndef'):
            return ty[0] == k and ty[1] == t['d']
        if k == 'dyn':
            return ty[0] == 'dyn' and ty[1] == t['d']
        return self.ty(crate, i) == ty

    # ---- CFG ----
    def cfg(self, b):
        if b.rpo is not None:
            return
        n = len(b.blocks)
        seen = set()
        order = []
        heads = set()
        onstack = set()
        back = []
        # iterative DFS
        stack = [(0, iter(succs(b, 0)))]
        seen.add(0)
        onstack.add(0)
        while stack:
            u, it = stack[-1]
            for w in it:
                if w in onstack:
                    heads.add(w)
                    back.append((u, w))
                if w not in seen:
                    seen.add(w)
                    onstack.add(w)
                    stack.append((w, iter(succs(b, w))))
                    break
            else:
                stack.pop()
                onstack.discard(u)
                order.append(u)
        order.reverse()
        b.rpo = {x: i for i, x in enumerate(order)}
        b.heads = heads
        b.preds = {}
        for x in order:
            for w in succs(b, x):
                b.preds.setdefault(w, []).append(x)
        # natural loops: head -> blocks
        b.loops = {}
        for u, w in back:
            body = b.loops.setdefault(w, {w})
            todo = [u]
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo += b.preds.get(x, [])
        # liveness of locals (uses incl. drops and storage of borrowed data are handled by reachability)
        use, dfn = {}, {}
        for x in order:
            us, ds = set(), set()
            for s in b.blocks[x][0]:
                if s[0] == '=':
                    for l in rv_locals(s[2]):
                        if l not in ds:
                            us.add(l)
                    pl = s[1]
                    if pl[1:]:
                        if pl[0] not in ds:
                            us.add(pl[0])
                        for l in proj_locals(pl[1:]):
                            if l not in ds:
                                us.add(l)
                    else:
                        ds.add(pl[0])
                elif s[0] == 'setd':
                    if s[1][0] not in ds:
                        us.add(s[1][0])
            for l in term_uses(b.blocks[x][1]):
                if l not in ds:
                    us.add(l)
            use[x], dfn[x] = us, ds
        live = {x: set() for x in order}
        ch = True
        while ch:
            ch = False
            for x in reversed(order):
                o = set()
                for w in succs(b, x):
                    o |= live[w]
                    t = b.blocks[x][1]
                if b.blocks[x][1][0] == 'ret':
                    o = {0}
                i = use[x] | (o - dfn[x])
                if i != live[x]:
                    live[x] = i
                    ch = True
        b.live = live


def succs(b, x):
    t = b.blocks[x][1]
    k = t[0]
    if k == 'goto':
        r = [t[1]]
    elif k == 'switch':
        r = [w for _, w in t[2]] + ([t[3]] if t[3] is not None else [])
    elif k == 'drop':
        r = [t[2]]
    elif k == 'call':
        r = [t[4]] if t[4] is not None else []
    elif k == 'assert':
        r = [t[4]]
    else:
        r = []
    return [w for w in r if b.blocks[w]]


def proj_locals(proj):
    return [e[1] for e in proj if isinstance(e, list) and e[0] == 'i']


def pl_locals(pl):
    return [pl[0]] + proj_locals(pl[1:])


def op_locals(o):
    return pl_locals(o[1]) if o[0] in ('c', 'm') else []


def rv_locals(r):
    k = r[0]
    if k in ('use', 'repeat'):
        return op_locals(r[1])
    if k in ('ref', 'rawptr'):
        return pl_locals(r[2])
    if k == 'cast':
        return op_locals(r[2])
    if k == 'bin':
        return op_locals(r[2]) + op_locals(r[3])
    if k == 'un':
        return op_locals(r[2])
    if k == 'discr':
        return pl_locals(r[1])
    if k == 'agg':
        return [l for o in r[2] for l in op_locals(o)]
    out = []
    for x in r[1:]:
        if isinstance(x, list) and x:
            if x[0] in ('c', 'm'):
                out += op_locals(x)
            elif isinstance(x[0], int):
                out += pl_locals(x)
    return out


def term_uses(t):
    k = t[0]
    if k == 'switch':
        return op_locals(t[1])
    if k == 'drop':
        return pl_locals(t[1])
    if k == 'call':
        r = op_locals(t[1])
        for a in t[2]:
            r += op_locals(a)
        if t[3][1:]:
            r += pl_locals(t[3])
        return r
    if k == 'assert':
        return op_locals(t[1])
    if k == 'ret':
        return [0]
    return []


def strip_generics(p):
    # remove ::<...> and <...> balanced
    out = []
    d = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if p.startswith('<impl ', i) and d == 0:
            j = i
            dd = 0
            while j < len(p):
                if p[j] == '<':
                    dd += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    dd -= 1
                    if dd == 0:
                        break
                j += 1
            out.append(strip_generics_inner(p[i:j + 1]))
            i = j + 1
            continue
        if ch == '<':
            d += 1
        elif ch == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return re.sub(r'::(::)+', '::', ''.join(out)).rstrip(':')


def strip_generics_inner(s):
    return re.sub(r'\s', '_', s)
