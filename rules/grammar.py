"""The grammar of the script language, as the graph of matchers handed to the parser."""
import re
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre
from common import *
from interp import STRING, STR, is_vec_ty
import policy
import sys

MATCHER = 'adextopa_core::matcher::Matcher'
TOKENIZE = 'adextopa_core::parser_context::ParserContext::tokenize'


class GrammarPolicy(policy.MatcherPolicy):
    """constants of regular expressions are taken to be well-formed; parsing itself is what is observed"""

    def merges(self, body):
        return False

    def separate(self, body, bb, f=None):
        return True

    def keeps(self, st, f, bb):
        return True

    def unrolls(self, body, n, depth):
        return n < 12 and depth < 300

    def intercept(self, I, c):
        if c.name in ('regex::Regex::new', 'regex::regex::string::Regex::new'):
            from models import val
            v = val(c, 0)
            if v.t == 'str':
                return [(c.st, mk('adt', c.ret, 0, (I.uf('regex', (v,), c.ret[2]),)))]
        if c.name.startswith('lazy_static::') and c.name.endswith('::get') and len(c.args) == 2:
            return [(st, mk('vref', v)) for st, v in I.call_value(c.st, c.fr, c.bb, c.args[1], [], c.ret[1] if c.ret[0] == 'ref' else c.ret)]
        if c.name in ('regex::Regex::is_match', 'regex::regex::string::Regex::is_match'):
            from models import val
            x, v = val(c, 0), val(c, 1)
            if x.t == 'uf' and x.a[0] == 'regex' and v.t == 'str':
                return [(c.st, TRUE if re.search(x.a[1][0].a[0], v.a[0]) else FALSE)]
        if c.name.startswith(TOKENIZE):
            self.observe(I, 'm.parse', c.st, c.fr, ev=mk('ev', 'm.parse', tuple(c.args)))
            return self.parsed(I, c)
        if c.name.startswith('adextopa_core::parser_context::ParserContext::get_error_as_string'):
            from models import val
            return [(c.st, I.uf('errortext', (val(c, 1), val(c, 2)), STRING))]
        return super().intercept(I, c)

    def parsed(self, I, c):
        return []


class Node:
    def __init__(self, kind, root):
        self.kind, self.root = kind, root
        self.texts, self.ends = [], ()
        self.children, self.strings, self.regex, self.range, self.action, self.closures, self.val = [], [], None, None, None, [], None

    def __repr__(self):
        return '%s%s' % (self.kind, self.strings or '')


def text(I, st, v):
    """a constant text, however it is held"""
    for _ in range(6):
        if v.t == 'str':
            return v.a[0]
        if v.t in ('ref', 'vref'):
            v = I.load(st, v)
        elif v.t == 'box':
            v = v.a[0]
        else:
            return None
    return None


class Graph:
    """nodes by heap location"""

    def __init__(self, u, st):
        self.u, self.I, self.st, self.nodes, self.problems = u, u.I, st, {}, []

    def node(self, v):
        root, _ = self.I.deref_loc(self.st, v)
        if root in self.nodes:
            return self.nodes[root]
        x = self.st.cells.get(root)
        n = Node('?', root)
        self.nodes[root] = n
        for _ in range(3):
            if x is not None and x.t in ('cell', 'box'):
                x = x.a[0]
        if x is None or x.t != 'adt':
            self.problems.append('a matcher that is %s' % show(x if x is not None else root)[:80])
            return n
        n.kind = x.a[0][1].split('::')[-1]
        n.val = x
        for f in x.a[2]:
            self.field(n, f)
        return n

    def field(self, n, f):
        """sort what a matcher is made of by what it is, not by what the field is called"""
        I, st = self.I, self.st
        t = text(I, st, f)
        if t is not None:
            n.strings.append(t)
            return
        if f.t == 'rc':
            root, _ = I.deref_loc(st, f)
            x = st.cells.get(root)
            if x is not None and self.is_matcher(x):
                n.children.append(self.node(f))
            return
        if f.t == 'vec' and f.a[0] is None:
            for e in f.a[1]:
                self.field(n, e)
        elif f.t == 'vec' or f.t in ('uf', 'sym') and is_vec_ty(I.vty(f) or ()):
            self.problems.append('a list that is %s' % show(f)[:80])
        elif f.t == 'uf' and f.a[0] == 'regex':
            n.regex = f.a[1][0].a[0]
        elif f.t == 'clo':
            n.closures.append(f)
        elif f.t == 'box':
            self.field(n, f.a[0])
        elif f.t in ('ref', 'vref'):
            self.field(n, I.load(st, f))
        elif f.t in ('uf', 'sym') and I.vty(f) in (STRING, STR):
            n.texts.append(f)
        elif f.t == 'adt':
            short = f.a[0][1].split('::')[-1]
            if short == 'MatchAction':
                n.action = I.p.adts[f.a[0][1]][1]['v'][f.a[1]]['n']
            elif short == 'Option' and f.a[2]:
                self.field(n, f.a[2][0])
            elif short == 'Range':
                n.ends = f.a[2]
                n.range = (const_of(f.a[2][0]), const_of(f.a[2][1]))
            elif f.a[0][1].startswith(A):
                for g in f.a[2]:
                    self.field(n, g)

    def is_matcher(self, x):
        while x.t in ('cell', 'box'):
            x = x.a[0]
        return x.t == 'adt' and self.I.p.implements(MATCHER, x.a[0])

    def name(self, n):
        """what the matcher says it is called"""
        I = self.I
        key, env = I.p.resolve(MATCHER, 'get_name', n.val.a[0])
        for st, v in I.call_body(self.st.copy(), I.p.bodies[key], env, [mk('ref', n.root, ('c', '*'))], None, None):
            return text(I, st, v)

    def absorbs(self, n):
        """does a handler of this matcher turn a failure into success"""
        I = self.I
        for f in n.closures:
            b = I.p.bodies.get(f.a[0])
            if b is None:
                return True
            for i in range(2, b.argc + 1):
                t = I.p.ty(b.crate, b.locals[i], ())
                if t == policy.FAILURE:
                    args = [mk('adt', t, FAIL, ()) if j == i else I.sym('h%d' % j, I.p.ty(b.crate, b.locals[j], ())) for j in range(2, b.argc + 1)]
                    for st, v in I.call_value(self.st.copy(), None, None, f, args, policy.RESULT):
                        if v.t != 'adt' or v.a[1] == OK:
                            return True
        return False

    def complains(self, n):
        """can a handler of this matcher answer an error token in place of what was matched"""
        seen, todo = set(), [f.a[0] for f in n.closures]
        while todo:
            k = todo.pop()
            b = self.I.p.bodies.get(k)
            if k in seen or b is None:
                continue
            seen.add(k)
            if k.startswith(A + 'matchers::error::'):
                return True
            for bb in b.blocks:
                t = bb and bb[-1]
                if t and t[0] == 'call' and t[1][0] == 'k':
                    f = self.I.p.ty(b.crate, t[1][1]['t'], ())
                    if f[0] == 'fndef' and f[1].startswith(A):
                        todo.append(f[1])
        return False

    def variables(self, v):
        """name -> matcher, for every variable bound to one in what v leads to"""
        out, seen, todo = {}, set(), [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo += x
                continue
            if not isinstance(x, type(v)) or x in seen:
                continue
            seen.add(x)
            if x.t == 'map':
                for k, w in x.a[0]:
                    if w.t == 'adt' and w.a[0][1].split('::')[-1] == 'VariableType' and w.a[2] and w.a[2][0].t == 'rc' and text(self.I, self.st, k):
                        out[text(self.I, self.st, k)] = w.a[2][0]
            if x in self.st.cells:
                todo.append(self.st.cells[x])
            todo += [y for y in x.a if isinstance(y, (tuple, type(v)))]
        return out


def width(pattern):
    """least width of a match, None when the pattern cannot be read here"""
    try:
        return sre.parse(pattern).getwidth()[0]
    except Exception:           # noqa: a construct of the regex crate that Python does not know
        return None


INF = 1 << 40
ZERO = {'NullPattern': 'st', 'RegisterPattern': 's', 'FetchPattern': 'st', 'FlattenPattern': 'st', 'ErrorPattern': 't'}
NEVER = ('EqualsPattern', 'SequencePattern', 'BreakPattern', 'PanicPattern')


class Zero:
    """least fixpoint: how a matcher can succeed without consuming, 's' by a skip and 't' with a token"""

    def __init__(self, g, refs):
        self.g, self.refs = g, refs
        self.z = {n: '' for n in g.nodes.values()}
        while any([self.step(n) for n in list(self.z)]):
            pass

    def step(self, n):
        new = ''.join(sorted(set(self.z[n]) | set(self.of(n))))
        if new == self.z[n]:
            return False
        self.z[n] = new
        return True

    def seq(self, cs):
        zs = [self.z[c] for c in cs]
        if not all(zs):
            return ''
        return ('t' if any('t' in z for z in zs) else '') + ('s' if all('s' in z for z in zs) else '')

    def of(self, n):
        k, c = n.kind, n.children
        if k in ZERO:
            return ZERO[k]
        if k in NEVER:
            return ''
        if k == 'MatchesPattern':
            return 's' if n.regex is None or width(n.regex) in (0, None) else ''
        if k == 'ProgramPattern':
            if n.action == 'Stop':
                return 't' if any('t' in self.z[x] for x in c) else ''
            # a sequence in which nothing was kept fails; a loop may then be skipped
            return ('t' if 't' in self.seq(c) else '') + ('s' if n.range is not None and n.range[0] in (0, None) else '')
        if k == 'PinPattern':
            return 'st'
        if k == 'RefPattern':
            return ''.join(self.z[x] for x in self.refs(n))
        z = ''.join(self.z[x] for x in c)
        if k == 'DiscardPattern':
            return 's' if z else ''
        if k in ('OptionalPattern', 'NotPattern', 'CatchPattern'):
            return z + 's'
        if k == 'MapPattern':
            return z + ('s' if self.g.absorbs(n) else '')
        if k == 'StorePattern':
            return 'st' if z or not c else ''
        return z or ('' if c else 'st')

    def left(self, n):
        """the matchers n may execute where it was executed itself"""
        if n.kind == 'RefPattern':
            return self.refs(n)
        if n.kind == 'ProgramPattern' and n.action != 'Stop':
            out = []
            for c in n.children:
                out.append(c)
                if not self.z[c]:
                    break
            return out
        return n.children


def grammar(u, R=None):
    """(graph, root, registered matchers by name) for each parse the program starts"""
    for s in u.steps:
        if s.kind == 'm.parse':
            g = Graph(u, s.st)
            root = g.node(s.ev.a[1][1])
            reg = {k: g.node(v) for k, v in g.variables(s.ev.a[1][0]).items()}
            yield g, root, reg, s


def terminates(u, R):
    """C26"""
    for g, root, reg, s in grammar(u):
        for p in g.problems:
            R.verdict(None, 'the grammar: ' + p, '')
        called = {}
        for n in list(g.nodes.values()):
            called.setdefault(g.name(n), []).append(n)
        Z = Zero(g, lambda n: [t for x in n.strings if x != g.name(n) for t in ([reg[x]] if x in reg else called.get(x, ()))])
        seen, path = {}, []

        def show_node(n):
            return '%s `%s`' % (n.kind.replace('Pattern', ''), g.name(n) or n.regex or ' '.join(n.strings))

        def walk(n):
            seen[n] = 1
            path.append(n)
            for c in Z.left(n):
                if seen.get(c) == 1:
                    cyc = path[path.index(c):]
                    names = [show_node(x) for x in cyc]
                    R.verdict(False, 'left recursion through ' + ', '.join(sorted({x for x in names if 'Ref' not in x})[:3]),
                              'a matcher of the script grammar runs itself again without having consumed anything: ' + ' > '.join(names + names[:1]))
                elif c not in seen:
                    walk(c)
            path.pop()
            seen[n] = 2
            if not any(seen.get(c) == 1 for c in Z.left(n)):
                R.verdict(True, 'runs itself only after consuming', '')
        for n in list(g.nodes.values()):
            if n not in seen:
                walk(n)
        R.count('matchers of the grammar', len(seen))
        for n in seen:
            if n.kind == 'ProgramPattern' and n.range is not None and (n.range[1] is None or n.range[1] > INF):
                z = Z.seq(n.children)
                R.verdict(not z, 'unbounded repetition in %s' % show_node(n),
                          '%s repeats without bound what can match nothing: each of %s can succeed without consuming' %
                          (show_node(n), ', '.join(show_node(c) for c in n.children)))


# ---------------------------------------------------------------- what the grammar can produce
class Tok:
    """a token the grammar can produce"""

    def __init__(self, name, kids):
        self.name, self.kids, self.text, self.noted = name, kids, None, None
        self._show = name + ('(%s)' % ' '.join(k._show for k in kids) if kids else '')
        self._wrong = name == 'Error' or any(k._wrong for k in kids)
        self._size = 1 + sum(k._size for k in kids)

    def copy(self):
        return Tok(self.name, [k.copy() for k in self.kids])

    def show(self):
        return self._show

    def wrong(self):
        return self._wrong

    def size(self):
        return self._size

    def find(self, *names):
        for k in self.kids:
            if k.name in names:
                return k


BULKY = 16      # the fullest forms of a part are kept below this many tokens: what is inside has shapes of its own


def bulk(o):
    return sum(t.size() for t in o[0])


class Shapes:
    """a covering set of the answers of each matcher: (tokens handed to the parent, label of a Break or None).

    Every alternative, every optional part present and absent, loops with one and two rounds, recursion to a fixed depth;
    the parts of a sequence vary one at a time, around the leanest and the fullest form."""

    def __init__(self, g, reg, depth=2):
        self.g, self.reg, self.max, self.memo, self.unknown = g, reg, depth, {}, set()

    def of(self, n, d=0):
        k = (n, d)
        if k not in self.memo:
            self.memo[k] = []
            out, seen = [], set()
            for toks, brk in self.make(n, d):
                w = (tuple(t.show() for t in toks), brk)
                if w not in seen:
                    seen.add(w)
                    out.append((toks, brk))
            if d:
                # what recursion answers, by what it has: one of each
                fine, out, seen = sorted(out, key=bulk), [], set()
                for o in fine:
                    f = {(o[1], tuple(t.name for t in o[0]))}
                    for t in o[0]:
                        features(t, (), f)
                    if not f <= seen:
                        seen |= f
                        out.append(o)
                if fine and fine[-1] not in out:
                    out.append(fine[-1])
            self.memo[k] = out
        return self.memo[k]

    def seq(self, cs, d):
        """answers of a sequence: (tokens, label, whole)"""
        os = [self.of(c, d) for c in cs]
        most = lambda o: -1 if bulk(o) > BULKY else bulk(o)
        size = lambda o: (any(t.wrong() for t in o[0]) != (base is max), most(o) if base is max else bulk(o))
        done, base = [], min
        for i, o in enumerate(os):
            if not o:
                os = os[:i]         # this part never succeeds
                break
        full = len(os) == len(cs)
        plain = [[x for x in o if x[1] is None] for o in os]
        top = lambda x: tuple((t.name, t.find(*MAKERS).name if t.find(*MAKERS) else '') for t in x[0])
        kinds = [list({top(x): x for x in sorted(o, key=size, reverse=True) if x[1] is None}.values()) for o in os]
        if full and all(plain) and len([k for k in kinds if len(k) > 1]) > 1:
            # any two of the parts that vary, the others as lean as can be
            lean = [min(p, key=size) for p in plain]
            for i in range(len(cs)):
                for j in range(i + 1, len(cs)):
                    for x in kinds[i] if len(kinds[j]) > 1 else ():
                        for y in kinds[j] if len(kinds[i]) > 1 else ():
                            row = lean[:i] + [x] + lean[i + 1:j] + [y] + lean[j + 1:]
                            done.append((tuple(t for r in row for t in r[0]), None))
        for base in (min, max):
            for i, o in enumerate(os):
                for x in o if base is min else {min(o, key=size), max(o, key=size)}:
                    row = []
                    for j, p in enumerate(plain):
                        if j == i:
                            row.append(x)
                        elif p:
                            row.append(base(p, key=size))
                        else:
                            row.append(base(os[j], key=size))
                        if row[-1][1] is not None:
                            break
                    brk = row[-1][1]
                    if brk is None and not full:
                        continue
                    done.append((tuple(t for r in row for t in r[0]), brk))
        return done

    def name(self, n):
        return self.g.name(n) or '?'

    def make(self, n, d):
        k, c = n.kind, n.children
        if k in ('EqualsPattern', 'SequencePattern'):
            return [((Tok(self.name(n), ()),), None)]
        if k == 'MatchesPattern':
            return [((Tok(self.name(n), ()),), None)] + ([((), None)] if width(n.regex or '') == 0 else [])
        if k == 'BreakPattern':
            return [((), n.strings[0] if n.strings else '')]
        if k == 'DiscardPattern':
            return [((), b) for _, b in self.of(c[0], d)]
        if k == 'OptionalPattern':
            return self.of(c[0], d) + [((), None)]
        if k == 'NotPattern' or k == 'PinPattern' and not c or k in ('NullPattern', 'RegisterPattern'):
            return [((), None)]
        if k == 'MapPattern':
            return ([((), None)] if self.g.absorbs(n) else self.of(c[0], d)) + ([((Tok('Error', ()),), None)] if self.g.complains(n) else [])
        if k in ('PinPattern', 'StorePattern', 'DebugPattern', 'SetScopePattern', 'CatchPattern') and len(c) == 1:
            return self.of(c[0], d)
        if k == 'ProxyChildrenPattern':
            return [(tuple(x for t in ts for x in t.kids), b) for ts, b in self.of(c[0], d)]
        if k == 'RefPattern':
            return [o for t in n.strings if t in self.reg for o in self.of(self.reg[t], d + 1)] if d < self.max else []
        if k == 'ProgramPattern':
            nm = self.name(n)
            if n.action == 'Stop':
                return [o for x in c for o in self.of(x, d)]
            one = self.seq(c, d)
            if n.range is None:
                return [((Tok(nm, ts),), b) for ts, b in one if ts]
            out = [((), None)] if n.range[0] == 0 else []
            go = [o for o in one if o[1] is None]
            fine = [o for o in go if not any(t.wrong() for t in o[0])] or go
            small = min(fine, key=bulk, default=None)
            big = max([o for o in fine if bulk(o) <= BULKY], key=bulk, default=small)
            for ts, b in one:
                own = b is None or b in ('', nm)
                if ts:
                    out.append(((Tok(nm, ts),), None if own else b))
            for x, y in ((big, small), (small, big)):
                if x and y and x[0] and y[0]:
                    out.append(((Tok(nm, x[0] + y[0]),), None))
            for b in {b for ts, b in one if b is not None}:         # left by a Break after a full round
                if big and big[0]:
                    out.append(((Tok(nm, big[0]),), None if b in ('', nm) else b))
            return out
        self.unknown.add(k)
        return []


MAKERS = ('EqualsMatcher', 'RegexMatcher', 'SequenceMatcher', 'CustomMatcher', 'SwitchMatcher', 'ProgramMatcher')


def features(t, up=(), out=None):
    """what of a tree decides which code it reaches"""
    out = set() if out is None else out
    out.add((t.name, tuple(k.name for k in t.kids)))
    if t.name in MAKERS and not t.wrong():
        # which kind of pattern, in what kind of place
        out.add(('kind', t.name) + tuple(u.name for u in up[:4]) + tuple(k.name for k in (up[1].kids if len(up) > 1 else ()) if k.name == 'MatcherName'))
    out.add((up[0].name if up else '', t.name, bool(t.kids)))
    for k in t.kids:
        features(k, (t,) + up, out)
    return out


def cover(shapes):
    """few of the shapes with every feature of all of them, the small ones first"""
    todo, out = set().union(*[features(t) for t in shapes]) if shapes else set(), []
    for t in sorted(shapes, key=lambda t: t.size()):
        f = features(t)
        if f & todo:
            todo -= f
            out.append(t)
    return out


def sharded(n, of, base, every=False):
    """a policy that continues with every of-th shape of a script, beginning at n"""
    class P(base):
        shard, all = (n, of), every
    return P


class CompilePolicy(GrammarPolicy):
    """parsing answers each tree the grammar can produce in turn, with opaque text and ranges"""
    shard, all = (0, 1), False

    def parsed(self, I, c):
        class U:
            pass
        u = U()
        u.I = I
        g = Graph(u, c.st)
        root = g.node(c.args[1])
        reg = {k: g.node(v) for k, v in g.variables(c.args[0]).items()}
        sh = Shapes(g, reg)
        every = [t for ts, b in sh.of(root) for t in ts if b is None]
        self.shapes = sorted(every if self.all else cover(every), key=lambda t: t.size())
        self.unknown = sh.unknown
        self.trees = {}
        out = []
        for i, t in enumerate(self.shapes):
            if i % self.shard[1] != self.shard[0]:
                continue
            t = t.copy()
            self.trees[i] = t
            self.n = 0
            st = c.st.copy()
            st.ghost['shape'] = N(i)
            st, v = self.build(I, st, c.args[0], t, i)
            out.append((st, mk('adt', c.ret, 0, (v,))))
        return out

    def build(self, I, st, ctx, t, i):
        kids = []
        for k in t.kids:
            st, v = self.build(I, st, ctx, k, i)
            kids.append(v)
        body = I.p.bodies['witness::script::token']
        ty = lambda k: I.p.ty(body.crate, body.locals[k])
        self.n += 1
        cap, mat = I.sym('%s%d' % (t.name, self.n), ty(3)), I.sym('%s%d.matched' % (t.name, self.n), ty(4))
        (st, v), = I.call_body(st, body, (), [ctx, mk('vref', mk('str', t.name)), cap, mat, mk('vec', None, tuple(kids))], None, ('shape', i, self.n))
        t.text = I.uf('rangetext', (self.parser(I, st, ctx), cap), STRING)
        if t.name == 'Error':
            t.noted = I.sym('message%d' % self.n, STRING)
            (st, v), = I.call_body(st, I.p.bodies['witness::script::noted'], (), [v, mk('vref', mk('str', '__message')), t.noted], None, ('note', i, self.n))
        if t.name == 'AdextopaScope' and t.find('Attributes'):
            t.noted = I.sym('root name', STRING)
            (st, v), = I.call_body(st, I.p.bodies['witness::script::noted'], (), [v, mk('vref', mk('str', 'name')), t.noted], None, ('note', i, self.n))
        return st, v

    def parser(self, I, st, ctx):
        root, _ = I.deref_loc(st, ctx)
        return I.read(st, root, ('c', ('f', self.ctx_field(I, 'parser'))))


class ImportPolicy(CompilePolicy):
    """compiling files: canonical paths are the constants /0, /1, ...; which file an import leads to and what is in each is the scenario.

    Reading and resolving may also fail."""

    scenario = None         # file -> (index of its tree among those with imports or None, files its imports lead to)
    locals = None

    def site(self, st, site):
        f = st.ghost.get('files')
        return (site, f) if f else site

    def intercept(self, I, c):
        from models import val
        n = c.name
        short = n.split('::')[-1]
        if n.startswith('std::thread::local::LocalKey::') or n.startswith('std::thread::LocalKey::'):
            return self.local(I, c, short)
        if n.startswith('std::path::') or n.startswith('std::borrow::Cow::') or n.startswith('alloc::borrow::Cow::'):
            if short in ('new', 'to_path_buf', 'to_string_lossy', 'into_owned', 'display', 'as_path', 'to_owned', 'clone', 'deref', 'as_ref', 'as_os_str', 'from'):
                return [(c.st, self.held(c, val(c, 0)))]
            if short == 'to_str':
                return [(c.st, mk('adt', c.ret, 1, (mk('vref', val(c, 0)),)))]
            if short == 'parent':
                return [(c.st, mk('adt', c.ret, 1, (mk('vref', I.uf('dir', (val(c, 0),), STR)),)))]
            if short == 'join':
                return [(c.st, I.uf('join', (val(c, 0), val(c, 1)), STRING))]
            if short == 'canonicalize':
                return self.resolved(I, c, val(c, 0))
        if short in ('from', 'into') and c.ret[:2] == ('adt', 'std::path::PathBuf'):
            return [(c.st, val(c, 0))]
        if n in ('std::fs::canonicalize',):
            return self.resolved(I, c, val(c, 0))
        if n == 'std::fs::read_to_string':
            return self.fork(I, c, I.uf('contents', (val(c, 0),), STRING))
        return super().intercept(I, c)

    def held(self, c, v):
        return mk('vref', v) if c.ret[0] == 'ref' else v

    def fork(self, I, c, v):
        bad = c.st.copy()
        bad.ghost['io'] = N(1)
        return [(c.st, mk('adt', c.ret, 0, (v,))), (bad, mk('adt', c.ret, 1, (I.sym('io', c.ret[3]),)))]

    def local(self, I, c, short):
        """thread-locals, told apart by their type"""
        ty = c.argtys[0][2]
        root = mk('H', 'new', ('local', repr(ty)), 0)
        st, held = c.st, 'local ' + repr(ty)
        if root not in st.cells:
            fn = [k for k in I.p.bodies if k.endswith('::__rust_std_internal_init_fn') and I.p.ty(I.p.bodies[k].crate, I.p.bodies[k].locals[0]) == ty[2]]
            if len(fn) != 1:
                return None
            (st, v), = I.call_body(st, I.p.bodies[fn[0]], (), [], c.fr, c.bb)
            st.cells[root] = v
            st.ghost[held] = mk('ref', root, ())
        if short == 'with':
            return I.call_value(st, c.fr, c.bb, c.args[1], [mk('ref', root, ())], c.ret)
        if short in ('with_borrow', 'with_borrow_mut'):
            return I.call_value(st, c.fr, c.bb, c.args[1], [mk('ref', root, ('c',))], c.ret)
        return None

    def resolved(self, I, c, p):
        if p.t == 'str' and p.a[0].startswith('/'):
            return [(c.st, mk('adt', c.ret, 0, (p,)))]
        todo = [p]
        while todo:
            x = todo.pop()
            if x in getattr(self, 'paths', ()):
                return self.fork(I, c, mk('str', '/%d' % self.paths[x]))
            todo += [z for y in x.a for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, V_)]
        return self.fork(I, c, mk('str', '/0'))

    def file(self, I, st, ctx):
        """the file that is being parsed"""
        p = self.parser(I, st, ctx)
        root, _ = I.deref_loc(st, p)
        todo, seen = [st.cells[root]], set()
        while todo:
            x = todo.pop()
            if x.t == 'uf' and x.a[0] == 'contents' and x.a[1][0].t == 'str':
                return int(x.a[1][0].a[0][1:])
            todo += [z for y in x.a for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, V_)]
        return None

    def parsed(self, I, c):
        if not hasattr(self, 'paths'):
            self.paths, self.trees = {}, {}
        f = self.file(I, c.st, c.args[0])
        done = c.st.ghost.get('files', ())
        if f is None or done.count(f) > 2:
            return []
        if not hasattr(self, 'every'):
            class U:
                pass
            u = U()
            u.I = I
            g = Graph(u, c.st)
            sh = Shapes(g, {k: g.node(v) for k, v in g.variables(c.args[0]).items()})
            root = g.node(c.args[1])
            self.every = sorted([t for ts, b in sh.of(root) for t in ts if b is None], key=lambda t: t.size())
            self.unknown = sh.unknown
        out = []
        for i, t in enumerate(self.scenario[f][0](self.every, done.count(f))):
            t = t.copy()
            st = c.st.copy()
            st.ghost['files'] = done + (f,)
            k = (f, len(done), i)
            st.ghost['forms'] = st.ghost.get('forms', ()) + (k,)
            self.trees[k] = t
            self.n = 1000 * f + 100000 * len(done)
            st, v = self.build(I, st, c.args[0], t, k)
            for p, to in zip([x.find('Path') for x in within(t, 'ImportStatement')], self.scenario[f][1]):
                self.paths[p.text] = to
            out.append((st, mk('adt', c.ret, 0, (v,))))
        return out


V_ = type(mk('sym', 'x', (), STRING))


def within(t, name):
    """the tokens of a kind in a tree"""
    return ([t] if t.name == name else []) + [x for k in t.kids for x in within(k, name)]


def importing(n, most=99):
    """the smallest trees with n imports, one for each way their identifiers can be written"""
    def pick(every, time):
        seen, out = set(), []
        for t in every:
            m = within(t, 'ImportStatement')
            if len(m) == 1 and not t.wrong():
                for _ in range(1, n):           # the same once more: statements are the rounds of a loop
                    t = t.copy()
                    up = within(t, 'Scope')[0]
                    up.kids = list(up.kids) + [k.copy() for k in up.kids if k.name == 'ImportStatement'][:1]
                k = tuple(x.find('ImportIdentifiers').show() if x.find('ImportIdentifiers') else '' for x in m)
                if k not in seen:
                    seen.add(k)
                    out.append(t)
        return out[:most]
    return pick


def defining(every, time):
    """the smallest tree that binds a name and imports nothing"""
    return [t for t in every if within(t, 'AssignmentExpression') and not within(t, 'ImportStatement') and not t.wrong()][:1]


def broken(every, time):
    """an error the first time, then as above"""
    return defining(every, time) if time else [t for t in every if within(t, 'Error') and t.name == 'Script'][:1]


def scene(**files):
    """a policy with these files: file0=(what is in it, what its imports lead to), ..."""
    class P(ImportPolicy):
        scenario = {int(k[4:]): v for k, v in files.items()}
    return P
