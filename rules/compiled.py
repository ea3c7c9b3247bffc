"""What a script is compiled to, for each tree its grammar can produce."""
from common import *
from grammar import MAKERS, Graph, CompilePolicy, sharded, scene, importing, defining, broken, within
import grammar

USIZE_MAX = (1 << 64) - 1
V_ = type(N(0))


def inside(v, x):
    """does the term v mention x"""
    todo, seen = [v], set()
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if isinstance(y, tuple):
            todo += y
        elif isinstance(y, type(x)) and y not in seen:
            seen.add(y)
            todo += [z for z in y.a if isinstance(z, (tuple, type(x)))]
    return False


def first(v, xs):
    """those of xs that v mentions, in the order they come"""
    out, todo = [], [v]
    while todo:
        y = todo.pop()
        if any(y is x for x in xs):
            out.append([i for i, x in enumerate(xs) if y is x][0])
        elif isinstance(y, tuple):
            todo += reversed(y)
        elif isinstance(y, type(xs[0])):
            todo += reversed([z for z in y.a if isinstance(z, (tuple, type(xs[0])))])
    return out


def entries(v):
    """key and value of every binding of a map"""
    if v.t == 'map':
        return list(v.a[0])
    if v.t == 'mapset':
        return [e for e in entries(v.a[0]) if e[0] is not v.a[1]] + [(v.a[1], v.a[2])]
    return []


def maps(st, v):
    """the maps v leads to, not through what they bind"""
    out, seen, todo = [], set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, type(v)) and x not in seen:
            seen.add(x)
            if x.t in ('map', 'mapset'):
                out.append(x)
                continue
            if x in st.cells:
                todo.append(st.cells[x])
            todo += [y for y in x.a if isinstance(y, (tuple, type(v)))]
    return out


def plain(st, v):
    """is all that v holds texts and maps of them"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, type(v)) and x not in seen:
            seen.add(x)
            if x.t in ('map', 'mapset'):
                continue
            if x.t in ('vec', 'tup') or x.t in ('uf', 'sym'):
                return False
            if x in st.cells:
                todo.append(st.cells[x])
            todo += [y for y in x.a if isinstance(y, (tuple, type(v)))]
    return True


def lost(s):
    """does what is known of this path, or its answer, rest on a call the analysis has no meaning for"""
    todo, seen = [s.val if s.val is not None else (), tuple(s.st.facts), tuple(s.st.cons)], set()
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset, list)):
            todo += x
        elif isinstance(x, V_) and x not in seen:
            seen.add(x)
            if x.t == 'sym' and x.a[0] == 'unk':
                return True
            if x in s.st.cells:
                todo.append(s.st.cells[x])
            todo += [y for y in x.a if isinstance(y, (tuple, V_))]
    return False


class Same:
    """compares a compiled matcher with what the script asks for; raises Wrong at the first difference"""

    class Wrong(Exception):
        pass

    def __init__(self, u, s, files=()):
        self.u, self.s, self.g, self.done, self.files = u, s, Graph(u, s.st), 0, list(files)

    def wrong(self, what, n, msg):
        raise self.Wrong(what, msg + ', but it is compiled to %s' % self.show(n))

    def show(self, n, d=0):
        k = n.kind.replace('Pattern', '')
        if k == 'Program':
            k = 'Switch' if n.action == 'Stop' else 'Loop' if n.range is not None else 'Program'
        return k + ('(%s)' % ', '.join(self.show(c, d + 1) for c in n.children) if n.children and d < 6 else '')

    def kind(self, n, kind, tok, why):
        self.done += 1
        if n.kind == '?' or self.g.problems:
            raise KeyError(n)
        if n.kind != kind + 'Pattern':
            self.wrong('%s: %s' % (tok.name, why), n, 'the script has %s, for which %s is expected' % (why, kind))
        return n

    def pattern(self, n, tok):
        """a child of a group or of the script itself"""
        if tok.name == 'PatternDefinitionCaptured':
            self.definition(n, tok.find('PatternDefinition'))
        else:
            self.definition(self.one(self.kind(n, 'Discard', tok, 'a pattern that is not captured'), tok), tok)

    def one(self, n, tok):
        if len(n.children) != 1:
            self.wrong('%s: %s has one pattern' % (tok.name, n.kind), n, 'one pattern is expected')
        return n.children[0]

    def modifier(self, n, tok, where):
        if tok.find(where + 'OptionalModifier'):
            return self.one(self.kind(n, 'Optional', tok, where.lower() + ' ?'), tok)
        if tok.find(where + 'NotModifier'):
            return self.one(self.kind(n, 'Not', tok, where.lower() + ' !'), tok)
        return n

    def definition(self, n, tok):
        n = self.modifier(n, tok, 'Outer')
        r = tok.find('RepeatZeroOrMore', 'RepeatOneOrMore', 'RepeatRange')
        if r:
            self.kind(n, 'Program', tok, r.name)
            if n.range is None or n.action == 'Stop':
                self.wrong(r.name, n, 'the script has %s, for which a loop is expected' % r.name)
            self.bounds(n, r)
            n = self.one(n, tok)
        n = self.modifier(n, tok, 'Inner')
        a = tok.find('Attributes')
        if a and a.kids:
            self.kind(n, 'Map', tok, 'attributes')
            have = [e for c in n.closures for m in maps(self.s.st, c) for e in entries(m)]
            for x in a.kids:
                k, v = x.kids[0].text, x.kids[1].text
                if not any(f is k and w is v for f, w in have) and not all(plain(self.s.st, c) for c in n.closures):
                    raise KeyError(n)       # held in some other way
                self.done += 1
                if not any(f is k and w is v for f, w in have):
                    self.wrong('attributes: names and values', n, 'an attribute of the script is not among those set on the token')
            n = self.one(n, tok)
        self.inner(n, tok.find(*MAKERS))

    def bounds(self, n, r):
        lo, hi = n.ends
        least, most = {'RepeatZeroOrMore': (0, USIZE_MAX), 'RepeatOneOrMore': (1, USIZE_MAX)}.get(r.name, (None, None))
        if r.name == 'RepeatRange':
            if r.find('Seperator'):
                least, most = r.find('Minimum').text, r.find('Maximum').text if r.find('Maximum') else USIZE_MAX
            else:
                least, most = None, r.find('Minimum').text      # `{n}`: at most n
        for what, x, y in (('lower', lo, least), ('upper', hi, most)):
            if y is None:
                continue
            self.done += 1
            good = const_of(x) == y if isinstance(y, int) else inside(x, y) and const_of(x) is None
            if not good:
                if const_of(x) is None and isinstance(y, int) and not inside(x, r.text) and not any(k.text is not None and inside(x, k.text) for k in r.kids):
                    raise KeyError(x)
                self.wrong('%s: %s bound' % (r.name, what), n, 'the %s bound of the loop is %s instead of %s' % (what, show(x)[:60], 'what is written' if not isinstance(y, int) else y if y < 9 else 'unbounded'))

    def text(self, n, tok, want, what):
        """the matcher holds these texts, in this order"""
        self.done += 1
        have = [t for t in n.texts if any(inside(t, w) for w in want)]
        if len(have) != len(want) or not all(inside(h, w) for h, w in zip(have, want)):
            if any(t.t not in ('uf', 'sym') for t in n.texts) or len(n.texts) > len(have) + 1:
                raise KeyError(n)
            self.wrong('%s: text' % tok.name, n, '%s of the matcher is not what the script says' % what)

    def inner(self, n, tok):
        k = tok.name
        if k == 'EqualsMatcher':
            self.text(self.kind(n, 'Equals', tok, '='), tok, [tok.kids[0].text], 'the text to look for')
        elif k == 'RegexMatcher':
            self.kind(n, 'Matches', tok, 'a regular expression')
            self.done += 1
            flags = tok.find('Flags')
            want = ([flags.text] if flags else []) + [tok.text]
            got = [first(x, want) for x in n.val.a[2]]
            got = max(got, key=len, default=[])
            if got != list(range(len(want))):
                self.wrong('RegexMatcher: expression', n, 'the regular expression is not the one written' if tok.text is None or len(want) - 1 not in got else 'the flags of the regular expression are lost or not before it')
        elif k == 'SequenceMatcher':
            self.kind(n, 'Sequence', tok, '%')
            self.text(n, tok, [x.text for x in tok.kids[:3]], 'start, end or escape')
        elif k == 'CustomMatcher':
            self.text(self.kind(n, 'Ref', tok, 'an identifier'), tok, [tok.kids[0].text], 'the name referred to')
        else:
            if not tok.kids:
                self.kind(n, 'Null', tok, 'an empty group')
                return
            self.kind(n, 'Program', tok, k)
            if (n.action == 'Stop') != (k == 'SwitchMatcher') or n.range is not None:
                self.wrong(k, n, 'the script has %s' % ('alternatives' if k == 'SwitchMatcher' else 'a sequence'))
            self.list(n, tok, tok.kids)

    def list(self, n, tok, kids):
        self.done += 1
        if len(n.children) != len(kids):
            self.wrong('%s: number of patterns' % tok.name, n, '%d patterns are written' % len(kids))
        for c, k in zip(n.children, kids):
            self.pattern(c, k)

    def script(self, v, tok, name, renamed=None):
        n = self.g.node(v)
        if self.g.problems:
            raise KeyError(n)
        self.kind(n, 'Program', tok, 'a script')
        scope = self.kind(self.one(n, tok), 'SetScope', tok, 'a scope of its own')
        body = self.one(self.kind(self.one(scope, tok), 'ProxyChildren', tok, 'a transparent group'), tok)
        self.kind(body, 'Program', tok, 'a sequence of patterns')
        head, main = tok.find('AdextopaScope'), tok.find('PatternScope')
        self.list(body, main or tok, [k for k in (main.kids if main else ()) if k.name.startswith('PatternDefinition')])
        self.done += 1
        want = renamed or (head.noted if head and head.noted is not None else name)
        if not any(t is want or inside(t, want) for t in n.texts):
            self.wrong('name of the root', n, 'the root matcher is not called what %s' % ('its name attribute says' if want is not name else 'was asked for'))
        self.bindings(scope, head.find('Scope') if head else None, tok)

    def bindings(self, scope, tok, script):
        have = {}
        for f in scope.val.a[2]:
            if f.t == 'adt' or f.t == 'rc' and not self.g.is_matcher(self.s.st.cells.get(self.u.I.deref_loc(self.s.st, f)[0], f)):
                for m in maps(self.s.st, f):
                    for k, v in entries(m):
                        have[k] = v
        want = [k for k in (tok.kids if tok else ()) if k.name == 'AssignmentExpression']
        for a in want:
            k = a.kids[0].text
            self.done += 1
            if k not in have:
                self.wrong('AssignmentExpression: binding', scope, 'a name the script assigns is not bound')
            v = have.pop(k)
            if v.t != 'adt' or not v.a[2] or v.a[2][0].t != 'rc':
                raise KeyError(v)
            n = self.g.node(v.a[2][0])
            if a.kids[1].name == 'Identifier':
                self.text(self.kind(n, 'Ref', a, 'another name'), a, [a.kids[1].text], 'the name referred to')
            else:
                self.definition(n, a.kids[1])
        for a in tok.kids if tok else ():
            if a.name == 'ImportStatement':
                self.imported(a, have, scope)
        if have:
            self.wrong('AssignmentExpression: other bindings', scope, 'a name is bound that the script does not assign')


    def imported(self, a, have, scope):
        if not self.files:
            raise KeyError(a)
        tree = self.files.pop(0)
        made = [k for k in within(tree, 'AssignmentExpression')]
        ids = [(x.find('ImportName').text, (x.find('ImportAsName') or x.find('ImportName')).text) for x in a.find('ImportIdentifiers').kids]
        for i, (name, under) in enumerate(ids):
            if any(same(self.s, under, u) for _, u in ids[i + 1:]):
                have.pop(under, None)
                continue            # bound again under the same name
            self.done += 1
            key = next((k for k in have if k is under), None) or next((k for k in have if same(self.s, k, under)), under)
            if key not in have:
                self.wrong('ImportStatement: binding', scope, 'a name that is imported is not bound under the name given')
            v = have.pop(key)
            if v.t != 'adt' or not v.a[2] or v.a[2][0].t != 'rc':
                raise KeyError(v)
            if same(self.s, name, mk('str', '_')):
                if under is name or same(self.s, under, mk('str', '_')):
                    self.wrong('ImportStatement: unnamed root', scope, 'the root pattern of another file is imported without a name and without an error')
                self.script(v.a[2][0], tree, None, under)
                continue
            src = [d for d in made if same(self.s, d.kids[0].text, name)]
            if not src:
                self.wrong('ImportStatement: unknown name', scope, 'a name the imported file does not define is imported without an error')
            n = self.kind(self.g.node(v.a[2][0]), 'SetScope', a, 'an imported name')
            self.bindings(n, tree.find('AdextopaScope').find('Scope'), tree)
            n = self.kind(self.one(n, a), 'Map', a, 'an imported name')
            self.done += 1
            if not any(reaches(self.s.st, c, under) or reaches(self.s.st, c, key) for c in n.closures):
                self.wrong('ImportStatement: name of the token', n, 'what an imported pattern finds is not called by the name it is imported under')
            n = self.one(n, a)
            if src[-1].kids[1].name == 'Identifier':
                self.text(self.kind(n, 'Ref', a, 'another name'), a, [src[-1].kids[1].text], 'the name referred to')
            else:
                self.definition(n, src[-1].kids[1])


def same(s, x, y):
    """are two texts known to be the same on this path"""
    return x is y or s.st.facts.get(mk('streq', *sorted((x, y)))) is True


def other(s, x, y):
    return x is not y and (x.t == y.t == 'str' or s.st.facts.get(mk('streq', *sorted((x, y)))) is False)


def reaches(st, v, x):
    seen, todo = set(), [v]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if isinstance(y, tuple):
            todo += y
        elif isinstance(y, V_) and y not in seen:
            seen.add(y)
            if y in st.cells:
                todo.append(st.cells[y])
            todo += [z for z in y.a if isinstance(z, (tuple, V_))]
    return False


def shapes(u):
    """(number, tree, what ends it) of every tree that was compiled"""
    for i, t in sorted(u.pol.trees.items()):
        yield i, t, [s for s in u.steps if s.st.ghost.get('shape') is N(i) and s.kind in ('ret', 'panic')]


def imports(t):
    return t.name == 'ImportStatement' or any(imports(k) for k in t.kids)


def label(t):
    s = t.show()
    return s if len(s) < 200 else s[:200] + '...'


def known(u, R):
    for k in u.pol.unknown:
        R.unsure('shapes of %s' % k)
    R.count('shapes of scripts', len(u.pol.trees))


def meaning(u, R):
    """C25"""
    known(u, R)
    for i, t, ss in shapes(u):
        for s in ss:
            if s.kind != 'ret' or s.val.t != 'adt' or s.val.a[1] != 0 or t.wrong():
                continue
            if lost(s):
                R.verdict(None, 'a path that is not understood', '')
                continue
            x = Same(u, s)
            try:
                x.script(s.val.a[2][0], t, u.args['name'])
            except Same.Wrong as e:
                R.verdict(False, e.args[0], '%s: in %s' % (e.args[1], label(t)))
            except (KeyError, IndexError, AttributeError):
                R.verdict(None, 'a part that cannot be compared', '')
            for _ in range(x.done):
                R.verdict(True, '', '')


def translated(u, R):
    """C24"""
    known(u, R)
    for i, t, ss in shapes(u):
        if imports(t):
            continue
        if t.wrong():
            continue
        good = any(s.kind == 'ret' and s.val.t == 'adt' and s.val.a[1] == 0 for s in ss)
        R.verdict(True if good else False if ss and not u.budget and not any(lost(s) for s in ss) else None, 'no translation of ' + bare(t), 'the grammar accepts %s, and no such script compiles' % label(t))
        for s in ss:
            if s.kind == 'panic':
                R.verdict(False if s.definite and not lost(s) else None, 'reads a part that is not there: %s' % (s.fn or '').split('::')[-1],
                          'compiling %s panics: %s' % (label(t), s.info))


def bare(t):
    """the innermost kinds of node of a tree"""
    out = []

    def go(t):
        if not t.kids or t.name in MAKERS:
            out.append(t.name)
        for k in t.kids:
            go(k)
    go(t)
    return ' '.join(sorted(set(out)))[:120]


def never(u, R):
    """C23"""
    known(u, R)
    for i, t, ss in shapes(u):
        for s in ss:
            R.verdict(True if s.kind == 'ret' else False if s.definite and not lost(s) else None, 'panic in %s' % (s.fn or '').split('::')[-1],
                      'compiling %s panics: %s' % (label(t), s.info))


def messages(t):
    return ([t.noted] if t.name == 'Error' else []) + [m for k in t.kids for m in messages(k)]


def reported(u, R):
    """C37"""
    known(u, R)
    for i, t, ss in shapes(u):
        if not t.wrong():
            continue
        for s in ss:
            if s.kind != 'ret' or s.val.t != 'adt':
                continue
            if lost(s):
                R.verdict(None, 'a path that is not understood', '')
                continue
            R.verdict(s.val.a[1] != 0, 'compiled in spite of an error', '%s compiles to a matcher although parsing noted an error' % label(t))
            if s.val.a[1] == 0:
                continue
            errors, root = s.val.a[2][0], t.name == 'Error'
            if errors.t != 'vec' or errors.a[0] is not None:
                R.verdict(None, 'errors that are not listed one by one', '')
                continue
            mine = messages(t)
            for e in errors.a[1]:
                if not any(inside(e, m) for m in mine) and not root:
                    break           # compiling ended with an error of its own
            else:
                for m in mine:
                    R.verdict(any(inside(e, m) for e in errors.a[1]), 'an error that is lost', 'an error noted while parsing %s is not among those reported' % label(t))


SHARDS = 8


def parts(name, rule, every=False):
    """jobs, rules and policies of a rule over the trees, in equal parts"""
    u = 'witness::script::compiled'
    return ([(u, '%s%d' % (name, i), 0) for i in range(SHARDS)], {'%s%d' % (name, i): rule for i in range(SHARDS)},
            {'%s%d' % (name, i): sharded(i, SHARDS, CompilePolicy, every) for i in range(SHARDS)})


# ---------------------------------------------------------------- imports
def runs(u):
    """every path on which some file was parsed: the trees, in the order they were, and what ended it"""
    for s in u.steps:
        f = s.st.ghost.get('forms', ())
        if f and s.kind in ('ret', 'panic'):
            yield [u.pol.trees[k] for k in f], s.st.ghost['files'], s


def excused(s, trees):
    """may compiling these files fail on this path"""
    if 'io' in s.st.ghost:
        return True
    root = mk('str', '_')
    made = [d.kids[0].text for t in trees for d in within(t, 'AssignmentExpression')]
    for t in trees:
        for x in within(t, 'ImportIdentifier'):
            a = x.find('ImportName').text
            b = x.find('ImportAsName')
            if same(s, a, root):
                if not b or not other(s, b.text, root):
                    return True
            elif not any(same(s, a, m) for m in made):
                return True
    return False


def imported(u, R):
    """C27"""
    good = set()
    for trees, files, s in runs(u):
        R.count('paths over files')
        if s.kind == 'panic':
            R.verdict(False if s.definite and not lost(s) else None, 'panic in %s' % (s.fn or '').split('::')[-1], 'compiling %s panics: %s' % (label(trees[0]), s.info))
        elif s.val.t != 'adt' or lost(s):
            R.verdict(None, 'a path that is not understood', '')
        elif s.val.a[1] == 0:
            good.add(label(trees[0]))
            x = Same(u, s, trees[1:])
            try:
                x.script(s.val.a[2][0], trees[0], u.I.load(s.st, u.args['file']))
            except Same.Wrong as e:
                R.verdict(False, e.args[0], '%s: in %s' % (e.args[1], label(trees[0])))
            except (KeyError, IndexError, AttributeError, TypeError):
                R.verdict(None, 'a part that cannot be compared', '')
            for _ in range(x.done):
                R.verdict(True, '', '')
        else:
            R.verdict(excused(s, trees), 'an import that fails', 'every name that %s imports is defined and can be read, and yet it does not compile' % label(trees[0]))


def ending(u, R):
    """C28: no file is parsed while it is being compiled"""
    for s in u.steps:
        if s.kind == 'm.parse':
            f = u.pol.file(u.I, s.st, s.ev.a[1][0])
            if f is None:
                R.verdict(None, 'a file that is not known', '')
                continue
            R.count('files parsed')
            again = f in s.st.ghost.get('files', ())
            if again and (lost(s) or any(k.t != 'streq' for k in s.st.facts)):
                R.verdict(None, 'a path that is not understood', '')
                continue
            R.verdict(not again, 'a file that imports itself' if len(u.pol.scenario) == 1 else 'files that import each other',
                      'file %d is parsed once more while it is being compiled: %s' % (f, ' imports '.join('file %d' % x for x in s.st.ghost.get('files', ()) + (f,))))
    for trees, files, s in runs(u):
        if s.kind == 'ret':
            R.verdict(True, '', '')


def forgotten(u, R):
    """C28: compiling leaves nothing behind that makes a later one fail"""
    for trees, files, s in runs(u):
        if s.kind == 'ret' and s.val.t == 'adt' and not lost(s):
            R.count('paths over files')
            R.verdict(s.val.a[1] == 0 or 'io' in s.st.ghost or excused(s, [t for t in trees if not t.wrong()]), 'a compilation that is not forgotten', 'a file that is fine does not compile after a compilation that failed')


def roundabout(name, table):
    return ([('witness::script::' + w, '%s%d' % (name, i), 0) for i, (w, r, p) in enumerate(table)],
            {'%s%d' % (name, i): r for i, (w, r, p) in enumerate(table)}, {'%s%d' % (name, i): p for i, (w, r, p) in enumerate(table)})


IMPORTS = [('imported', imported, scene(file0=(importing(1), [1]), file1=(defining, []))),
           ('imported', imported, scene(file0=(importing(2, 2), [1, 2]), file1=(defining, []), file2=(defining, []))),
           ('imported', imported, scene(file0=(importing(2, 2), [1, 1]), file1=(defining, [])))]
CYCLES = [('imported', ending, scene(file0=(importing(1, 1), [0]))),
          ('imported', ending, scene(file0=(importing(1, 2), [1]), file1=(importing(1, 1), [0]))),
          ('imported', ending, scene(file0=(importing(1, 1), [1]), file1=(importing(1, 1), [1]))),
          ('imported', ending, scene(file0=(importing(1, 1), [1]), file1=(importing(1, 1), [2]), file2=(importing(1, 1), [0]))),
          ('again', forgotten, scene(file0=(broken, []))),
          ('again', forgotten, scene(file0=(importing(1, 1), [1]), file1=(broken, [])))]
