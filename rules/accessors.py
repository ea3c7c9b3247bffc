"""C18: every kind of token honours the accessor contract.  C16: the text of a token is the text of its range."""
from common import *
import terminals
from interp import STRING

T = 'witness::tokens::'
KINDS = ['standard', 'pin']
CAP, MAT, NAME, PARENT, KIDS, VALUE, CTEXT, MTEXT, ATTR, FLAGS, PARSER = range(11)
PART = ['captured range', 'matched range', 'name', 'parent', 'children', 'value', 'captured text', 'matched text', 'attribute', 'flags', 'parser']
SETS = {'set_captured_range': CAP, 'set_matched_range': MAT, 'set_captured_range_mut': CAP, 'set_matched_range_mut': MAT, 'set_name': NAME,
        'set_parent': PARENT, 'set_children': KIDS, 'add_child': KIDS, 'push_child': KIDS, 'set_value': VALUE, 'set_captured_value': CTEXT,
        'set_matched_value': MTEXT, 'set_attribute': ATTR, 'set_another_attribute': None, 'set_value_attribute': VALUE,
        'set_flags': FLAGS, 'enable_flags': FLAGS, 'disable_flags': FLAGS}
OTHERS = ['attribute', 'attribute_answers', 'attribute_absent', 'attribute_unequal', 'all_attributes', 'flags_enabled', 'flags_after_enable',
          'find_child', 'has_child', 'new', 'new_with_matched_range']
UNITS = [T + k + '::' + f for k in KINDS for f in list(SETS) + OTHERS]
TEXTS = [T + k + '::' + f for k in KINDS for f in ('set_captured_range', 'set_matched_range', 'new', 'new_with_matched_range')]


class AccessPolicy(terminals.TermPolicy):
    def setup(self, I, st):
        super().setup(I, st)
        st.ghost['ended'] = FALSE

    def iterated(self, c, it, i):
        if any(k.t == 'streq' and v for k, v in c.st.facts.items()):
            self.observe(c.I, 'went.on', c.st, c.fr)
        c.st.ghost['ended'] = FALSE

    def exhausted(self, c, it):
        c.st.ghost['ended'] = TRUE


mkpolicy = AccessPolicy


class TextPolicy(terminals.TermPolicy):
    """looks into the function that takes the text of a range"""
    range_text = False

    def slice(self, c, v, lo, hi):
        self.observe(c.I, 'slice', c.st, c.fr, val=v, info=(lo, hi))
        return True


def arg(u, st, n='x'):
    v = u.args[n]
    return u.I.load(st, v) if (u.I.vty(v) or ('',))[0] == 'ref' and v.t != 'str' else v


def overridden(v):
    """comes from an attribute"""
    return 'mapget' in show(v)


def same(u, st, a, b):
    if a is b or show(a) == show(b):
        return True
    r = eqv(u.I, st, a, b)
    if r is None and 'uf' in (a.t, b.t) and 'extend' in (a.a[0], b.a[0]):
        d = u.I.eq(u.I.veclen(a), u.I.veclen(b))
        if not opaque_in(d):
            return None if u.I.decide(st, d) else False
    if r is None and {a.t, b.t} == {'uf', 'sym'} and 'rangetext' in (a.a[0], b.a[0]):
        return False        # the text of a range that was given against what was there before
    return r


def bits(I, v, env):
    """value of a bitwise expression over the named leaves, or None"""
    if v in env:
        return env[v]
    c = const_of(v) if v.t == 'n' else None
    if c is not None:
        return c & 255
    if v.t == 'n' and len(v.a[1]) == 1 and v.a[1][0][1] == 1 and v.a[0] == 0:
        return bits(I, v.a[1][0][0], env)
    if v.t == 'n' and len(v.a[1]) == 1 and v.a[1][0][1] == -1 and v.a[0] == 255:
        x = bits(I, v.a[1][0][0], env)
        return None if x is None else 255 - x
    if v.t == 'uf' and v.a[0] in ('opBitOr', 'opBitAnd', 'opBitXor', 'unNot'):
        xs = [bits(I, x, env) for x in v.a[1]]
        if None in xs:
            return None
        return {'opBitOr': lambda: xs[0] | xs[1], 'opBitAnd': lambda: xs[0] & xs[1], 'opBitXor': lambda: xs[0] ^ xs[1]}.get(v.a[0], lambda: ~xs[0] & 255)()
    return None


def leaf(v):
    return v.a[1][0][0] if v.t == 'n' and len(v.a[1]) == 1 and v.a[0] == 0 else v


def bitwise(u, st, v, old, x, f):
    """decided by its truth table: bitwise operations act on every bit alike"""
    r = True
    for a in (0, 255):
        for b in (0, 255):
            w = bits(u.I, v, {leaf(old): a, leaf(x): b, old: a, x: b})
            if w is None:
                r = None if opaque_in(v, ('phi',)) or 'unk' in show(v) or 'uf(op' in show(v) else False
            elif w != f(a, b) & 255:
                return False
    return r


def changed(u, R):
    """one setter: what it names changes as it should, the rest stays"""
    I = u.I
    kind, f = u.name.replace(T, '').split('::')
    who = '%s::%s' % (kind, f)
    target = SETS[f]
    for s in u.steps:
        if s.kind == 'panic' and s.definite:
            R.verdict(False, who + ': panics', '%s panics: %s' % (who, s.info))
        if s.kind != 'ret':
            continue
        st = s.st
        v = norm(I, st, s.val)
        a, b = (tuple(norm(I, st, I.project(st, I.project(st, v, ('f', i)), ('f', j))) for j in range(11)) for i in (0, 1))
        x = arg(u, st)
        exp = list(a)
        bitop = None
        if f in ('add_child', 'push_child'):
            exp[KIDS] = mk('vec', a[KIDS], (x,))
        elif f == 'enable_flags':
            bitop = lambda p, q: p | q
        elif f == 'disable_flags':
            bitop = lambda p, q: p & ~q
        elif f == 'set_attribute':
            exp[ATTR] = None            # below
        elif target is not None:
            exp[target] = norm(I, st, x)
        if f == 'set_captured_range':
            exp[CTEXT] = None
        if f == 'set_matched_range':
            exp[MTEXT] = None
        follows = same(u, st, a[VALUE], a[CTEXT])
        for j in range(11):
            key = '%s: %s' % (who, PART[j])
            msg = '%s: the %s reads %s instead of %s' % (who, PART[j], show(b[j])[:120], show(exp[j])[:120] if exp[j] is not None else 'what was set')
            if j == FLAGS and bitop:
                R.verdict(bitwise(u, st, b[j], a[j], x, bitop), key, msg)
            elif j == ATTR and f == 'set_attribute':
                w = norm(I, st, b[j])
                R.verdict(w.t == 'adt' and w.a[1] == 1 and same(u, st, w.a[2][0], x), key, msg)
            elif j in (CTEXT, MTEXT) and exp[j] is None:
                text(u, st, R, key, who, b[j], a[PARSER], x)
            elif j == VALUE and f == 'set_value':
                if I.decide(st, I.eq(I.veclen(x), N(0))):
                    R.verdict(overridden(b[j]) or same(u, st, b[j], b[CTEXT]), key, msg)
                else:
                    R.verdict(overridden(b[j]) or same(u, st, b[j], x), key, msg)
            elif j == VALUE and follows and f in ('set_captured_range', 'set_captured_value'):
                R.verdict(same(u, st, b[j], b[CTEXT]), key, msg)
            elif j == CTEXT and f == 'set_value_attribute':
                R.verdict(same(u, st, b[j], a[j]) or same(u, st, b[j], x), key, msg)
            elif j == target and j in (CTEXT, MTEXT):
                R.verdict(overridden(b[j]) or same(u, st, b[j], x), key, msg)
            else:
                R.verdict(same(u, st, b[j], exp[j]), key, msg)


def text(u, st, R, key, who, got, parser, rng):
    """got is the text of rng"""
    if overridden(got):
        return R.verdict(True, key, '')
    want = u.I.uf('rangetext', (parser, norm(u.I, st, rng)), STRING)
    if got is want:
        return R.verdict(True, key, '')
    if got.t == 'uf' and got.a[0] == 'rangetext':
        g = all3([same(u, st, norm(u.I, st, got.a[1][0]), norm(u.I, st, parser)), same(u, st, norm(u.I, st, got.a[1][1]), norm(u.I, st, rng))])
    elif got.t in ('sym', 'str'):
        g = False
    else:
        g = None
    R.verdict(g, key, '%s: the text is %s' % (who, show(got)[:150]))


def answered(u, R):
    I = u.I
    kind, f = u.name.replace(T, '').split('::')
    who = '%s::%s' % (kind, f)
    for s in u.steps:
        st = s.st
        if s.kind == 'went.on':
            R.verdict(False, who + ': first', '%s goes on after a child with that name' % who)
        if s.kind == 'panic' and s.definite:
            R.verdict(False, who + ': panics', '%s panics: %s' % (who, s.info))
        if s.kind != 'ret':
            continue
        v = norm(I, st, s.val)
        p = lambda *path: norm(I, st, proj(I, st, v, path))
        msg = '%s answers %s' % (who, show(v)[:200])
        if f == 'attribute':
            w = p(2)
            R.verdict(w.t == 'adt' and w.a[1] == 1 and same(u, st, w.a[2][0], arg(u, st, 'v')), who, msg)
            R.verdict(not (p(1).t == 'adt' and p(1).a[1] == 1 and same(u, st, p(1).a[2][0], arg(u, st, 'v'))), who + ': old value', msg)
        elif f == 'attribute_answers':
            for i in (0, 1):
                d = I.decide(st, p(i))
                R.verdict(d if d is not None else None, who, msg)
        elif f == 'attribute_absent':
            d = I.decide(st, p(1))
            R.verdict(None if d is None else d is not is_none(I, st, p(0)), who, msg)
        elif f == 'attribute_unequal':
            d = I.decide(st, v)
            e = mk('streq', *sorted((arg(u, st, 'v'), arg(u, st, 'w'))))
            R.verdict(True if v is e else False if d is not None and I.decide(st, e) is None else None, who, msg)
        elif f == 'all_attributes':
            R.verdict(v.t == 'adt' and v.a[1] == 1 and show(v.a[2][0]) == "'value'", who, msg)
        elif f == 'flags_enabled':
            b, q = p(0), p(1)
            e = mk('flag', *sorted((q, arg(u, st, 'f'))))
            d = I.decide(st, b)
            if b.t == 'flag' or d is None:
                R.verdict(True if b is e or show(b) == show(e) else None, who, msg)
            else:
                w = I.decide(st, e)
                R.verdict(None if w is None else w == d, who, msg)
        elif f == 'flags_after_enable':
            R.verdict(I.decide(st, p(0)), who, msg)
        elif f == 'find_child':
            w = p(0)
            if is_none(I, st, w):
                R.verdict(st.ghost['ended'] is TRUE or I.decide(st, I.eq(I.veclen(p(1)), N(0))) is True, who + ': none', msg)
            else:
                R.verdict(named(u, st, p(0, 'some')), who, msg)
        elif f == 'has_child':
            d = I.decide(st, p(0))
            hit = any(k.t == 'streq' and x for k, x in st.facts.items())
            if d is False:
                R.verdict(st.ghost['ended'] is TRUE or I.decide(st, I.eq(I.veclen(p(1)), N(0))) is True, who + ': none', msg)
            else:
                R.verdict(None if d is None else True if hit else None, who, msg)
        elif f in ('new', 'new_with_matched_range'):
            t = s.val
            tf = lambda n: norm(I, st, tok_field(u, st, t, n))
            r, m = u.args['r'], u.args.get('m', u.args['r'])
            for n, want in (('captured', r), ('matched', m), ('name', u.args['name'])):
                R.verdict(same(u, st, tf(n), norm(I, st, want)), '%s: %s' % (who, n), '%s: the %s is %s' % (who, n, show(tf(n))[:120]))
            R.verdict(is_none(I, st, tf('parent')), who + ': parent', '%s: has a parent' % who)
            R.verdict(tf('children').t == 'vec' and tf('children').a == (None, ()), who + ': children', '%s: has children %s' % (who, show(tf('children'))[:80]))
            R.verdict(const_of(tf('flags')) == 0 if tf('flags').t == 'n' else None, who + ': flags', '%s: has flags %s' % (who, show(tf('flags'))[:80]))
            R.verdict(tf('attrs') is mk('map', ()), who + ': attributes', '%s: has attributes %s' % (who, show(tf('attrs'))[:80]))
            R.verdict(is_none(I, st, tf('value')), who + ': value', '%s: has a value of its own: %s' % (who, show(tf('value'))[:80]))


def proj(I, st, v, path):
    for x in path:
        v = I.project(st, mk('dc', v, 1) if v.t != 'adt' else v, ('f', 0)) if x == 'some' else I.project(st, v, ('f', x))
    return v


def is_none(I, st, v):
    if v.t == 'adt':
        return v.a[1] == 0
    return st.vars.get(v) == 0


def named(u, st, t):
    """the path knows that this token is called what was asked for"""
    nm = tok_field(u, st, t, 'name')
    e = mk('streq', *sorted((nm, arg(u, st, 'name'))))
    d = u.I.decide(st, e)
    if d is not None:
        return d
    eqs = [k for k, v in st.facts.items() if k.t == 'streq' and v]
    return None if opaque_in(nm, ('phi',)) and eqs else False


def accessors(u, R):
    f = u.name.split('::')[-1]
    (changed if f in SETS else answered)(u, R)


# ---------------------------------------------------------------------- C16
def texts(u, R):
    I = u.I
    kind, f = u.name.replace(T, '').split('::')
    who = '%s::%s' % (kind, f)
    for s in u.steps:
        if s.kind != 'ret':
            continue
        st = s.st
        if f.startswith('set_'):
            v = norm(I, st, s.val)
            j = CTEXT if 'captured' in f else MTEXT
            b = [norm(I, st, proj(I, st, v, (1, k))) for k in range(11)]
            text(u, st, R, who, who, b[j], proj(I, st, v, (0, PARSER)), u.args['x'])
            k = MTEXT if j == CTEXT else CTEXT
            R.verdict(same(u, st, b[k], norm(I, st, proj(I, st, v, (0, k)))), who + ': other text', '%s: the other text reads %s' % (who, show(b[k])[:120]))
        else:
            r, m = u.args['r'], u.args.get('m', u.args['r'])
            for n, w in (('captured_value', r), ('matched_value', m)):
                text(u, st, R, '%s: %s' % (who, n), who, norm(I, st, tok_field(u, st, s.val, n)), u.args['p'], w)


def range_text(u, R):
    """never panics; answers the part the range delimits, or nothing"""
    I = u.I
    for s in u.steps:
        if s.kind == 'panic':
            R.verdict(None if not s.definite and opaque_in(tuple(x for x in (s.info or ()) if isinstance(x, V)), ('phi',)) else False,
                      'text of a range: panics', 'taking the text of a range can panic: %s' % str(s.info)[:200])
        if s.kind == 'slice':
            lo, hi = s.info
            safe = [k for k, v in s.st.facts.items() if k.t == 'uf' and k.a[0] == 'str.is_char_boundary' and v]
            R.verdict(True if len(safe) >= 2 else False, 'text of a range: slices', 'takes a part of the text that may begin or end inside a character or outside of it: %s..%s' % (show(lo), show(hi)))
        if s.kind != 'ret':
            continue
        v, st = s.val, s.st
        r, p = u.args['r'], u.args['p']
        a, b = (I.project(st, r, ('f', i)) for i in (0, 1))
        root, _ = I.deref_loc(st, p)
        src = I.read(st, root, ('c', ('f', 0)))
        key, msg = 'text of a range', 'the text of %s..%s is %s' % (show(a), show(b), show(v)[:200])
        if v.t == 'str':
            got = [k for k, x in st.vars.items() if k.t == 'uf' and k.a[0] == 'str.get' and x == 0]
            R.verdict(v.a[0] == '' and (bool(got) or None), key + ': empty', msg)
            continue
        got = part_of(v)
        if got is None:
            R.verdict(None, key, msg)
            continue
        base, lo, hi = got
        n = I.veclen(src)
        R.verdict(base is src or show(base) == show(src), key + ': source', msg)
        R.verdict(eqv(I, st, lo, a), key + ': start', msg)
        R.verdict(eqv(I, st, hi, b) or (I.decide(st, I.le(n, b)) and eqv(I, st, hi, n)) or False, key + ': end', msg)
    R.verdict(any(s.kind == 'ret' and part_of(s.val) for s in u.steps) or None, 'text of a range: some', 'never answers a part of the text')


def part_of(v):
    """(text, start, end)"""
    while v.t in ('uf', 'dc', 'sym') and not (v.t == 'uf' and v.a[0] in ('str.get', 'substr')):
        nxt = [x for x in v.a if isinstance(x, V)]
        if not nxt:
            return None
        v = nxt[0]
    if v.t != 'uf':
        return None
    if v.a[0] == 'substr':
        return v.a[1]
    r = v.a[1][1]
    if r.t == 'adt' and len(r.a[2]) == 2:
        return v.a[1][0], r.a[2][0], r.a[2][1]
    return None


LEAF = ['equals', 'matches', 'sequence', 'pin_none', 'error', 'expand_range', 'assert_if', 'assert_if_not', 'proxy']
CARRIED = ['program_one', 'looping_one']


def carried(u, R):
    """the tokens a matcher answers carry the text of their ranges"""
    import names
    I, n = u.I, short(u.name).split('::')[-1]
    for s in u.steps:
        if s.kind != 'ret':
            continue
        v = norm(I, s.st, s.val)
        t = names.own(u, s.st, v)
        if t is None and v.t == 'adt' and v.a[1] == OK and v.a[2][0].t == 'adt' and v.a[2][0].a[1] in (TOKEN, PROXY):
            t = v.a[2][0].a[2][0]
        if t is None:
            continue
        p = norm(I, s.st, tok_field(u, s.st, t, 'parser'))
        for f in ('captured', 'matched'):
            if show(tok_field(u, s.st, t, f)).endswith('tf/' + f):
                continue            # of the token of a child, untouched
            text(u, s.st, R, '%s: %s text' % (n, f), n, norm(I, s.st, tok_field(u, s.st, t, f + '_value')), p, norm(I, s.st, tok_field(u, s.st, t, f)))
