"""What each wrapper makes of its child's answer (C01 fatal errors, C02 recoverable failures, C06 successes)."""
from common import *

PASS = ['debug', 'debug_mode', 'set_scope', 'set_scope_with', 'pin', 'pin_named', 'pin_offset', 'store_matcher',
        'reference', 'reference_named', 'reference_string', 'reference_matcher']
WRAP = ['optional', 'not', 'discard', 'catch', 'map', 'map2', 'proxy', 'proxy_named', 'expand_range', 'assert_if',
        'assert_if_not', 'fatal_if', 'fatal_if_not']
MANY = ['program', 'program_named', 'switch', 'looping', 'looping_unbounded', 'looping_named', 'program_macro',
        'program_macro_named', 'switch_macro']


LOOKUP = ['reference', 'reference_named', 'reference_string']


def spec(name, case):
    """what `name` must do when its child answers `case`:
    same | fail | skip0 | cb:<which> | token>proxy | widened | error-token | fatal | None (no claim here)"""
    if name in PASS:
        return 'same'
    base = case.split('(')[0]
    if name == 'catch':
        return 'cb:fail' if base in FN else 'same'
    if name in ('map', 'map2'):
        if base in ('Token', 'ProxyChildren'):
            return 'cb:token'
        return 'cb:fail' if name == 'map2' and base in FN else 'same'
    if base == 'Error':
        return 'same'
    if name == 'optional':
        return 'skip0' if base == 'Fail' else 'same'
    if name == 'not':
        if base == 'Fail':
            return 'skip0'
        if base in ('Token', 'ProxyChildren'):
            return 'fail'
        return 'skip' if base == 'Skip' else 'same'
    if name == 'discard':
        return 'same' if base in ('Fail', 'Skip', 'None', 'Stop') else None
    if name in ('proxy', 'proxy_named'):
        if base == 'Token':
            return 'token>proxy'
        if base in ('Break', 'Continue') and case.endswith('(Token)'):
            return 'payload>proxy'
        return 'same'
    if name == 'expand_range':
        return 'widened' if base in ('Token', 'ProxyChildren') else 'same'
    tok = base in ('Token', 'ProxyChildren')
    if name == 'assert_if':
        return 'error-token' if tok else 'skip0' if base == 'Fail' else 'same'
    if name == 'assert_if_not':
        return 'skip0' if tok else 'error-token' if base == 'Fail' else 'same'
    if name == 'fatal_if':
        return 'fatal' if tok else 'skip0' if base == 'Fail' else 'same'
    if name == 'fatal_if_not':
        return 'skip0' if tok else 'fatal' if base == 'Fail' else 'same'
    raise KeyError(name)


def judge(u, s, st, want, ans, base):
    """True / False / None: does the step do what is wanted"""
    I = u.I
    r = evr(s.prev)
    if want.startswith('cb:'):
        if s.kind != 'cb':
            return False
        f, args = s.ev.a[1], s.ev.a[2]
        if want == 'cb:fail':
            return any3(eqv(I, st, x, ans.err) for x in args)
        tok = ans.tok[TOKEN if base == 'Token' else PROXY]
        return any3(eqv(I, st, x, tok) for x in args)
    if s.kind != 'ret':
        return False
    v = s.val
    if want == 'same':
        return eqv(I, st, v, r)
    if want == 'fail':
        return eqv(I, st, v, fail())
    if want == 'skip0':
        return eqv(I, st, v, skip0())
    if want == 'skip':
        z = I.decide(st, I.eq(ans.skip, N(0)))
        if z is None:
            a, b = st.copy(), st.copy()
            I.assume(a, I.eq(ans.skip, N(0)), True)
            I.assume(b, I.eq(ans.skip, N(0)), False)
            x, y = eqv(I, a, v, r), eqv(I, b, v, fail())
            return all3([x, y])
        return eqv(I, st, v, r if z else fail())
    if want == 'token>proxy':
        return eqv(I, st, v, ok(suc(PROXY, ans.tok[TOKEN])))
    if want == 'payload>proxy':
        k = BREAK if base == 'Break' else CONTINUE
        t = field(I, ans.pay[k], TOKEN, 0)
        return eqv(I, st, v, ok(suc(k, mk('tup', (ans.label[k], mk('box', suc(PROXY, t)))))))
    if want == 'widened':
        return widened(u, st, v, ans.tok[TOKEN if base == 'Token' else PROXY], base == 'Token')
    if want == 'error-token':
        return is_error_token(u, st, v)
    if want == 'fatal':
        n = norm(I, st, v)
        if n.t != 'adt' or n.a[1] != ERR:
            return False
        n = norm(I, st, n.a[2][0])
        return n.t == 'adt' and n.a[1] == ERROR
    raise KeyError(want)


def widened(u, st, v, tok, wrapped):
    """is v Ok(ProxyChildren(t)), t being the token itself or a new one around it, captured over all it matched"""
    I = u.I
    v = norm(I, st, v)
    if v.t != 'adt' or v.a[1] != OK:
        return None if v.t != 'adt' else False
    w = norm(I, st, v.a[2][0])
    if w.t != 'adt' or w.a[1] != PROXY:
        return None if w.t != 'adt' else False
    t = w.a[2][0]
    new = deref(u, st, t).t == 'H' and deref(u, st, t).a[0] == 'new'
    over = tok_field(u, st, tok, 'matched')
    out = [eqv(I, st, tok_field(u, st, t, 'captured'), over), eqv(I, st, tok_field(u, st, t, 'matched'), over)]
    if not new:
        out.append(False if wrapped else deref(u, st, t) is deref(u, st, tok) or None)
    elif wrapped:
        kids = tok_field(u, st, t, 'children')
        one = I.decide(st, I.eq(I.veclen(kids), N(1)))
        out.append(one and eqv(I, st, I.elem(st, kids, N(0)), tok) if one else one)
    return all3(out)


def any3(it):
    r = False
    for x in it:
        if x is True:
            return True
        if x is None:
            r = None
    return r


def wrappers(u, R, only):
    """every answer of the child against the table"""
    name = short(u.name).split('::')[-1]
    u.I.exact = True
    seen = set()
    for s in after(u):
        if s.kind == 'set':
            continue
        for case, ans, st in answers(u, s, R, only):
            want = spec(name, case)
            if want is None:
                continue
            base = case.split('(')[0]
            if s.kind == 'panic':
                if s.definite:
                    R.verdict(False, '%s on %s: panics' % (name, base),
                              '%s: when its child answers %s it %s (in %s)' % (name, case, show_step(s), s.fn))
                continue
            seen.add(case)
            good = judge(u, s, st, want, ans, base)
            R.verdict(good, '%s on %s: %s' % (name, base, want),
                      '%s: when its child answers %s it should %s but %s%s' % (
                          name, case, TEXT.get(want, want), show_step(s), ' in ' + s.fn if s.fn else ''))
    for s in after(u, 'cb'):
        # what a handler answers is the result
        ty = u.I.vty(evr(s.prev))
        if not (ty and ty[0] == 'adt' and ty[1] == 'core::result::Result'):
            continue
        if s.kind == 'panic' and not s.definite:
            continue
        good = s.kind == 'ret' and eqv(u.I, s.st, s.val, evr(s.prev))
        R.verdict(good, '%s: handler answer' % name,
                  '%s: what the handler answers is the result, but it %s' % (name, show_step(s)))
    for case in all_cases():
        if only(case) and spec(name, case) is not None and case not in seen and not any(
                k.startswith(name + ' on ') for k in R.violations):
            R.unsure('%s: no outcome seen for %s' % (name, case))
    for s in u.steps:
        if s.kind != 'ret' or s.prev is not policy.NONE:
            continue
        v = norm(u.I, s.st, s.val)
        good = name in LOOKUP and v.t == 'adt' and v.a[1] == ERR
        R.verdict(good, '%s: answers without its child' % name,
                  '%s answers without having executed its child: %s' % (name, show_step(s)))


TEXT = {
    'same': 'pass that answer on unchanged', 'fail': 'fail', 'skip0': 'succeed without consuming (Skip 0)',
    'skip': 'pass on Skip(0) and fail on any other Skip', 'cb:fail': 'hand that failure to the handler',
    'cb:token': 'hand that token to the callback', 'token>proxy': 'answer ProxyChildren of the same token',
    'payload>proxy': 'answer the same signal with the payload as ProxyChildren',
    'widened': 'answer ProxyChildren with the captured range widened to what was matched',
    'error-token': 'answer an error token', 'fatal': 'answer a fatal error',
}


def all_cases():
    out = []
    for k in SN:
        if k in ('Break', 'Continue'):
            out += ['%s(%s)' % (k, j) for j in SN]
        else:
            out.append(k)
    return out + FN
