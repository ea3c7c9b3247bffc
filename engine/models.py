"""Summaries of the standard-library functions the analysed code calls."""
from values import *
from interp import *

class Models(dict):
    """by name; the crate an item of the standard library is shown under does not matter"""

    def __setitem__(self, n, f):
        dict.__setitem__(self, n, f)
        if n.split('::')[0] in ('core', 'std', 'alloc'):
            dict.__setitem__(self, '~' + n.split('::', 1)[1], f)

    def get(self, n, d=None):
        r = dict.get(self, n)
        if r is None and n.split('::')[0] in ('core', 'std', 'alloc'):
            r = dict.get(self, '~' + n.split('::', 1)[-1])
        return d if r is None else r


M = Models()


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def one(c, v):
    return [(c.st, v)]


def opt(c, v=None):
    ty = c.ret
    if v is None:
        return mk('adt', ty, 0, ())
    return mk('adt', ty, 1, (v,))


def loc(c, i=0):
    return c.I.deref_loc(c.st, c.args[i])


def val(c, i=0):
    """contents of a reference argument, through nested references"""
    v = c.args[i]
    for _ in range(5):
        if v.t in ('ref', 'vref'):
            v = c.I.load(c.st, v)
        elif v.t in ('sym', 'uf', 'phi'):
            ty = c.I.vty(v)
            if ty and ty[0] == 'ref':
                v = c.I.load(c.st, v)
            else:
                break
        elif v.t == 'guard':
            v = c.I.read(c.st, v.a[1], v.a[2] + ('c',))
        else:
            break
    return v


def need(c, atom):
    """truth of an atom, splitting the state when it is open"""
    d = c.I.decide(c.st, atom)
    if d is None:
        raise Split(atom)
    return d


def ref_to(c, i=0):
    """innermost reference of a (possibly nested) reference argument"""
    v = c.args[i]
    for _ in range(5):
        if v.t in ('ref', 'vref'):
            x = c.I.load(c.st, v)
            if x.t in ('ref', 'vref'):
                v = x
                continue
            ty = c.I.vty(x)
            if x.t in ('sym', 'uf', 'phi') and ty and ty[0] == 'ref':
                v = x
                continue
            if x.t == 'guard':
                v = mk('ref', x.a[1], x.a[2] + ('c',))
                continue
        break
    return v


# ---------------------------------------------------------------- smart pointers and cells
@model('std::rc::Rc::new', 'alloc::rc::Rc::new', 'std::sync::Arc::new')
def rc_new(c):
    return one(c, mk('rc', c.I.alloc(c.st, c.site, c.args[0])))


@model('std::boxed::Box::new')
def box_new(c):
    return one(c, mk('box', c.args[0]))


@model('std::boxed::Box::new_uninit')
def box_uninit(c):
    return one(c, mk('box', UNINIT))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(c):
    v = c.args[0]
    if v.t == 'box':
        v = v.a[0]
        while v.t == 'piece':
            v = v.a[1]
        if v.t == 'vec':
            return one(c, v)
    c.I.unknown('vec!')
    return one(c, c.I.unk(c.ret, 'vec!'))


@model('std::cell::RefCell::new', 'std::cell::Cell::new')
def cell_new(c):
    return one(c, mk('cell', c.args[0]))


@model('std::cell::RefCell::into_inner')
def cell_into(c):
    return one(c, c.I.project(c.st, c.args[0], 'c'))


@model('std::cell::RefCell::borrow')
def cell_borrow(c):
    g = c.I.borrow(c.st, c.fr, 'r', ref_to(c))
    return one(c, g) if g is not None else []


@model('std::cell::RefCell::borrow_mut')
def cell_borrow_mut(c):
    g = c.I.borrow(c.st, c.fr, 'w', ref_to(c))
    return one(c, g) if g is not None else []


@model('core::borrow::Borrow::borrow', 'core::convert::AsRef::as_ref', 'core::borrow::BorrowMut::borrow_mut')
def ident_borrow(c):
    x = c.I.load(c.st, c.args[0])
    if x.t == 'rc':
        return one(c, mk('ref', x.a[0], ()))
    return one(c, ref_to(c))


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def deref(c):
    a = c.args[0]
    x = c.I.load(c.st, a)
    if x.t == 'guard':
        return one(c, mk('ref', x.a[1], x.a[2] + ('c',)))
    if x.t == 'rc':
        return one(c, mk('ref', x.a[0], ()))
    if x.t == 'box':
        r, p = c.I.deref_loc(c.st, a)
        return one(c, mk('ref', r, p + ('*',)))
    ty = c.I.vty(x)
    if ty and ty[0] == 'adt':
        n = ty[1].split('::')[-1]
        if n in ('Rc', 'Arc'):
            r, p = c.I.deref_loc(c.st, x)
            return one(c, mk('ref', r, p))
        if n == 'Box':
            r, p = c.I.deref_loc(c.st, a)
            return one(c, mk('ref', r, p + ('*',)))
    return one(c, a)


@model('std::rc::Rc::ptr_eq')
def ptr_eq(c):
    a, b = c.I.load(c.st, c.args[0]), c.I.load(c.st, c.args[1])
    if a is b:
        return one(c, TRUE)
    if a.t == 'rc' and b.t == 'rc':
        return one(c, FALSE)
    return one(c, mk('uf', 'ptreq', tuple(sorted((a, b))), BOOL))


# ---------------------------------------------------------------- copies and strings
@model('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned',
       'core::slice::<impl_[T]>::to_vec')
def clone(c):
    x = c.I.load(c.st, c.args[0])
    if x.t in ('vref',) and c.ret[0] != 'ref':
        x = c.I.load(c.st, x)
    if x.t == 'rc' or x.t in ('sym', 'uf', 'phi'):
        return one(c, x)
    return one(c, x)


@model('alloc::string::ToString::to_string')
def to_string(c):
    x = val(c)
    ty = c.I.vty(x)
    if x.t == 'str' or ty in (STR, STRING):
        return one(c, x)
    return one(c, c.I.uf('display', (x,), STRING))


@model('core::convert::From::from', 'core::convert::Into::into')
def from_(c):
    x = c.args[0]
    if c.ret == STRING:
        y = val(c)
        if y.t == 'str' or c.I.vty(y) in (STR, STRING):
            return one(c, y)
    ty = c.I.vty(x)
    if ty and ty == c.ret or c.argtys and c.argtys[0] == c.ret:
        return one(c, x)
    if c.ret[0] == 'adt' and c.ret[1] == 'alloc::boxed::Box':
        return one(c, mk('box', x))
    return None


@model('std::string::String::as_str', 'std::string::String::as_mut_str', 'std::vec::Vec::as_slice',
       'std::string::String::borrow', 'core::str::<impl_str>::as_ref', 'std::vec::Vec::as_mut_slice')
def same_ref(c):
    return one(c, ref_to(c))


@model('std::string::String::new')
def string_new(c):
    return one(c, mk('str', ''))


@model('std::string::String::len', 'core::str::<impl_str>::len', 'std::vec::Vec::len', 'core::slice::<impl_[T]>::len')
def length(c):
    if literal(val(c)):
        c.I.assume(c.st, c.I.eq(c.I.veclen(val(c)), N(0)), False)
    return one(c, c.I.veclen(val(c)))


@model('std::string::String::is_empty', 'core::str::<impl_str>::is_empty', 'std::vec::Vec::is_empty',
       'core::slice::<impl_[T]>::is_empty')
def is_empty(c):
    if literal(val(c)):
        return one(c, FALSE)
    b = c.I.eq(c.I.veclen(val(c)), N(0))
    d = c.I.decide(c.st, b)
    return one(c, b if d is None else mk('b', d))


def literal(v):
    """is a formatted text certain to hold some literal text: the template starts with a piece of known length, or has one"""
    if v.t != 'uf' or v.a[0] != 'format':
        return False
    f = v.a[1][0]
    m = f.a[0] if f.t == 'fmt' else None
    while m is not None and m.t in ('vref', 'ref'):
        m = m.a[0]
    if m is None or m.t != 'uf' or not m.a[0].startswith('mem:'):
        return False
    try:
        return 0 < bytes.fromhex(m.a[0][4:])[0] < 0x80
    except (ValueError, IndexError):
        return False


def streq(c, a, b):
    if a is b:
        return TRUE
    if a.t == 'str' and b.t == 'str':
        return FALSE
    if (a.t == 'str' and a.a[0] == '') or (b.t == 'str' and b.a[0] == ''):
        if literal(a) or literal(b):
            return FALSE
        return c.I.eq(c.I.veclen(b if a.t == 'str' else a), N(0))
    return mk('streq', *sorted((a, b)))


def stringish(c, x):
    return x.t == 'str' or c.I.vty(x) in (STR, STRING)


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def eq(c):
    a, b = val(c, 0), val(c, 1)
    while (a.t == 'adt' and b.t == 'adt' and a.a[:2] == b.a[:2] and len(a.a[2]) == 1 and len(b.a[2]) == 1
           and a.a[0][1] in ('core::option::Option', 'core::result::Result')):
        a, b = [c.I.load(c.st, x) if x.t in ('ref', 'vref') else x for x in (a.a[2][0], b.a[2][0])]
    if stringish(c, a) or stringish(c, b):
        r = streq(c, a, b)
    elif a.t == 'n' and b.t == 'n':
        r = c.I.eq(a, b)
    elif a is b:
        r = TRUE
    elif a.t == 'adt' and b.t == 'adt' and a.a[1] != b.a[1]:
        r = FALSE
    else:
        r = mk('cmp', 'Eq', *sorted((a, b)))
    d = c.I.decide(c.st, r)
    if d is not None:
        r = mk('b', d)
    return one(c, r if c.name.endswith('eq') else c.I.neg(r))


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def ord_(c):
    a, b = val(c, 0), val(c, 1)
    if a.t == 'n' and b.t == 'n':
        n = c.name[-2:]
        r = {'lt': lambda: c.I.lt(a, b), 'le': lambda: c.I.le(a, b), 'gt': lambda: c.I.lt(b, a), 'ge': lambda: c.I.le(b, a)}[n]()
        return one(c, r)
    return None


@model('core::cmp::Ord::max', 'core::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min', 'core::cmp::max', 'core::cmp::min')
def minmax(c):
    a, b = c.args
    if a.t == 'n' and b.t == 'n':
        le = need(c, c.I.le(a, b))
        if c.name.endswith('max'):
            return one(c, b if le else a)
        return one(c, a if le else b)
    return None


def num_name(c):
    return c.name.split('::')[-1]


def wrap_range(ty):
    w = WIDTH[ty[1]]
    return (-2 ** (w - 1), 2 ** (w - 1) - 1) if ty[1][0] == 'i' else (0, 2 ** w - 1)


def arith_model(c):
    """checked_/saturating_/wrapping_ integer operations"""
    n = num_name(c)
    kind, op = n.split('_', 1)
    ty = c.ret
    if kind == 'checked':
        ty = c.ret[2]
    if ty[0] != 'int':
        return None
    a, b = c.args[0], c.args[1]
    if a.t != 'n' or b.t != 'n':
        return None
    if op in ('add', 'add_signed', 'add_unsigned'):
        v = n_add(a, b)
    elif op in ('sub', 'sub_unsigned'):
        v = n_sub(a, b)
    else:
        return None
    lo, hi = wrap_range(ty)
    under = need(c, c.I.ge0(n_add(n_scale(v, -1), N(lo - 1))))
    over = not under and need(c, c.I.ge0(n_add(v, N(-hi - 1))))
    if kind == 'checked':
        return one(c, opt(c) if under or over else opt(c, v))
    if kind == 'saturating':
        return one(c, N(lo) if under else N(hi) if over else v)
    if kind == 'wrapping':
        return one(c, n_add(v, N(2 ** WIDTH[ty[1]])) if under else n_add(v, N(-2 ** WIDTH[ty[1]])) if over else v)
    return None


for _t in ('usize', 'isize', 'u8', 'u32', 'u64', 'i32', 'i64'):
    for _k in ('checked', 'saturating', 'wrapping'):
        for _o in ('add', 'sub', 'add_signed', 'add_unsigned', 'sub_unsigned'):
            for _p in ('core::num::<impl_%s>::%s_%s', 'std::num::<impl_%s>::%s_%s'):
                M[_p % (_t, _k, _o)] = arith_model


@model('std::string::String::push_str', 'std::string::String::push')
def push_str(c):
    r, p = loc(c)
    old = c.I.read(c.st, r, p)
    c.I.write(c.st, r, p, c.I.uf('concat', (old, val(c, 1) if c.args[1].t != 'n' else c.args[1]), STRING))
    return one(c, UNIT)


def plain(c, v, ty=None):
    """the Python value of a constant text or character"""
    if v.t == 'str':
        return v.a[0]
    if v.t == 'n' and not v.a[1] and 0 <= v.a[0] < 0x110000:
        return chr(v.a[0])
    return None


def folded(c, name, args):
    """text functions of constants"""
    xs = [plain(c, a) for a in args]
    if not xs or None in xs or args[0].t != 'str' or any(not isinstance(x, str) or not x.isascii() for x in xs):
        return None
    s = lambda t: mk('vref', mk('str', t))
    if name == 'str.split' and len(xs) == 2 and xs[1]:
        ps = tuple(s(x) for x in xs[0].split(xs[1]))
        return mk('vit', mk('vec', None, ps), N(0), N(len(ps)))
    if name == 'str.split_once' and len(xs) == 2 and xs[1]:
        i = xs[0].find(xs[1])
        if i < 0:
            return opt(c)
        return opt(c, mk('adt', c.ret[2] if c.ret[0] == 'adt' else ('tuple',), 0, (s(xs[0][:i]), s(xs[0][i + len(xs[1]):]))))
    if name in ('str.find', 'str.rfind') and len(xs) == 2:
        i = getattr(xs[0], name[4:])(xs[1])
        return opt(c) if i < 0 else opt(c, N(i))
    if name == 'str.contains' and len(xs) == 2:
        return mk('b', xs[1] in xs[0])
    if name == 'str.starts_with' and len(xs) == 2:
        return mk('b', xs[0].startswith(xs[1]))
    if name == 'str.ends_with' and len(xs) == 2:
        return mk('b', xs[0].endswith(xs[1]))
    return None


def pure(name):
    def f(c):
        if name.startswith('str.'):
            k = folded(c, name, [val(c, i) for i in range(len(c.args))])
            if k is not None:
                return one(c, k)
        return one(c, uf_result(c, name, [val(c, i) for i in range(len(c.args))]))
    return f


def uf_result(c, name, args):
    """an uninterpreted pure function"""
    ty = c.ret
    if ty[0] == 'ref':
        return mk('vref', c.I.uf(name, args, ty[2]))
    return c.I.uf(name, args, ty)


for n in ('replace', 'find', 'starts_with', 'ends_with', 'contains', 'parse', 'trim', 'to_lowercase', 'to_uppercase',
          'is_char_boundary', 'chars', 'char_indices', 'bytes', 'as_bytes', 'split', 'repeat', 'eq_ignore_ascii_case',
          'trim_start', 'trim_end', 'rfind', 'lines', 'strip_prefix', 'strip_suffix', 'split_once', 'as_ptr',
          'split_at', 'get', 'rsplit', 'splitn', 'trim_matches'):
    M['core::str::<impl_str>::' + n] = pure('str.' + n)
    M['std::str::<impl_str>::' + n] = pure('str.' + n)
    M['alloc::str::<impl_str>::' + n] = pure('str.' + n)
for n in ('join', 'concat'):
    M['std::slice::<impl_[T]>::' + n] = pure('slice.' + n)
    M['alloc::slice::<impl_[T]>::' + n] = pure('slice.' + n)
for n in ('regex::Regex::find', 'regex::Regex::is_match', 'regex::Regex::find_iter', 'regex::Regex::as_str',
          'regex::Regex::find_at', 'regex::Regex::new', 'regex::Match::start', 'regex::Match::end', 'regex::Match::as_str', 'regex::Regex::captures',
          'std::path::Path::parent', 'std::path::Path::join', 'std::path::Path::canonicalize',
          'std::path::Path::to_str', 'std::fs::read_to_string', 'core::char::methods::<impl_char>::len_utf8',
          'core::cmp::PartialOrd::partial_cmp', 'core::cmp::Ord::cmp', 'std::path::Path::exists', 'std::path::Path::is_file',
          'std::char::methods::<impl_char>::len_utf8', 'core::hash::BuildHasher::hash_one', 'std::path::PathBuf::as_path',
          'std::ffi::os_str::OsStr::to_str', 'std::path::Path::to_string_lossy', 'std::path::Path::display',
          'std::path::Path::is_absolute', 'std::path::Path::to_path_buf'):
    M[n] = pure(n)
M['core::char::methods::<impl_char>::len_utf8'] = pure('len_utf8')


@model('std::path::Path::new')
def path_new(c):
    return one(c, mk('vref', c.I.uf('path', (val(c),), ('adt', 'std::path::Path'))))


@model('substring::Substring::substring')
def substring(c):
    return one(c, mk('vref', c.I.uf('charsub', (val(c), c.args[1], c.args[2]), STR)))


@model('lazy_static::lazy::Lazy::get')
def lazy(c):
    return one(c, mk('vref', c.I.sym('lazy:' + c.fr.body.key, c.ret[2] if c.ret[0] == 'ref' else c.ret)))


# ---------------------------------------------------------------- formatting and printing
@model('std::hint::must_use', 'core::hint::must_use', 'std::hint::black_box')
def ident(c):
    return one(c, c.args[0])


@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_hex',
       'core::fmt::rt::Argument::new_debug_noop')
def fmt_arg(c):
    return one(c, mk('fmtarg', val(c)))


@model('std::fmt::Arguments::new', 'core::fmt::Arguments::new', 'core::fmt::rt::<impl_Arguments>::new_v1',
       'std::fmt::Arguments::new_v1')
def fmt_args(c):
    t = c.args[0]
    a = val(c, len(c.args) - 1)
    return one(c, mk('fmt', t, a.a[1] if a.t == 'vec' and a.a[0] is None else (a,)))


@model('std::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
def fmt_str(c):
    return one(c, mk('fmt', val(c), ()))


@model('std::fmt::format', 'alloc::fmt::format')
def fmt_format(c):
    f = c.args[0]
    if f.t == 'fmt':
        if not f.a[1] and f.a[0].t == 'str':
            return one(c, f.a[0])
        return one(c, c.I.uf('format', (f,), STRING))
    return one(c, c.I.uf('format', (f,), STRING))


@model('std::io::_print', 'std::io::_eprint', 'std::io::stdio::_print', 'std::io::stdio::_eprint')
def printed(c):
    c.I.policy.printed(c)
    return one(c, UNIT)


for n in ('debug_tuple_field1_finish', 'debug_struct_field1_finish', 'debug_struct_field2_finish',
          'debug_struct_field3_finish', 'debug_struct_field4_finish', 'debug_struct_fields_finish', 'debug_struct',
          'write_str', 'write_fmt', 'debug_list', 'debug_tuple'):
    M['std::fmt::Formatter::' + n] = lambda c: one(c, c.I.unk(c.ret, 'fmt'))
for n in ('field', 'finish', 'entry', 'entries'):
    M['std::fmt::DebugStruct::' + n] = lambda c: one(c, c.args[0] if c.ret[0] == 'ref' else c.I.unk(c.ret, 'fmt'))


# ---------------------------------------------------------------- vectors
@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'core::default::Default::default')
def vec_new(c):
    if c.name.endswith('default'):
        t = c.ret
        if t == STRING:
            return one(c, mk('str', ''))
        if t[0] == 'int':
            return one(c, N(0))
        if t == BOOL:
            return one(c, FALSE)
        if t[0] == 'adt' and t[1] == 'core::option::Option':
            return one(c, mk('adt', t, 0, ()))
        if not (t[0] == 'adt' and t[1] == 'alloc::vec::Vec'):
            return None
    return one(c, mk('vec', None, ()))


def as_vec(v):
    if v.t == 'vec':
        return v
    return mk('vec', v, ())


@model('core::slice::<impl_[T]>::contains', 'std::slice::<impl_[T]>::contains', 'std::vec::Vec::contains')
def vec_contains(c):
    v, k = val(c), val(c, 1)
    if v.t != 'vec' or v.a[0] is not None or k.t != 'str' and not stringish(c, k):
        return None
    for x in v.a[1]:
        if need(c, streq(c, x, k)):
            return one(c, TRUE)
    return one(c, FALSE)


@model('std::vec::Vec::push')
def vec_push(c):
    r, p = loc(c)
    v = as_vec(c.I.read(c.st, r, p))
    c.I.write(c.st, r, p, mk('vec', v.a[0], v.a[1] + (c.args[1],)))
    c.I.policy.vec_push(c, r, p, c.args[1])
    return one(c, UNIT)


@model('std::vec::Vec::pop')
def vec_pop(c):
    r, p = loc(c)
    v = as_vec(c.I.read(c.st, r, p))
    if v.a[1]:
        c.I.write(c.st, r, p, mk('vec', v.a[0], v.a[1][:-1]) if v.a[1][:-1] or v.a[0] is None else v.a[0])
        return one(c, opt(c, v.a[1][-1]))
    if v.a[0] is None:
        return one(c, opt(c))
    if need(c, c.I.eq(c.I.veclen(v), N(0))):
        return one(c, opt(c))
    last = n_add(c.I.veclen(v), N(-1))
    x = c.I.elem(c.st, v.a[0], last)
    c.I.write(c.st, r, p, c.I.uf('popped', (v.a[0],), c.I.vecty(v)))
    return one(c, opt(c, x))


@model('std::vec::Vec::clear')
def vec_clear(c):
    r, p = loc(c)
    c.I.write(c.st, r, p, mk('vec', None, ()))
    return one(c, UNIT)


@model('std::vec::Vec::truncate')
def vec_trunc(c):
    r, p = loc(c)
    v = as_vec(c.I.read(c.st, r, p))
    base, parts = v.a
    n = c.args[1]
    for k in range(len(parts) + 1):
        if c.I.decide(c.st, c.I.eq(n_add(c.I.veclen(base), N(k)), n)):
            w = mk('vec', base, parts[:k]) if parts[:k] or base is None else base
            c.I.write(c.st, r, p, w)
            return one(c, UNIT)
    return None


@model('std::vec::Vec::extend_from_slice', 'core::iter::traits::collect::Extend::extend', 'std::vec::Vec::append')
def vec_extend(c):
    r, p = loc(c)
    v = as_vec(c.I.read(c.st, r, p))
    w = val(c, 1)
    if w.t == 'vit':
        w = w.a[0]
    if w.t == 'vec' and w.a[0] is None:
        n = mk('vec', v.a[0], v.a[1] + w.a[1])
    elif v.a == (None, ()):
        n = w
    else:
        n = c.I.uf('extend', (v, w), c.I.vecty(v))
    c.I.write(c.st, r, p, n)
    if c.name.endswith('append'):
        r2, p2 = loc(c, 1)
        c.I.write(c.st, r2, p2, mk('vec', None, ()))
    return one(c, UNIT)


@model('std::vec::Vec::insert', 'std::vec::Vec::remove', 'std::vec::Vec::drain', 'std::vec::Vec::swap_remove', 'std::vec::Vec::reverse',
       'core::slice::<impl_[T]>::reverse')
def vec_opaque(c):
    r, p = loc(c)
    v = c.I.read(c.st, r, p)
    op = c.name.split('::')[-1]
    c.I.write(c.st, r, p, c.I.uf('vec.' + op, (v,) + tuple(c.args[1:]), c.I.vecty(v)))
    if op in ('remove', 'swap_remove'):
        return one(c, c.I.elem(c.st, v, c.args[1]))
    return one(c, UNIT if c.ret == ('tuple', ()) else c.I.uf('vec.' + op + '.r', (v,) + tuple(c.args[1:]), c.ret))


@model('std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def vec_retain(c):
    """each element is passed to the predicate once; those refused leave the vector"""
    I = c.I
    r, p = loc(c)
    v = I.read(c.st, r, p)
    if v.t == 'vec' and v.a[0] is None and not v.a[1]:
        return one(c, UNIT)
    ety = I.elem_ty(v)
    out = [(c.st.copy(), UNIT)]
    st = c.st
    e, (r, p, v, clo) = I.fresh(st, 'retained', ety, (r, p, v, c.args[1]))
    x = I.uf('filtered', (v,), I.vecty(v))
    I.policy.retaining(c, st, e)
    for s, b in I.call_value(st, c.fr, c.bb, clo, [mk('vref', e)], BOOL, c.span):
        d = I.decide(s, b)
        for val_ in ((True, False) if d is None else (d,)):
            s2 = s.copy()
            if d is None and not I.assume(s2, b, val_):
                continue
            I.policy.retained(c, s2, r, p, e, val_)
            if not val_:
                I.write(s2, r, p, x)
            out.append((s2, UNIT))
    return out


@model('core::slice::<impl_[T]>::last', 'core::slice::<impl_[T]>::first', 'core::slice::<impl_[T]>::last_mut',
       'core::slice::<impl_[T]>::first_mut')
def vec_last(c):
    ref = ref_to(c)
    v = c.I.load(c.st, ref)
    if need(c, c.I.eq(c.I.veclen(v), N(0))):
        return one(c, opt(c))
    i = n_add(c.I.veclen(v), N(-1)) if 'last' in c.name else N(0)
    return one(c, opt(c, elem_ref(c, ref, i)))


@model('core::slice::<impl_[T]>::get', 'core::slice::<impl_[T]>::get_mut')
def vec_get(c):
    ref = ref_to(c)
    i = c.args[1]
    if i.t != 'n':
        return None
    v = c.I.load(c.st, ref)
    if need(c, c.I.lt(i, c.I.veclen(v))):
        return one(c, opt(c, elem_ref(c, ref, i)))
    return one(c, opt(c))


def elem_ref(c, ref, i):
    r, p = c.I.deref_loc(c.st, ref)
    if r.t == 'I':
        return mk('vref', c.I.elem(c.st, c.I.read(c.st, r, p), i))
    return mk('ref', r, p + (('i', i),))


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(c):
    ref = ref_to(c)
    v = c.I.load(c.st, ref)
    i = c.args[1]
    I = c.I
    if i.t == 'n':
        inb = I.lt(i, I.veclen(v))
        d = I.decide(c.st, inb)
        if d is None:
            bad = c.st.copy()
            if I.assume(bad, inb, False):
                I.policy.on_panic(I, bad, c.fr, 'bounds', (i, v), False)
            I.assume(c.st, inb, True)
        elif not d:
            I.policy.on_panic(I, c.st, c.fr, 'bounds', (i, v), True)
            return []
        return one(c, elem_ref(c, ref, i))
    lo, hi, ok = range_parts(c, i, I.veclen(v))
    if ok:
        if stringish(c, v):
            if v.t == 'uf' and v.a[0] == 'substr':
                base, off = v.a[1][0], v.a[1][1]
            else:
                base, off = v, N(0)
            if not I.policy.slice(c, v, lo, hi):
                return []
            if lo is N(0) and hi is I.veclen(v):
                return one(c, ref)
            return one(c, mk('vref', I.uf('substr', (base, n_add(off, lo), n_add(off, hi)), STR)))
        return one(c, mk('vref', I.uf('subslice', (v, lo, hi), I.vecty(v))))
    if i.t in ('str', 'vref', 'ref'):
        return one(c, uf_result(c, 'index', (v, val(c, 1))))
    return None


def range_parts(c, i, ln):
    ty = c.I.vty(i) or (i.a[0] if i.t == 'zst' else None)
    if ty is None or ty[0] != 'adt':
        return None, None, False
    n = ty[1].split('::')[-1]
    f = lambda k: c.I.project(c.st, i, ('f', k))
    if n == 'Range':
        return f(0), f(1), True
    if n == 'RangeFrom':
        return f(0), ln, True
    if n == 'RangeTo':
        return N(0), f(0), True
    if n == 'RangeFull':
        return N(0), ln, True
    if n == 'RangeInclusive':
        return f(0), n_add(f(1), N(1)), True
    if n == 'RangeToInclusive':
        return N(0), n_add(f(0), N(1)), True
    return None, None, False


# ---------------------------------------------------------------- iteration
def sit(c, ref):
    v = c.I.load(c.st, ref)
    return mk('sit', ref, N(0), c.I.veclen(v))


def is_vecish(c, v):
    if v.t == 'vec':
        return True
    ty = c.I.vty(v)
    return bool(ty and (ty[0] in ('slice', 'array') or ty[0] == 'adt' and ty[1] == 'alloc::vec::Vec'))


@model('core::iter::traits::collect::IntoIterator::into_iter', 'core::slice::<impl_[T]>::iter',
       'core::slice::<impl_[T]>::iter_mut', 'std::vec::Vec::iter')
def into_iter(c):
    a = c.args[0]
    if a.t in ('ref', 'vref') or (c.I.vty(a) or ('',))[0] == 'ref':
        r = ref_to(c)
        v = c.I.load(c.st, r)
        if is_vecish(c, v):
            return one(c, sit(c, r))
        if v.t == 'map' and len(v.a[0]) < 2:
            return one(c, map_items(v))
        if v.t in ('sym', 'uf', 'phi') or c.I.vty(v):
            ty = c.I.vty(v)
            if ty and ty[0] == 'adt' and 'HashMap' in ty[1]:
                return one(c, c.I.uf('mapiter', (v,), c.ret))
        return one(c, a)
    if is_vecish(c, a):
        return one(c, mk('vit', a, N(0), c.I.veclen(a)))
    ty = c.I.vty(a)
    if ty and ty[0] == 'adt' and 'HashMap' in ty[1]:
        return one(c, c.I.uf('mapiter', (a,), c.ret))
    return one(c, a)


def map_items(m):
    """what a map of at most one entry answers: the order is not known of more"""
    kv = tuple(mk('tup', (mk('vref', k), mk('vref', v))) for k, v in m.a[0])
    return mk('vit', mk('vec', None, kv), N(0), N(len(kv)))


@model('std::collections::HashMap::iter', 'std::collections::HashMap::keys', 'std::collections::HashMap::values')
def map_iter(c):
    m = val(c)
    if m.t == 'map' and len(m.a[0]) < 2 and c.name.endswith('::iter'):
        return one(c, map_items(m))
    return one(c, c.I.uf('mapiter', (val(c),), c.ret))


def step(c, back):
    r, p = loc(c)
    it = c.I.read(c.st, r, p)
    I = c.I
    if it.t in ('sit', 'vit'):
        src, lo, hi = it.a
        if need(c, I.lt(lo, hi)):
            if back:
                hi = n_add(hi, N(-1))
                i = hi
            else:
                i = lo
                lo = n_add(lo, N(1))
            I.write(c.st, r, p, mk(it.t, src, lo, hi))
            I.policy.iterated(c, it, i)
            if it.t == 'sit':
                return one(c, opt(c, elem_ref(c, src, i)))
            return one(c, opt(c, I.elem(c.st, src, i)))
        I.policy.exhausted(c, it)
        return one(c, opt(c))
    if it.t == 'adt' or I.vty(it) and I.vty(it)[0] == 'adt':
        n = (I.vty(it))[1]
        if n.endswith('::Range') and I.vty(it)[2:] and I.vty(it)[2][0] == 'int':
            lo, hi = I.project(c.st, it, ('f', 0)), I.project(c.st, it, ('f', 1))
            if need(c, I.lt(lo, hi)):
                if back:
                    hi = n_add(hi, N(-1))
                    v = hi
                else:
                    v = lo
                    lo = n_add(lo, N(1))
                I.write(c.st, r, p, mk('adt', I.vty(it), 0, (lo, hi)))
                return one(c, opt(c, v))
            return one(c, opt(c))
        if n.endswith('::RangeFrom') and I.vty(it)[2:] and I.vty(it)[2][0] == 'int' and not back:
            lo = I.project(c.st, it, ('f', 0))
            I.write(c.st, r, p, mk('adt', I.vty(it), 0, (n_add(lo, N(1)),)))
            return one(c, opt(c, lo))
    return 'opaque'


def opaque_next(c):
    return one(c, c.I.fresh(c.st, 'next@%s.%s' % c.site, c.ret))


@model('core::iter::traits::iterator::Iterator::next')
def it_next(c):
    r = step(c, False)
    if r == 'opaque':
        x = c.I.load(c.st, c.args[0])
        if x.t == 'adt' or x.t in ('ref', 'vref'):
            return None
        return opaque_next(c)
    return r


@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def it_next_back(c):
    r = step(c, True)
    if r == 'opaque':
        x = c.I.load(c.st, c.args[0])
        if x.t == 'adt' or x.t in ('ref', 'vref'):
            return None
        return opaque_next(c)
    return r


@model('core::iter::traits::iterator::Iterator::nth')
def it_nth(c):
    r, p = loc(c)
    it = c.I.read(c.st, r, p)
    if it.t not in ('sit', 'vit'):
        return None
    src, lo, hi = it.a
    i = n_add(lo, c.args[1])
    if need(c, c.I.lt(i, hi)):
        c.I.write(c.st, r, p, mk(it.t, src, n_add(i, N(1)), hi))
        return one(c, opt(c, elem_ref(c, src, i) if it.t == 'sit' else c.I.elem(c.st, src, i)))
    c.I.write(c.st, r, p, mk(it.t, src, hi, hi))
    return one(c, opt(c))


@model('core::iter::traits::iterator::Iterator::count')
def it_count(c):
    if c.args[0].t in ('sit', 'vit'):
        return one(c, n_sub(c.args[0].a[2], c.args[0].a[1]))
    if c.args[0].t == 'adt':
        return None
    return one(c, c.I.uf('count', (c.args[0],), c.ret))


@model('core::iter::traits::iterator::Iterator::collect', 'core::iter::traits::collect::FromIterator::from_iter')
def it_collect(c):
    a = c.args[0]
    if a.t == 'vit':
        return one(c, a.a[0])
    if a.t == 'sit' and c.ret[0] == 'adt':
        v = c.I.load(c.st, a.a[0])
        if c.I.decide(c.st, c.I.eq(a.a[1], N(0))) and a.a[2] is c.I.veclen(v):
            return one(c, c.I.uf('refs', (v,), c.ret))
    return one(c, c.I.uf('collect', (a,), c.ret))


@model('std::slice::Iter::cloned', 'core::slice::Iter::copied')
def it_cloned(c):
    return one(c, c.args[0])


# ---------------------------------------------------------------- maps
@model('std::collections::HashMap::new')
def map_new(c):
    return one(c, mk('map', ()))


@model('std::collections::HashMap::insert')
def map_insert(c):
    r, p = loc(c)
    m = c.I.read(c.st, r, p)
    k = val(c, 1)
    old = map_lookup(c, m, k, c.ret)
    c.I.policy.map_insert(c, r, p, m, k, c.args[2])
    if m.t == 'map':
        n = mk('map', tuple((x, y) for x, y in m.a[0] if x is not k) + ((k, c.args[2]),))
        if any(x.t != 'str' for x, _ in n.a[0]) and len(n.a[0]) > 1:
            n = mk('mapset', m, k, c.args[2])
    else:
        n = mk('mapset', m, k, c.args[2])
    c.I.write(c.st, r, p, n)
    return one(c, old)


def map_lookup(c, m, k, ty, by_ref=False):
    while True:
        if m.t == 'map':
            for x, y in m.a[0]:
                if x is k:
                    return mk('adt', ty, 1, (mk('vref', y) if by_ref else y,))
            if k.t == 'str' and all(x.t == 'str' for x, _ in m.a[0]) or not m.a[0]:
                return mk('adt', ty, 0, ())
            if len(m.a[0]) == 1 and stringish(c, k) and stringish(c, m.a[0][0][0]):
                y = m.a[0][0][1]
                if need(c, streq(c, m.a[0][0][0], k)):
                    return mk('adt', ty, 1, (mk('vref', y) if by_ref else y,))
                return mk('adt', ty, 0, ())
            break
        if m.t == 'mapset':
            if m.a[1] is k:
                return mk('adt', ty, 1, (mk('vref', m.a[2]) if by_ref else m.a[2],))
            if m.a[1].t == 'str' and k.t == 'str':
                m = m.a[0]
                continue
            if stringish(c, k) and stringish(c, m.a[1]):
                if need(c, streq(c, m.a[1], k)):
                    return mk('adt', ty, 1, (mk('vref', m.a[2]) if by_ref else m.a[2],))
                m = m.a[0]
                continue
        break
    return c.I.uf('mapget', (m, k), ty)


@model('std::collections::HashMap::get')
def map_get(c):
    return one(c, map_lookup(c, val(c), val(c, 1), c.ret, True))


def certain(m, k):
    """are all keys of a map, and this one, constants"""
    return m.t == 'map' and (k.t == 'str' or not m.a[0]) and all(x.t == 'str' for x, _ in m.a[0])


@model('std::collections::HashSet::new', 'std::collections::BTreeSet::new')
def set_new(c):
    return one(c, mk('map', ()))


@model('std::collections::HashSet::contains', 'std::collections::BTreeSet::contains')
def set_has(c):
    m, k = val(c), val(c, 1)
    return one(c, mk('b', any(x is k for x, _ in m.a[0]))) if certain(m, k) else None


@model('std::collections::HashSet::insert', 'std::collections::BTreeSet::insert')
def set_insert(c):
    r, p = loc(c)
    m, k = c.I.read(c.st, r, p), c.args[1]
    if k.t in ('ref', 'vref'):
        k = val(c, 1)
    if not certain(m, k):
        return None
    new = not any(x is k for x, _ in m.a[0])
    c.I.write(c.st, r, p, mk('map', m.a[0] + ((k, UNIT),)) if new else m)
    return one(c, mk('b', new))


@model('std::collections::HashSet::remove', 'std::collections::BTreeSet::remove')
def set_remove(c):
    r, p = loc(c)
    m, k = c.I.read(c.st, r, p), val(c, 1)
    if not certain(m, k):
        return None
    had = any(x is k for x, _ in m.a[0])
    c.I.write(c.st, r, p, mk('map', tuple((x, y) for x, y in m.a[0] if x is not k)))
    return one(c, mk('b', had))


@model('std::collections::HashMap::contains_key')
def map_has(c):
    if certain(val(c), val(c, 1)):
        return one(c, mk('b', any(x is val(c, 1) for x, _ in val(c).a[0])))
    return one(c, mk('uf', 'maphas', (val(c), val(c, 1)), BOOL))


@model('std::collections::HashMap::remove')
def map_remove(c):
    r, p = loc(c)
    m = c.I.read(c.st, r, p)
    k = val(c, 1)
    if certain(m, k):
        c.I.write(c.st, r, p, mk('map', tuple((x, y) for x, y in m.a[0] if x is not k)))
        return one(c, map_lookup(c, m, k, c.ret))
    c.I.write(c.st, r, p, c.I.uf('mapdel', (m, k), c.I.vty(m) or ('other', 'map')))
    return one(c, map_lookup(c, m, k, c.ret))


# ---------------------------------------------------------------- misc
@model('std::mem::drop', 'core::mem::drop')
def mem_drop(c):
    own = c.I.own_drop(c.args[0])
    if own:
        r = mk('vref', c.args[0])
        outs = c.I.call_body(c.st, own[0], own[1], [r], c.fr, c.bb)
        if outs is not None:
            for s, _ in outs:
                for g in guards_in(c.args[0]):
                    c.I.release(s, g)
            return [(s, UNIT) for s, _ in outs]
    c.I.drop_value(c.st, c.args[0], c.fr, c.bb)
    return one(c, UNIT)


@model('core::mem::replace', 'std::mem::replace')
def mem_replace(c):
    r, p = loc(c)
    old = c.I.read(c.st, r, p)
    c.I.write(c.st, r, p, c.args[1])
    return one(c, old)


@model('core::mem::swap', 'std::mem::swap')
def mem_swap(c):
    r, p = loc(c)
    q, o = loc(c, 1)
    x, y = c.I.read(c.st, r, p), c.I.read(c.st, q, o)
    c.I.write(c.st, r, p, y)
    c.I.write(c.st, q, o, x)
    return one(c, UNIT)


@model('std::cell::RefCell::replace')
def cell_replace(c):
    r, p = loc(c)
    old = c.I.read(c.st, r, p + ('c',))
    c.I.write(c.st, r, p + ('c',), c.args[1])
    return one(c, old)


@model('core::mem::take', 'std::mem::take', 'std::cell::RefCell::take', 'std::cell::Cell::take')
def mem_take(c):
    r, p = loc(c)
    if c.name.endswith('Cell::take'):
        p = p + ('c',)
    old = c.I.read(c.st, r, p)
    ty = c.ret
    if ty == STRING:
        new = mk('str', '')
    elif ty[0] == 'adt' and ty[1] == 'alloc::vec::Vec':
        new = mk('vec', None, ())
    elif ty[0] == 'adt' and ty[1] == 'core::option::Option':
        new = mk('adt', ty, 0, ())
    else:
        return None
    c.I.write(c.st, r, p, new)
    return one(c, old)


@model('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def discriminant_value(c):
    x = val(c)
    return one(c, c.I.discr(c.st, x, c.I.vty(x) or c.targs[0]))


@model('core::ops::range::RangeBounds::start_bound', 'core::ops::range::RangeBounds::end_bound')
def bound(c):
    x = val(c)
    ty = c.I.vty(x)
    ret = c.ret
    end = c.name.endswith('end_bound')
    B = lambda v, f=None: mk('adt', ret, v, () if f is None else (mk('vref', f),))
    n = ty[1].split('::')[-1] if ty and ty[0] == 'adt' else None
    f = lambda k: c.I.project(c.st, x, ('f', k))
    INC, EXC, UNB = 0, 1, 2
    if n == 'Range':
        return one(c, B(EXC, f(1)) if end else B(INC, f(0)))
    if n == 'RangeFrom':
        return one(c, B(UNB) if end else B(INC, f(0)))
    if n == 'RangeTo':
        return one(c, B(EXC, f(0)) if end else B(UNB))
    if n == 'RangeToInclusive':
        return one(c, B(INC, f(0)) if end else B(UNB))
    if n == 'RangeFull':
        return one(c, B(UNB))
    if n == 'RangeInclusive':
        return one(c, B(INC, f(1)) if end else B(INC, f(0)))
    if x.t == 'tup' or ty and ty[0] == 'tuple':
        b = f(1 if end else 0)
        if b.t == 'adt':
            return one(c, B(b.a[1], b.a[2][0] if b.a[2] else None))
    return one(c, c.I.uf('bound' + ('E' if end else 'S'), (x,), ret))


@model('core::ops::range::RangeInclusive::new')
def ri_new(c):
    return one(c, mk('adt', c.ret, 0, (c.args[0], c.args[1], FALSE)))


def panic_model(kind):
    def f(c):
        c.I.policy.on_panic(c.I, c.st, c.fr, kind, c.args[0] if c.args else None, True)
        return []
    return f


for n, k in (('core::panicking::panic_fmt', 'panic'), ('core::panicking::panic', 'panic'),
             ('core::panicking::unreachable_default_msg', 'unreachable'), ('core::panicking::panic_explicit', 'panic'),
             ('std::option::unwrap_failed', 'unwrap'), ('core::option::unwrap_failed', 'unwrap'),
             ('core::option::expect_failed', 'expect'), ('std::option::expect_failed', 'expect'),
             ('core::result::unwrap_failed', 'unwrap'), ('std::result::unwrap_failed', 'unwrap'),
             ('std::result::unwrap_failed::unwrap_failed_inner', 'unwrap'),
             ('core::result::unwrap_failed::unwrap_failed_inner', 'unwrap'),
             ('std::rt::begin_panic', 'panic'), ('std::rt::panic_fmt', 'panic'), ('core::panicking::assert_failed', 'assert'),
             ('core::panicking::panic_display', 'panic'), ('core::panicking::panic_nounwind', 'panic'),
             ('std::process::exit', 'exit'), ('std::process::abort', 'exit')):
    M[n] = panic_model(k)
