import re
"""Abstract models of std and of the crate's XML tree primitives."""
from .mir import short
from . import engine as X
from .engine import mk, Str, Int, Agg, Some, Ok, Err, Ref, NONE, UNIT, UNDEF, ABSENT, EMPTY, TRUE, FALSE, OPT, RES, CF

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def B(c):
    return c.E.B


def bval(n):
    return mk('b', n)


# ------------------------------------------------------------------ identity-like
IDENT = ['anyhow::Context::context', 'anyhow::Ok', 'std::hint::must_use', 'anyhow::__private::must_use',
         'std::cell::RefCell::<T>::new', 'std::convert::Into::into', 'std::convert::From::from',
         'std::convert::AsRef::as_ref', 'std::convert::identity',
         'std::option::Option::<T>::as_mut', 'std::option::Option::<T>::as_deref', 'std::boxed::Box::<T>::new_in',
         'anyhow::Context::with_context', 'std::result::Result::<T, E>::map_err',
         'std::iter::Iterator::by_ref', 'std::borrow::Borrow::borrow', 'std::cell::RefCell::<T>::into_inner',
         'std::ops::Deref::deref', 'std::string::String::as_mut_str', 'std::vec::Vec::<T, A>::as_mut_slice']


def m_first(c):
    return c.args[0]


for n in ('std::hint::must_use',
          'anyhow::__private::must_use', 'std::cell::RefCell::<T>::new', 'std::convert::Into::into',
          'std::convert::identity', 'std::result::Result::<T, E>::map_err', 'std::iter::Iterator::by_ref',
          'std::cell::Cell::<T>::new'):
    MODELS[n] = m_first


def into_num(c):
    """Conversions whose value changes its form: a boolean into a number, a value into an option of it."""
    ty = c.E.P.types[c.dty] if isinstance(c.dty, int) else None
    src = argtype(c)
    src = c.E.P.types[src] if isinstance(src, int) else src
    if ty is None or not isinstance(src, dict):
        return None
    if ty['k'] == 'int' and src['k'] == 'bool':
        return c.E.lift(c.args[0], lambda t: c.E.ite(t.a[0], Int(1), Int(0)) if t.op == 'b' else mk('cast', ty['s'], t))
    return None


@model('std::convert::Into::into')
def m_into(c):
    v = into_num(c)
    if v is not None:
        return v
    ty = c.E.P.types[c.dty] if isinstance(c.dty, int) else None
    if ty is not None and ty['k'] == 'int':
        return c.E.resize(c.args[0], argtype(c), c.dty)
    return c.args[0]


@model('std::convert::From::from')
def m_from(c):
    v = into_num(c)
    if v is not None:
        return v
    ty = c.E.P.types[c.dty] if isinstance(c.dty, int) else None
    if ty is not None and ty['k'] == 'int':
        return c.E.resize(c.args[0], argtype(c), c.dty)
    if ty is None or ty['k'] != 'adt' or ty['name'].split('::')[-1] not in ('HashMap', 'BTreeMap'):
        return c.args[0]
    v = c.args[0]
    es = None
    if v.op == 'arr':
        es = list(v.a[0])
    elif v.op == 'vec' and v.a[0] is EMPTY and all(e[0] == 1 and e[1] == 'one' for e in v.a[1]):
        es = [e[2] for e in v.a[1]]
    if es is None or not all(x.op == 'agg' and len(x.a[2]) == 2 for x in es):
        return c.args[0]
    m = mk('map', EMPTY, ())
    for x in es:
        m = c.E.map_set(m, c.E.deep(c.st, x.a[2][0]), x.a[2][1])
    return m


@model('anyhow::Context::context', 'anyhow::Context::with_context')
def m_context(c):
    t = argtype(c)
    if t is not None and c.E.P.is_option(t):
        return c.E.lift(E_sym_enum(c.E, c.args[0], OPT), lambda x: Ok(x.a[2][0]) if x.a[1] == 1 else Err(mk('err')))
    return c.args[0]


@model('anyhow::Ok')
def m_anyok(c):
    return Ok(c.args[0])


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref',
       'std::borrow::Borrow::borrow', 'std::convert::AsMut::as_mut')
def m_deref(c):
    E, st = c.E, c.st
    a = c.args[0]

    def f(t):
        if t.op == 'ref':
            v = E.load(st, t)

            def h(x):
                if x.op == 'ref':
                    return x
                if x.op in ('vec', 'map', 'agg', 'upd', 'undef'):
                    return t
                if x.op == 'str':
                    return x
                return x if stringish(c) else (t if containerish(c) else x)
            return E.lift(v, h)
        return t
    return E.lift(a, f)


def argtype(c, i=0):
    o = c.blk['a'][i]
    if o[0] in ('c', 'm'):
        return c.E.ptype(c.fr.fn, o[1])
    return o[1] if o[0] == 'k' else None


def pointee(c, i=0):
    t = argtype(c, i)
    P = c.E.P
    n = 0
    while t is not None and P.types[t]['k'] in ('ref', 'ptr') and n < 4:
        t = P.types[t]['t']
        n += 1
    return P.types[t] if t is not None else None


def stringish(c):
    ty = pointee(c)
    return bool(ty) and ty['k'] == 'adt' and ty['name'].endswith('String')


def containerish(c):
    ty = pointee(c)
    return bool(ty) and ty['k'] == 'adt' and ty['name'].split('::')[-1] in ('Vec', 'VecDeque', 'HashMap', 'BTreeMap', 'HashSet')


@model('std::rc::Rc::<T>::new', 'std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new')
def m_rcnew(c):
    root = ('H', c.fr.ctx, c.b)
    c.st.st[root] = c.args[0]
    return Ref(root)


@model('std::rc::Rc::<T, A>::downgrade')
def m_downgrade(c):
    return c.E.load(c.st, c.args[0])


@model('std::rc::Weak::<T, A>::upgrade')
def m_upgrade(c):
    E = c.E
    v = E.load(c.st, c.args[0])
    if v.op == 'ref' and v.a[0][0] == 'DOC' and not v.a[1]:
        # the handle of a part dies when its document is closed
        x = c.st.st.get(('CLOSED', v.a[0][1]))
        if x is not None:
            b = E.truth(x)
            return E.g([(b, NONE), (E.B.NOT(b), Some(v))])
    return Some(v)


@model('std::rc::Weak::<T>::new')
def m_weaknew(c):
    return mk('weaknull')


@model('std::cell::RefCell::<T>::try_borrow', 'std::cell::RefCell::<T>::try_borrow_mut')
def m_tryborrow(c):
    return Ok(c.args[0])


@model('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut')
def m_borrow(c):
    return c.args[0]


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::option::Option::<&T>::cloned',
       'std::option::Option::<&T>::copied', 'core::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec',
       'std::clone::Clone::clone_from')
def m_clone(c):
    E, st = c.E, c.st
    v = c.args[0]
    if c.f.get('path', '').endswith('cloned') or c.f.get('path', '').endswith('copied'):
        return E.lift(v, lambda t: Some(E.load(st, t.a[2][0])) if t.op == 'agg' and t.a[1] == 1 else t)
    ty = pointee(c)
    v = E.load(st, v)
    # Rc / Weak clones keep the reference; owned data is loaded through remaining references
    if ty and ty['k'] == 'adt' and ty['name'].split('::')[-1] in ('Rc', 'Weak', 'Arc'):
        return v
    if ty and (ty['k'] in ('str', 'slice') or (ty['k'] == 'adt' and ty['name'].endswith('String'))):
        return E.deep(st, v)
    if ty and ty['k'] == 'adt' and v.op == 'ref':
        return E.deep(st, v)
    return v


# ------------------------------------------------------------------ Try / Option / Result
@model('std::ops::Try::branch')
def m_branch(c):
    E = c.E
    v = c.args[0]
    t = argtype(c)
    opt = t is not None and E.P.is_option(t)
    if opt:
        return E.lift(E_sym_enum(E, v, OPT), lambda x: Agg(CF, 0, (x.a[2][0],)) if x.a[1] == 1 else Agg(CF, 1, (NONE,)))
    if E.strict:
        return E.lift(E_sym_enum(E, v, RES), lambda x: Agg(CF, 0, (x.a[2][0] if x.a[2] else UNIT,)) if x.a[1] == 0 else Agg(CF, 1, (Err(x.a[2][0] if x.a[2] else mk('err')),)))
    alts = []
    ok = 0
    for gd, x in E.alts(v):
        if x.op == 'agg':
            if x.a[1] == 0:
                alts.append((gd, x.a[2][0] if x.a[2] else UNIT))
                ok = E.B.OR(ok, gd)
        elif x.op == 'undef':
            continue
        else:
            alts.append((gd, E.proj(x, ('vf', 0, 0))))
            ok = E.B.OR(ok, gd)
    if v.op != 'g' and alts:
        ok = 1
    rej = E.B.AND(c.st.pc, E.B.NOT(ok))
    if rej:
        k = (c.fr.fn.key, c.fr.ctx, c.b)
        E.rejects[k] = (rej, c.line)
    p = E.B.AND(c.st.pc, ok)
    if p == 0:
        raise X.Dead()
    if p != c.st.pc:
        c.st.pc = p
    r = E.g(alts) if len(alts) > 1 else alts[0][1]
    return Agg(CF, 0, (r,))


@model('std::ops::FromResidual::from_residual')
def m_residual(c):
    v = c.args[0]
    t = c.dty
    if t is not None and c.E.P.is_option(t):
        return NONE
    return Err(v)


def E_sym_enum(E, v, name):
    """Expand symbolic Option/Result values into explicit variants."""
    def f(t):
        if t.op == 'agg':
            return t
        if t.op == 'undef':
            return t
        d = E.discr(t, name)
        if name == OPT:
            c = E.cond_eq(d, 1)
            return E.g([(c, Some(E.proj(t, ('vf', 1, 0)))), (E.B.NOT(c), NONE)])
        c = E.cond_eq(d, 0)
        return E.g([(c, Ok(E.proj(t, ('vf', 0, 0)))), (E.B.NOT(c), Err(E.proj(t, ('vf', 1, 0))))])
    r = E.lift(v, f)
    return E.lift(r, lambda t: t if t.op == 'agg' else NONE if name == OPT else t)


def opt(c, i=0):
    return E_sym_enum(c.E, c.args[i], OPT)


def res(c, i=0):
    return E_sym_enum(c.E, c.args[i], RES)


def closure_lift(c, v, variant, wrap, other, extra=lambda x: [x]):
    """Apply closure args[1] to payloads of `variant`."""
    E, st = c.E, c.st
    out = []
    pc0 = st.pc
    base = st.st
    merged = None
    for gd, t in E.alts(v):
        s = X.State(E.B.AND(pc0, gd), dict(base))
        if s.pc == 0:
            continue
        if t.op == 'agg' and t.a[1] == variant:
            r = call_in(c, s, c.args[1], extra(t.a[2][0]))
            if r is None:
                continue
            out.append((gd, wrap(r)))
        else:
            out.append((gd, other(t)))
        merged = s if merged is None else E.join(merged, s)
    if merged is None:
        raise X.Dead()
    st.st = merged.st
    st.pc = merged.pc
    return E.g(out)


def call_in(c, s, fv, args):
    """Call closure value in state s; returns value or fresh symbol; None when dead."""
    c2 = X.Call(c.E, c.fr, c.b, c.blk, s, c.f, c.args, c.dty)
    try:
        r = c.E.call_value(c2, fv, args)
    except X.Dead:
        return None
    if r is None:
        return c.fresh('closure', *[a for a in args if isinstance(a, X.T) and a.op not in ('agg', 'g', 'vec', 'map')][:2])
    return r


@model('std::option::Option::<T>::ok_or', 'std::option::Option::<T>::ok_or_else')
def m_okor(c):
    return c.E.lift(opt(c), lambda t: Ok(t.a[2][0]) if t.a[1] == 1 else Err(mk('err')))


@model('std::option::Option::<T>::unwrap', 'std::option::Option::<T>::expect', 'std::result::Result::<T, E>::unwrap',
       'std::result::Result::<T, E>::expect')
def m_unwrap(c):
    E = c.E
    isopt = 'option' in c.f['path']
    good = 1 if isopt else 0
    alts = []
    ok = 0
    for gd, x in E.alts(c.args[0]):
        if x.op == 'agg':
            if x.a[1] == good:
                alts.append((gd, x.a[2][0] if x.a[2] else UNIT))
                ok = E.B.OR(ok, gd)
        elif x.op != 'undef':
            alts.append((gd, E.proj(x, ('vf', good, 0))))
            ok = E.B.OR(ok, gd)
    if c.args[0].op != 'g' and alts:
        ok = 1
    if not alts:
        raise X.Dead()
    c.st.pc = E.B.AND(c.st.pc, ok)
    if c.st.pc == 0:
        raise X.Dead()
    return E.g(alts) if len(alts) > 1 else alts[0][1]


@model('std::option::Option::<T>::unwrap_or', 'std::result::Result::<T, E>::unwrap_or')
def m_unwrap_or(c):
    if 'option' in c.f['path']:
        return c.E.lift(opt(c), lambda t: t.a[2][0] if t.a[1] == 1 else c.args[1])
    return c.E.lift(res(c), lambda t: t.a[2][0] if t.a[1] == 0 else c.args[1])


@model('std::option::Option::<T>::unwrap_or_default', 'std::result::Result::<T, E>::unwrap_or_default')
def m_unwrap_or_default(c):
    d = default_of(c, c.dty)
    if 'option' in c.f['path']:
        return c.E.lift(opt(c), lambda t: t.a[2][0] if t.a[1] == 1 else d)
    return c.E.lift(res(c), lambda t: t.a[2][0] if t.a[1] == 0 else d)


@model('std::option::Option::<T>::unwrap_or_else', 'std::result::Result::<T, E>::unwrap_or_else')
def m_unwrap_or_else(c):
    if 'option' in c.f['path']:
        return closure_lift(c, opt(c), 0, lambda r: r, lambda t: t.a[2][0] if t.a[1] == 1 else UNDEF, extra=lambda x: [])\
            if False else _uoe(c, opt(c), 1)
    return _uoe(c, res(c), 0)


def _uoe(c, v, good):
    E, st = c.E, c.st
    out = []
    pc0, base, merged = st.pc, st.st, None
    for gd, t in E.alts(v):
        s = X.State(E.B.AND(pc0, gd), dict(base))
        if s.pc == 0:
            continue
        if t.op == 'agg' and t.a[1] == good:
            out.append((gd, t.a[2][0]))
        else:
            r = call_in(c, s, c.args[1], [] if good == 1 else [t.a[2][0] if t.a[2] else UNIT])
            if r is None:
                continue
            out.append((gd, r))
        merged = s if merged is None else E.join(merged, s)
    if merged is None:
        raise X.Dead()
    st.st, st.pc = merged.st, merged.pc
    return E.g(out)


@model('core::bool::<impl bool>::then', 'core::bool::<impl bool>::then_some', 'bool::then', 'bool::then_some')
def m_then(c):
    E, st = c.E, c.st
    b = E.truth(c.args[0])
    if c.f['path'].endswith('then_some'):
        x = c.args[1]
    elif E.B.AND(st.pc, b) == 0:
        x = None
    else:
        s2 = X.State(E.B.AND(st.pc, b), dict(st.st))
        x = call_in(c, s2, c.args[1], [])
        s1 = X.State(E.B.AND(st.pc, E.B.NOT(b)), dict(st.st))
        if x is None:
            b = 0
        m = s1 if x is None else s2 if s1.pc == 0 else E.join(s2, s1)
        st.st, st.pc = m.st, m.pc
    return NONE if x is None else E.g([(b, Some(x)), (E.B.NOT(b), NONE)])


@model('std::option::Option::<T>::map')
def m_optmap(c):
    return closure_lift(c, opt(c), 1, Some, lambda t: t)


@model('std::option::Option::<T>::and_then')
def m_optandthen(c):
    return closure_lift(c, opt(c), 1, lambda r: r, lambda t: t)


@model('std::option::Option::<T>::filter')
def m_optfilter(c):
    E = c.E
    v = opt(c)
    out = []
    for gd, t in E.alts(v):
        if t.a[1] == 0:
            out.append((gd, t))
            continue
        s = X.State(E.B.AND(c.st.pc, gd), dict(c.st.st))
        root = ('H', c.fr.ctx, ('flt', c.b))
        s.st[root] = t.a[2][0]
        r = call_in(c, s, c.args[1], [Ref(root)])
        b = E.truth(r) if r is not None else 0
        out.append((E.B.AND(gd, b), t))
        out.append((E.B.AND(gd, E.B.NOT(b)), NONE))
    return E.g(out)


@model('std::option::Option::<T>::is_some_and')
def m_issomeand(c):
    E = c.E
    r = 0
    for gd, t in E.alts(opt(c)):
        if t.a[1] == 1:
            s = X.State(E.B.AND(c.st.pc, gd), dict(c.st.st))
            x = call_in(c, s, c.args[1], [t.a[2][0]])
            if x is not None:
                r = E.B.OR(r, E.B.AND(gd, E.truth(x)))
    return bval(r)


@model('std::result::Result::<T, E>::is_ok_and')
def m_isokand(c):
    E = c.E
    r = 0
    for gd, t in E.alts(E.split(c.ld(0), RES) if hasattr(E, 'split') else c.ld(0)):
        if t.op == 'agg' and t.a[1] == 0:
            s = X.State(E.B.AND(c.st.pc, gd), dict(c.st.st))
            x = call_in(c, s, c.args[1], [t.a[2][0]])
            if x is not None:
                r = E.B.OR(r, E.B.AND(gd, E.truth(x)))
        elif t.op != 'agg':
            return None if False else c.fresh('is_ok_and')
    return bval(r)


@model('std::option::Option::<T>::map_or')
def m_mapor(c):
    c2 = X.Call(c.E, c.fr, c.b, c.blk, c.st, c.f, [c.args[0], c.args[2]], c.dty)
    return closure_lift(c2, opt(c), 1, lambda r: r, lambda t: c.args[1])


# ------------------------------------------------- combinators with two arms
def two_arms(c, v, arms):
    """arms: variant -> (callable or None, wrap). A callable is a closure term: it is run with the payload (when
    `takes`), in the states in which the value has that variant."""
    E, st = c.E, c.st
    out = []
    pc0, base, merged = st.pc, st.st, None
    for gd, t in E.alts(v):
        if t.op != 'agg' or t.a[1] not in arms:
            out.append((gd, t))
            continue
        s = X.State(E.B.AND(pc0, gd), dict(base))
        if s.pc == 0:
            continue
        fn, takes, wrap = arms[t.a[1]]
        r = t.a[2][0] if t.a[2] else UNIT
        if fn is not None:
            r = call_in(c, s, fn, [r] if takes else [])
            if r is None:
                continue
        out.append((gd, wrap(r, t)))
        merged = s if merged is None else E.join(merged, s)
    if merged is None:
        raise X.Dead()
    st.st, st.pc = merged.st, merged.pc
    return E.g(out)


def same_arm(r, t):
    return t


def plain_arm(r, t):
    return r


@model('std::option::Option::<T>::map_or_else')
def m_optmapor_else(c):
    return two_arms(c, opt(c), {0: (c.args[1], False, plain_arm), 1: (c.args[2], True, plain_arm)})


@model('std::option::Option::<T>::or_else')
def m_optorelse(c):
    return two_arms(c, opt(c), {0: (c.args[1], False, plain_arm), 1: (None, False, same_arm)})


@model('std::option::Option::<T>::or')
def m_optor(c):
    return c.E.lift(opt(c), lambda t: t if t.a[1] == 1 else c.args[1])


@model('std::option::Option::<T>::and')
def m_optand(c):
    return c.E.lift(opt(c), lambda t: c.args[1] if t.a[1] == 1 else NONE)


@model('std::option::Option::<std::option::Option<T>>::flatten')
def m_optflatten(c):
    return c.E.lift(opt(c), lambda t: t.a[2][0] if t.a[1] == 1 else NONE)


@model('std::option::Option::<T>::zip')
def m_optzip(c):
    b = opt(c, 1)
    return c.E.lift(opt(c), lambda t: NONE if t.a[1] != 1 else
                    c.E.lift(b, lambda u: Some(Agg('tuple', 0, (t.a[2][0], u.a[2][0]))) if u.a[1] == 1 else NONE))


@model('std::option::Option::<std::result::Result<T, E>>::transpose')
def m_opttranspose(c):
    def inner(r):
        return c.E.lift(E_sym_enum(c.E, r, RES), lambda u: Ok(Some(u.a[2][0])) if u.a[1] == 0 else u)
    return c.E.lift(opt(c), lambda t: inner(t.a[2][0]) if t.a[1] == 1 else Ok(NONE))


@model('std::result::Result::<std::option::Option<T>, E>::transpose')
def m_restranspose(c):
    def inner(r):
        return c.E.lift(E_sym_enum(c.E, r, OPT), lambda u: Some(Ok(u.a[2][0])) if u.a[1] == 1 else NONE)
    return c.E.lift(res(c), lambda t: inner(t.a[2][0]) if t.a[1] == 0 else Some(t))


@model('std::result::Result::<T, E>::map_or')
def m_resmapor(c):
    return two_arms(c, res(c), {0: (c.args[2], True, plain_arm), 1: (None, False, lambda r, t: c.args[1])})


@model('std::result::Result::<T, E>::map_or_else')
def m_resmaporelse(c):
    return two_arms(c, res(c), {0: (c.args[2], True, plain_arm), 1: (c.args[1], True, plain_arm)})


@model('std::result::Result::<T, E>::or_else')
def m_resorelse(c):
    return two_arms(c, res(c), {0: (None, False, same_arm), 1: (c.args[1], True, plain_arm)})


@model('std::result::Result::<T, E>::and')
def m_resand(c):
    return c.E.lift(res(c), lambda t: c.args[1] if t.a[1] == 0 else t)


@model('std::result::Result::<T, E>::or')
def m_resor(c):
    return c.E.lift(res(c), lambda t: t if t.a[1] == 0 else c.args[1])


@model('std::result::Result::<T, E>::err')
def m_reserr(c):
    return c.E.lift(res(c), lambda t: Some(t.a[2][0]) if t.a[1] == 1 else NONE)


@model('std::option::Option::<T>::is_none_or')
def m_isnoneor(c):
    E = c.E
    r = 0
    for gd, t in E.alts(opt(c)):
        if t.a[1] == 0:
            r = E.B.OR(r, gd)
        else:
            s = X.State(E.B.AND(c.st.pc, gd), dict(c.st.st))
            x = call_in(c, s, c.args[1], [t.a[2][0]])
            if x is not None:
                r = E.B.OR(r, E.B.AND(gd, E.truth(x)))
    return bval(r)


@model('std::result::Result::<T, E>::map')
def m_resmap(c):
    return closure_lift(c, res(c), 0, Ok, lambda t: t)


@model('std::result::Result::<T, E>::and_then')
def m_resandthen(c):
    return closure_lift(c, res(c), 0, lambda r: r, lambda t: t)


@model('std::result::Result::<T, E>::ok')
def m_resok(c):
    return c.E.lift(res(c), lambda t: Some(t.a[2][0]) if t.a[1] == 0 else NONE)


@model('std::option::Option::<T>::is_some', 'std::option::Option::<T>::is_none')
def m_issome(c):
    E = c.E
    v = c.ld(0)
    b = E.cond_eq(E.discr(v, OPT), 1)
    return bval(b if c.f['path'].endswith('is_some') else E.B.NOT(b))


@model('std::result::Result::<T, E>::is_ok', 'std::result::Result::<T, E>::is_err')
def m_isok(c):
    E = c.E
    v = c.ld(0)
    b = E.cond_eq(E.discr(v, RES), 0)
    return bval(b if c.f['path'].endswith('is_ok') else E.B.NOT(b))


@model('std::option::Option::<T>::as_ref', 'std::option::Option::<T>::as_mut', 'std::option::Option::<T>::as_deref')
def m_asref(c):
    E, st = c.E, c.st
    out = []
    for g1, r in E.alts(E.lastref(st, c.args[0])):
        v = E.load(st, r)
        v = E_sym_enum(E, v, OPT)
        for g2, t in E.alts(v):
            if t.op == 'agg' and t.a[1] == 1:
                if r.op == 'ref':
                    x = Some(Ref(r.a[0], r.a[1] + (('vf', 1, 0),)))
                else:
                    x = Some(Ref(('V', r), (('vf', 1, 0),)))
            else:
                x = NONE
            out.append((E.B.AND(g1, g2), x))
    return E.g(out)


@model('std::option::Option::<T>::take', 'std::mem::take')
def m_take(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    v = E.load(st, r)
    E.store(st, r, NONE if c.f['path'].endswith('Option::<T>::take') else default_of(c, c.dty))
    return v


@model('std::mem::replace', 'std::option::Option::<T>::replace')
def m_replace(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    v = E.load(st, r)
    E.store(st, r, c.args[1] if c.f['path'].endswith('mem::replace') else Some(c.args[1]))
    return v


@model('std::option::Option::<T>::insert', 'std::option::Option::<T>::get_or_insert', 'std::option::Option::<T>::get_or_insert_with')
def m_getorinsert(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    p = c.f['path']
    if p.endswith('with'):
        nv = call_in(c, st, c.args[1], [])
        if nv is None:
            raise X.Dead()
    else:
        nv = c.args[1]
    if p.endswith('::insert'):
        E.store(st, r, Some(nv))
    else:
        cur = E_sym_enum(E, E.load(st, r), OPT)
        E.store(st, r, E.lift(cur, lambda t: t if t.a[1] == 1 else Some(nv)))
    return E.lift(r, lambda t: Ref(t.a[0], t.a[1] + (('vf', 1, 0),)) if t.op == 'ref' else Ref(('V', t), (('vf', 1, 0),)))


# ------------------------------------------------------------------ defaults
def default_tid(E, tid):
    if tid is None:
        return None
    t = E.P.types[tid]
    k = t['k']
    if k == 'bool':
        return FALSE
    if k in ('int',):
        return Int(0)
    if k == 'float':
        return mk('flt', '0')
    if k == 'tuple':
        fs = [default_tid(E, x) for x in t['t']]
        return None if None in fs else Agg('tuple', 0, fs)
    if k == 'adt':
        n = t['name'].split('::')[-1]
        if n == 'Option':
            return NONE
        if n == 'String':
            return Str('')
        if n in ('Vec', 'VecDeque'):
            return mk('vec', EMPTY, ())
        if n in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            return mk('map', EMPTY, ())
    if k == 'ref':
        return default_tid(E, t['t'])
    if k == 'str':
        return Str('')
    return None


def default_of(c, tid):
    d = default_tid(c.E, tid)
    return d if d is not None else c.fresh('default')


@model('std::default::Default::default')
def m_default(c):
    if c.f.get('key') in c.E.P.fns:
        return None
    return default_of(c, c.dty)


# ------------------------------------------------------------------ strings
@model('std::string::ToString::to_string')
def m_tostring(c):
    v = c.ld(0)
    return tostr(c, v)


def tostr(c, v):
    E = c.E
    ty = pointee(c)

    def f(t):
        if t.op == 'str':
            return t
        if t.op == 'int':
            return Str(str(t.a[0]))
        if t.op == 'chr':
            return Str(t.a[0])
        if t.op == 'b':
            return E.ite(t.a[0], Str('true'), Str('false'))
        if t.op == 'parse':
            return t.a[1]
        if t.op in ('attr', 'text', 'cat', 'tag', 'tostr', 'undef'):
            return t
        if ty and (ty['k'] == 'str' or (ty['k'] == 'adt' and ty['name'].endswith('String'))):
            return t
        if t.op == 'flt':
            s = t.a[0]
            return Str(s[:-2] if s.endswith('.0') else s)
        return mk('tostr', t)
    return E.lift(v, f)


@model('std::string::String::as_str', 'std::string::String::as_bytes', 'core::str::<impl str>::as_bytes',
       'std::string::String::into_bytes', 'std::string::String::into_boxed_str', 'std::string::String::as_ref')
def m_strid(c):
    return c.ld(0)


@model('std::string::String::new', 'std::string::String::with_capacity')
def m_strnew(c):
    return Str('')


def cat(E, parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            ps = p.a[0]
        else:
            ps = (p,)
        for q in ps:
            if q.op == 'str' and q.a[0] == '':
                continue
            if q.op == 'str' and out and out[-1].op == 'str':
                out[-1] = Str(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return Str('')
    if len(out) == 1 and out[0].op in ('str', 'attr', 'text', 'tostr', 'g', 'tag'):
        return out[0]
    return mk('cat', tuple(out))


@model('std::string::String::push_str', 'std::string::String::push', 'std::ops::AddAssign::add_assign')
def m_pushstr(c):
    E, st = c.E, c.st
    if c.f['path'].endswith('add_assign') and 'std::string::String as' not in (c.f.get('rpath') or ''):
        return None
    v = c.ld(1)
    if v.op == 'chr':
        v = Str(v.a[0])
    r = E.lastref(st, c.args[0])
    if repeated(c, r):
        # text collected by a loop: base text followed by any number of the listed pieces
        E.update(st, r, lambda t: mk('acc', *((t.a[0], t.a[1]) if t.op == 'acc' else (t, ()))) if v.op == 'str' and v.a[0] == '' else
                 E.norm_vec(mk('acc', *((t.a[0], t.a[1] + ((1, 'one', v, 'b'),)) if t.op == 'acc' else (t, ((1, 'one', v, 'b'),))))))
        return UNIT
    E.update(st, r, lambda t: cat(E, [t, v]))
    return UNIT


def repeated(c, ref):
    """Is the current call repeated by a loop that does not create the referenced local anew?"""
    for _, x in c.E.alts(ref):
        if x.op != 'ref' or x.a[0][0] != 'L':
            continue
        ctx, local = x.a[0][1], x.a[0][2]
        n = len(ctx)
        if c.fr.ctx[:n] != ctx:
            continue
        for d in range(n, len(c.fr.ctx) + 1):
            fn, b = (c.fr.fn, c.b) if d == len(c.fr.ctx) else (c.E.P.lib.get(c.fr.ctx[d][0]), c.fr.ctx[d][1] % X.ROUND)
            if fn is None:
                continue
            for h, body in fn.loops.items():
                if (c.fr.ctx[:d], h) in c.E.rounding:
                    continue
                if b in body and (d > n or not any(assigns(fn.blocks[k], local) for k in body)):
                    return True
    return False


def assigns(blk, local):
    return any(s[0] == '=' and s[1] == [local, []] for s in blk['s']) or blk['k'] == 'call' and blk['d'] == [local, []]


@model('std::string::String::insert', 'std::string::String::insert_str')
def m_strinsert(c):
    E, st = c.E, c.st
    v = c.ld(2)
    r = E.lastref(st, c.args[0])
    pos = c.args[1]
    if pos.op == 'int' and pos.a[0] == 0:
        E.update(st, r, lambda t: mk('op', 'prepend', v, t) if v.op != 'str' else cat(E, [v, t]))
        return UNIT
    return None


@model('std::ops::Add::add')
def m_add(c):
    t = argtype(c)
    ty = c.E.P.types[t] if t is not None else None
    if ty and ty['k'] == 'adt' and ty['name'].endswith('String'):
        return cat(c.E, [c.ld(0), c.ld(1)])
    return c.E.binop('Add', c.ld(0), c.ld(1))


@model('std::ops::Sub::sub')
def m_sub(c):
    return c.E.binop('Sub', c.ld(0), c.ld(1))


def fmt_template(bs):
    """Decode a fmt::Arguments template: list of str | None (placeholder)."""
    out = []
    i = 0
    bs = list(bs)
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode('utf8', 'replace'))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode('utf8', 'replace'))
            i += n
        else:
            fl = b & 0x3f
            if fl & 1:
                i += 4
            if fl & 2:
                i += 2
            if fl & 4:
                i += 2
            arg = None
            if fl & 8:
                arg = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(('arg', arg, fl))
    return out


@model("std::fmt::Arguments::<'a>::new")
def m_fmtargs(c):
    E, st = c.E, c.st
    tpl = c.ld(0)
    args = c.ld(1)
    if tpl.op not in ('bytes', 'karr', 'str'):
        return None
    if tpl.op == 'bytes':
        bs = tpl.a[0]
    elif tpl.op == 'karr':
        bs = [x.a[0] for x in tpl.a[0]]
    else:
        bs = tpl.a[0].encode('latin1', 'replace')
    items = []
    if args.op == 'vec':
        items = [e[2] for e in args.a[1]]
    elif args.op == 'agg':
        items = list(args.a[2])
    else:
        return None
    n = 0
    parts = []
    for p in fmt_template(bs):
        if isinstance(p, str):
            parts.append(Str(p))
        else:
            i = p[1] if p[1] is not None else n
            n = i + 1
            if i < len(items):
                parts.append(items[i])
            else:
                return None
    return cat(E, parts)


@model("core::fmt::rt::Argument::<'_>::new_display")
def m_disp(c):
    v = c.ld(0)
    return tostr(c, v)


@model("core::fmt::rt::Argument::<'_>::new_debug")
def m_debug(c):
    return mk('op', 'debug', c.ld(0))


@model("std::fmt::Arguments::<'a>::from_str", 'std::fmt::format')
def m_fmtid(c):
    return c.ld(0)


@model('anyhow::__private::format_err', 'anyhow::error::<impl anyhow::Error>::msg')
def m_err(c):
    return mk('err')


@model('core::f64::<impl f64>::is_finite', 'core::f64::<impl f64>::is_nan', 'core::f64::<impl f64>::is_infinite')
def m_finite(c):
    E = c.E
    n = c.f['path'].split('::')[-1]

    def f(t):
        if t.op == 'flt':
            x = float(t.a[0])
            fin, nan = x - x == 0, x != x
            return bval(int(fin if n == 'is_finite' else nan if n == 'is_nan' else not fin and not nan))
        fin, nan = E.atom('finite', t), E.atom('nan', t)
        return bval(fin if n == 'is_finite' else E.B.AND(E.B.NOT(fin), nan if n == 'is_nan' else E.B.NOT(nan)))
    return E.lift(c.ld(0), f)


@model('core::str::<impl str>::parse')
def m_parse(c):
    E = c.E
    v = c.ld(0)
    tid = c.f['args'][0] if c.f['args'] else None
    ty = E.P.types[tid] if isinstance(tid, int) else None
    n = ty.get('n') if ty and ty['k'] in ('int', 'float') else (ty['k'] if ty else '?')

    def f(t):
        if t.op == 'str':
            s = t.a[0]
            if n and (n[0] in 'iu'):
                try:
                    k = int(s)
                    return Ok(Int(k)) if n[0] == 'i' or k >= 0 else Err(mk('err'))
                except ValueError:
                    return Err(mk('err'))
            if n == 'bool':
                return Ok(TRUE) if s == 'true' else Ok(FALSE) if s == 'false' else Err(mk('err'))
            if n and n[0] == 'f':
                try:
                    return Ok(mk('flt', str(float(s))))
                except ValueError:
                    return Err(mk('err'))
        if n == 'bool':
            a, b = E.cond_eq(t, 'true'), E.cond_eq(t, 'false')
            return E.g([(a, Ok(TRUE)), (b, Ok(FALSE)), (E.B.AND(E.B.NOT(a), E.B.NOT(b)), Err(mk('err')))])
        ok = E.atom('parseok', t, mk('str', n))
        return E.g([(ok, Ok(mk('parse', n, t))), (E.B.NOT(ok), Err(mk('err')))])
    return E.lift(v, f)


def str2(c, f, op):
    """String predicate on (value, pattern)."""
    E = c.E
    a, b = c.ld(0), c.ld(1)

    def h(x, y):
        if x.op == 'str' and y.op in ('str', 'chr'):
            return TRUE if f(x.a[0], y.a[0]) else FALSE
        return bval(E.atom(op, x, y))
    return E.lift2(a, b, h)


@model('core::str::<impl str>::starts_with')
def m_sw(c):
    return str2(c, lambda a, b: a.startswith(b), 'starts_with')


@model('core::str::<impl str>::ends_with')
def m_ew(c):
    return str2(c, lambda a, b: a.endswith(b), 'ends_with')


@model('core::str::<impl str>::contains')
def m_contains(c):
    return str2(c, lambda a, b: b in a, 'contains')


@model('core::str::<impl str>::eq_ignore_ascii_case')
def m_eqic(c):
    return str2(c, lambda a, b: a.lower() == b.lower(), 'eq_ignore_case')


@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def m_strempty(c):
    return bval(c.E.cond_eq(c.ld(0), ''))


@model('core::str::<impl str>::trim', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end')
def m_trim(c):
    n = c.f['path'].split('::')[-1]
    f = {'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip}[n]
    return c.E.lift(c.ld(0), lambda t: Str(f(t.a[0])) if t.op == 'str' else mk('op', n, t))


@model('std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase',
       'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_ascii_uppercase',
       'core::str::<impl str>::to_ascii_lowercase', 'core::str::<impl str>::to_ascii_uppercase')
def m_lower(c):
    up = 'upper' in c.f['path']
    return c.E.lift(c.ld(0), lambda t: Str(t.a[0].upper() if up else t.a[0].lower()) if t.op == 'str' else mk('op', 'upper' if up else 'lower', t))


# ------------------------------------------------------------------ comparison
@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def m_eq(c):
    E = c.E
    a, b = c.ld(0), c.ld(1)
    if c.f.get('key') in E.P.fns and not c_like(E, pointee(c)):
        fn = E.P.fns[c.f['key']]
        if not derived_eq(E, fn):
            return None
    r = E.eq(E_deepagg(c, a), E_deepagg(c, b))
    return bval(r if c.f['path'].endswith('eq') else E.B.NOT(r))


def derived_eq(E, fn):
    return True


def E_deepagg(c, v):
    E, st = c.E, c.st

    def f(t):
        if t.op == 'agg':
            return mk('agg', t.a[0], t.a[1], tuple(E_deepagg(c, E.deep(st, x)) for x in t.a[2]))
        return t
    return E.lift(E.deep(st, v), f)


def c_like(E, ty):
    return bool(ty) and ty['k'] == 'adt' and ty['enum'] and all(not v['f'] for v in ty['v'])


@model('std::cmp::max', 'std::cmp::min', 'std::cmp::Ord::max', 'std::cmp::Ord::min')
def m_maxmin(c):
    return c.E.extreme('max' if 'max' in c.f['path'] else 'min', (c.ld(0), c.ld(1)))


# ------------------------------------------------------------------ hashing
@model('std::hash::DefaultHasher::new', 'std::collections::hash_map::DefaultHasher::new')
def m_hasher(c):
    return mk('hash', ())


@model('std::hash::Hash::hash')
def m_hash(c):
    E, st = c.E, c.st
    if c.f.get('key') in E.P.fns:
        return None
    v = E_deepagg(c, c.args[0])
    r = E.lastref(st, c.args[1])
    E.update(st, r, lambda t: mk('hash', t.a[0] + (v,)) if t.op == 'hash' else t)
    return UNIT


@model('std::hash::Hasher::finish')
def m_finish(c):
    v = c.ld(0)
    return c.E.lift(v, lambda t: mk('hashfin', t.a[0]) if t.op == 'hash' else mk('op', 'finish', t))


# ------------------------------------------------------------------ maps
NEWMAP = ['std::collections::HashMap::<K, V>::new', 'std::collections::BTreeMap::<K, V>::new',
          'std::collections::HashSet::<T>::new', 'std::collections::BTreeSet::<T>::new']
NEWVEC = ['std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::collections::VecDeque::<T>::new',
          'std::collections::VecDeque::<T>::with_capacity']


@model(*NEWMAP, 'std::collections::HashMap::<K, V>::with_capacity')
def m_newmap(c):
    return mk('map', EMPTY, ())


@model(*NEWVEC)
def m_newvec(c):
    return mk('vec', EMPTY, ())


def asmap(t):
    if t.op == 'map':
        return t
    return mk('map', t, ())


def asvec(t):
    if t.op == 'vec':
        return t
    if t.op == 'karr':
        return mk('vec', EMPTY, tuple((1, 'one', x, i) for i, x in enumerate(t.a[0])))
    return mk('vec', t, ())


@model('std::slice::<impl [T]>::join', 'std::slice::<impl [T]>::concat')
def m_join(c):
    E, st = c.E, c.st
    v = asvec(E.deep(st, c.args[0]))
    if v.a[0] is not EMPTY or not v.a[1] or any(e[0] != 1 or e[1] != 'one' for e in v.a[1]):
        return None
    sep = E.deep(st, c.args[1]) if len(c.args) > 1 else Str('')
    if sep.op != 'str':
        return None
    items = [e[2] for e in v.a[1]]
    if len(c.args) == 1 and any(x.op in ('vec', 'agg', 'karr') for x in items):
        return None
    parts = []
    for e in items:
        if parts:
            parts.append(sep)
        parts.append(e)
    return cat(E, parts)


@model('std::collections::HashMap::<K, V, S, A>::insert', 'std::collections::BTreeMap::<K, V, A>::insert',
       'std::collections::HashSet::<T, S, A>::insert')
def m_mapinsert(c):
    E, st = c.E, c.st
    k = E.deep(st, c.args[1])
    v = c.args[2] if len(c.args) > 2 else UNIT
    r = E.lastref(st, c.args[0])
    E.mapops[c.fr.ctx, c.b] = ('set', k, E.deep(st, v), st.pc, c.blk.get('l'))
    old = E.lift(E.lift(E.deep(st, c.args[0]), lambda t: E.map_get(asmap(t), k)), lambda t: t)
    E.update(st, r, lambda t: E.map_set(asmap(t), k, v))
    if len(c.args) == 2:
        return c.fresh('inserted')
    return E.lift(old, lambda t: NONE if t is ABSENT else Some(t))


def mapref(c, r, k):
    """Option<&V> for key k of the map behind reference r."""
    E, st = c.E, c.st
    out = []
    for gd, t in E.alts(r):
        m = E.load(st, t)
        v = E.lift(m, lambda x: E.map_get(asmap(x), k))
        pres = 0
        for g2, x in E.alts(v):
            if x is not ABSENT and x is not UNDEF:
                pres = E.B.OR(pres, g2)
        pres = E.B.AND(pres, gd)
        if v.op != 'g':
            pres = gd if v is not ABSENT and v is not UNDEF else 0
        if pres:
            if t.op == 'ref':
                p = Ref(t.a[0], t.a[1] + (('val', k),))
            else:
                p = Ref(('V', t), (('val', k),))
            out.append((pres, Some(p)))
        ab = E.B.AND(gd, E.B.NOT(pres))
        if ab:
            out.append((ab, NONE))
    return E.g(out)


@model('std::collections::HashMap::<K, V, S, A>::get', 'std::collections::HashMap::<K, V, S, A>::get_mut',
       'std::collections::BTreeMap::<K, V, A>::get', 'std::collections::BTreeMap::<K, V, A>::get_mut')
def m_mapget(c):
    E, st = c.E, c.st
    return mapref(c, E.lastref(st, c.args[0]), E.deep(st, c.args[1]))


@model('std::collections::HashMap::<K, V, S, A>::contains_key', 'std::collections::BTreeMap::<K, V, A>::contains_key',
       'std::collections::HashSet::<T, S, A>::contains')
def m_contains_key(c):
    E, st = c.E, c.st
    k = E.deep(st, c.args[1])
    v = mapref(c, E.lastref(st, c.args[0]), k)
    r = E.cond_eq(E.discr(v, OPT), 1)
    if r != 1 and k.op != 'g' and k.op != 'str':
        for _, m in E.alts(E.load(st, E.lastref(st, c.args[0]))):
            if m.op == 'map' and any(mu == 'many' and x is not k and x.op == k.op for x, mu, _ in m.a[1]):
                # entered by an earlier iteration for a key that may be equal
                r = E.B.OR(r, E.atom('haskey', c.fresh('earlier'), k))
                break
    return bval(r)


@model('std::collections::HashMap::<K, V, S, A>::remove', 'std::collections::BTreeMap::<K, V, A>::remove')
def m_mapremove(c):
    E, st = c.E, c.st
    k = E.deep(st, c.args[1])
    r = E.lastref(st, c.args[0])
    old = E.lift(E.load(st, r), lambda t: E.map_get(asmap(t), k))
    E.update(st, r, lambda t: E.map_set(asmap(t), k, ABSENT))
    return E.lift(old, lambda t: NONE if t is ABSENT else Some(t))


def at_position(c, r, idx):
    """The entry of list r whose position an earlier search or enumeration of the same list produced."""
    E = c.E
    if r.op == 'g':
        rs = [at_position(c, t, idx) for _, t in r.a[0]]
        return None if None in rs else E.g([(gd, x) for (gd, _), x in zip(r.a[0], rs)])
    if r.op != 'ref':
        return None
    out = []
    for gd, i in E.alts(idx):
        xs = E.posof.get(i.a[:3]) if i.op == 'S' else None
        if not xs or not all(x.op == 'ref' and x.a[0] == r.a[0] and x.a[1][:len(r.a[1])] == r.a[1] and len(x.a[1]) == len(r.a[1]) + 1 for x in xs):
            return None
        if len(xs) > 1:
            return None
        out.append((gd, xs[0]))
    return E.g(out) if out else None


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(c):
    E, st = c.E, c.st
    ty = pointee(c)
    n = ty['name'].split('::')[-1] if ty and ty['k'] == 'adt' else ''
    if n in ('HashMap', 'BTreeMap'):
        v = mapref(c, E.lastref(st, c.args[0]), E.deep(st, c.args[1]))
        out = [(gd, t.a[2][0]) for gd, t in E.alts(v) if t.op == 'agg' and t.a[1] == 1]
        if not out:
            raise X.Dead()
        return E.g(out) if len(out) > 1 else out[0][1]
    if n in ('Vec', 'VecDeque') or (ty and ty['k'] in ('slice', 'array')):
        idx = c.args[1]
        r = E.lastref(st, c.args[0])

        def f(t):
            x = at_position(c, t, E.deep(st, idx))
            if x is not None:
                return x
            v = E.load(st, t)
            if v.op == 'vec' and v.a[0] is EMPTY and idx.op == 'int' and all(e[0] == 1 and e[1] == 'one' for e in v.a[1]):
                if 0 <= idx.a[0] < len(v.a[1]):
                    return Ref(t.a[0], t.a[1] + (('ent', idx.a[0]),)) if t.op == 'ref' else UNDEF
            return mk('idx', v, E.deep(st, idx))
        return E.lift(r, f)
    return mk('op', 'slice', c.ld(0), E_deepagg(c, c.args[1]))


@model('std::collections::HashMap::<K, V, S, A>::entry', 'std::collections::BTreeMap::<K, V, A>::entry')
def m_entry(c):
    return mk('entry', c.E.lastref(c.st, c.args[0]), c.E.deep(c.st, c.args[1]))


@model("std::collections::hash_map::Entry::<'a, K, V, A>::and_modify", "std::collections::btree_map::Entry::<'a, K, V, A>::and_modify")
def m_andmodify(c):
    e = c.args[0]
    if e.op != 'entry':
        return None
    v = mapref(c, e.a[0], e.a[1])
    closure_lift(c, v, 1, lambda r: r, lambda t: t)
    return e


@model("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert", "std::collections::btree_map::Entry::<'a, K, V, A>::or_insert",
       "std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with", "std::collections::btree_map::Entry::<'a, K, V, A>::or_insert_with",
       "std::collections::hash_map::Entry::<'a, K, V, A>::or_default", "std::collections::btree_map::Entry::<'a, K, V, A>::or_default")
def m_orinsert(c):
    E, st = c.E, c.st
    e = c.args[0]
    if e.op != 'entry':
        return None
    p = c.f['path']
    if p.endswith('_with'):
        nv = call_in(c, st, c.args[1], [])
        if nv is None:
            raise X.Dead()
    elif p.endswith('default'):
        t = E.P.types[c.dty]
        nv = default_of(c, t.get('t') if t['k'] == 'ref' else None)
    else:
        nv = c.args[1]
    k = e.a[1]
    E.mapops[c.fr.ctx, c.b] = ('keep', E.deep(st, k), E.deep(st, nv), st.pc, c.blk.get('l'))

    def f(m):
        m = asmap(m)
        cur = E.map_get(m, k)
        return E.map_set(m, k, E.lift(cur, lambda t: nv if t is ABSENT else t))
    E.update(st, e.a[0], f)
    return E.lift(e.a[0], lambda t: Ref(t.a[0], t.a[1] + (('val', k),)) if t.op == 'ref' else Ref(('V', t), (('val', k),)))


# ------------------------------------------------------------------ vectors
@model('std::vec::Vec::<T, A>::push', 'std::collections::VecDeque::<T, A>::push_back',
       'std::collections::VecDeque::<T, A>::push_front')
def m_push(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    d = 'f' if c.f['path'].endswith('front') else 'b'
    E.update(st, r, lambda t: mk('vec', asvec(t).a[0], asvec(t).a[1] + ((1, 'one', c.args[1], d),)))
    return UNIT


@model('std::vec::Vec::<T, A>::insert', 'std::collections::VecDeque::<T, A>::insert')
def m_vecinsert(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    pos = E.deep(st, c.args[1])
    E.update(st, r, lambda t: mk('vec', asvec(t).a[0], asvec(t).a[1] + ((1, 'one', c.args[2], mk('at', pos)),)))
    return UNIT


@model('std::vec::Vec::<T, A>::extend_from_slice', 'std::iter::Extend::extend', 'std::vec::Vec::<T, A>::append',
       'std::collections::VecDeque::<T, A>::append')
def m_extend(c):
    E, st = c.E, c.st
    ty = pointee(c)
    if ty and ty['k'] == 'adt' and ty['name'].split('::')[-1] in ('HashMap', 'BTreeMap', 'HashSet', 'String'):
        r = E.lastref(st, c.args[0])
        src = c.ld(1)
        if ty['name'].split('::')[-1] in ('HashMap', 'BTreeMap'):
            es = each(c, src if src.op == 'iter' else mk('iter', src, 'val', ())) if src.op != 'ref' else None
            if es is None and src.op != 'iter' and is_option(c, 1):
                es = [(gd, t.a[2][0]) for gd, t in E.alts(src) if t.op == 'agg' and t.a[1] == 1] if all(t.op == 'agg' for _, t in E.alts(src)) else None
            if es is not None:
                for gd, x in es:
                    k, v = E.deep(st, E.proj(x, ('f', 0))), E.proj(x, ('f', 1))
                    E.update(st, r, lambda t: E.map_set(asmap(t), k, v if gd == 1 else E.ite(gd, v, E.map_get(asmap(t), k))))
                return UNIT
        if src.op == 'iter' and ty['name'].split('::')[-1] in ('HashMap', 'BTreeMap'):
            return extend_map(c, r, src)
        E.update(st, r, lambda t: mk('op', 'extended', t, src))
        return UNIT
    r = E.lastref(st, c.args[0])
    if c.f['path'].endswith('append'):
        r1 = E.lastref(st, c.args[1])
        src = E.load(st, r1)
        E.store(st, r1, mk('vec', EMPTY, ()))
    else:
        src = c.ld(1)
        ms = each(c, src) if src.op == 'iter' else None
        if ms is not None:
            src = mk('vec', EMPTY, tuple((gd, 'one', x, 'b') for gd, x in ms))
        elif src.op == 'iter':
            if [a for a in src.a[2] if a[0] not in ('cloned', 'copied')]:
                v = iter_next(c, src)
                src = mk('vec', EMPTY, tuple((gd, 'many', t.a[2][0], 'b') for gd, t in E.alts(v) if t.op == 'agg' and t.a[1] == 1))
            else:
                src = E.deep(st, src.a[0])
    es = []
    for gd, t in E.alts(src):
        v = asvec(t)
        if v.a[0] is not EMPTY:
            es.append((gd, 'many', mk('itemof', v.a[0]), 'b'))
        for e in v.a[1]:
            es.append((E.B.AND(gd, e[0]), e[1], e[2], 'b' if isinstance(e[3], int) else e[3]))
    E.update(st, r, lambda t: mk('vec', asvec(t).a[0], asvec(t).a[1] + tuple(es)))
    return UNIT


def is_option(c, i):
    o = c.blk['a'][i]
    ty = c.E.P.types[o[1]] if o[0] == 'k' else c.E.P.types[c.E.ptype(c.fr.fn, o[1])] if o[0] in ('c', 'm') else None
    return bool(ty and ty['k'] == 'adt' and ty['name'].split('::')[-1] == 'Option')


def generic_run(c, step):
    """Effect of running `step(state)` any number of times, each with one more item; returns its result for an arbitrary run.
    Variables growing by a constant become start + step * count, minima and maxima accumulate."""
    E, st = c.E, c.st
    depth = len(c.fr.ctx)
    base = X.State(st.pc, dict(st.st))
    h = ('gen', c.b)

    def keep(k):
        return not (k[0] == 'L' and len(k[1]) > depth)

    def gen(v0, cur, new, final):
        if new is cur:
            return new
        if v0 is None or new is None:
            return new
        if new.op == 'upd':
            ents = []
            for path, val in new.a[1]:
                o0, oc = E.proj(v0, path), E.proj(cur, path)
                ents.append((path, gen(o0, oc, val, final)))
            return mk('upd', new.a[0], tuple(ents))
        if new.op == 'agg' and cur.op == 'agg' and v0.op == 'agg' and len(new.a[2]) == len(cur.a[2]) == len(v0.a[2]) and new.a[:2] == cur.a[:2] == v0.a[:2]:
            return mk('agg', new.a[0], new.a[1], tuple(gen(a, b, d, final) for a, b, d in zip(v0.a[2], cur.a[2], new.a[2])))
        iv = E.induction(v0, cur, new, c.fr.ctx, h)
        if iv is not None:
            return iv
        return new if final else v0

    cur = X.State(base.pc, dict(base.st))
    r = None
    for phase in (False, True):
        for n in range(6):
            s = X.State(cur.pc, dict(cur.st))
            r, m = step(s)
            nxt = X.State(s.pc, {k: v if v is cur.st.get(k) else E.bsubst(v, m) for k, v in s.st.items() if keep(k)})
            stable = True
            for k, v in list(nxt.st.items()):
                old = cur.st.get(k)
                if v is old:
                    continue
                x = gen(base.st.get(k), old, v, phase) if old is not None else v
                if x is not old:
                    stable = False
                nxt.st[k] = x
            nxt.pc = base.pc
            cur = nxt
            if stable:
                break
        else:
            E.note('generic run not stable in ' + c.fr.fn.short)
    st.st = cur.st
    st.pc = cur.pc
    return r


def extend_map(c, r, src):
    E, st = c.E, c.st
    box = []

    def step(s):
        c2 = X.Call(E, c.fr, c.b, dict(c.blk, a=c.blk['a'][1:]), s, c.f, c.args[1:], c.dty)
        v = iter_next(c2, src)
        some = 0
        for gd, t in E.alts(v):
            if t.op == 'agg' and t.a[1] == 1:
                some = E.B.OR(some, gd)
        m = {x: 1 for x in E.B.support(some) if E.vars[x][0] == 'next'} if some not in (0, 1) else {}
        # one more item: the case without one is the end of the run
        return v, m
    v = generic_run(c, step)
    es = []
    for gd, t in E.alts(v):
        if t.op == 'agg' and t.a[1] == 1:
            x = t.a[2][0]
            es.append((E.proj(x, ('f', 0)), 'many', E.ite(gd, E.proj(x, ('f', 1)), ABSENT)))
    E.update(st, r, lambda t: E.norm_map(mk('map', asmap(t).a[0], asmap(t).a[1] + tuple(es))))
    return UNIT


def pick(c, v, kind, mode):
    """Choose an element of container value v.  mode: 'val' | ('ref', refterm).
    Returns Option value."""
    E, st = c.E, c.st
    if v.op == 'g':
        if len(v.a[0]) <= 8:
            out = []
            for gd, t in v.a[0]:
                out.append((gd, pick(c, t, kind, mode)))
            return E.g(out)
        v = mk('many', *[t for _, t in v.a[0]])
    if v.op == 'undef':
        return NONE
    if v.op == 'vec':
        base, ents = v.a
        if base is EMPTY and not ents:
            return NONE
        S = c.fresh('item', base, Str(kind))
        nx = E.atom('next', S)
        if base is EMPTY:
            E.drains.append((kind, ents, c.fr.fn, c.line))
        alts = []
        i = 0
        sel = mk('pick', S)
        n = len(ents) + (0 if base is EMPTY else 1)
        for j, e in enumerate(ents):
            p = 1 if n == 1 else E.eqc_n(sel, j, n)
            alts.append((E.B.AND(p, e[0]), e[2] if mode == 'val' else reft(mode, ('ent', j))))
        if base is not EMPTY:
            p = 1 if n == 1 else E.eqc_n(sel, len(ents), n)
            alts.append((p, S))
        ok = 0
        for gd, _ in alts:
            ok = E.B.OR(ok, gd)
        # an element exists only when its guard holds
        payload = E.g(alts) if len(alts) > 1 else alts[0][1]
        some = E.B.AND(nx, ok)
        E.nextok[S] = ok
        return E.g([(some, Some(payload)), (E.B.NOT(some), NONE)])
    if v.op == 'map':
        base, ents = v.a
        if base is EMPTY and not ents:
            return NONE
        S = c.fresh('item', base, Str(kind))
        nx = E.atom('next', S)
        alts = []
        sel = mk('pick', S)
        n = len(ents) + (0 if base is EMPTY else 1)
        for j, e in enumerate(ents):
            p = 1 if n == 1 else E.eqc_n(sel, j, n)
            pres = 0
            for g2, t in E.alts(e[2]):
                if t is not ABSENT:
                    pres = E.B.OR(pres, g2)
            if e[2].op != 'g':
                pres = 0 if e[2] is ABSENT else 1
            gd = E.B.AND(p, pres)
            if not gd:
                continue
            if mode == 'val':
                alts.append((gd, Agg('tuple', 0, (e[0], E.strip_absent(e[2])))))
            else:
                alts.append((gd, Agg('tuple', 0, (e[0], reft(mode, ('val', e[0]))))))
        if base is not EMPTY:
            p = 1 if n == 1 else E.eqc_n(sel, len(ents), n)
            alts.append((p, Agg('tuple', 0, (mk('key', S), mk('valof', S)))))
        if not alts:
            return NONE
        ok = 0
        for gd, _ in alts:
            ok = E.B.OR(ok, gd)
        payload = E.g(alts) if len(alts) > 1 else alts[0][1]
        some = E.B.AND(nx, ok)
        E.nextok[S] = ok
        return E.g([(some, Some(payload)), (E.B.NOT(some), NONE)])
    # unknown container
    S = c.fresh('item', v if v.op not in ('agg',) else mk('op', 'agg'), Str(kind))
    nx = E.atom('next', S)
    p = S
    if kind.startswith('map'):
        p = Agg('tuple', 0, (mk('key', S), mk('valof', S)))
    return E.g([(nx, Some(p)), (E.B.NOT(nx), NONE)])


def reft(mode, step):
    r = mode[1]
    if r.op == 'ref':
        return Ref(r.a[0], r.a[1] + (step,))
    return Ref(('V', r), (step,))


@model('std::vec::Vec::<T, A>::pop', 'std::collections::VecDeque::<T, A>::pop_front', 'std::collections::VecDeque::<T, A>::pop_back')
def m_pop(c):
    v = c.ld(0)
    back = not c.f['path'].endswith('front')
    E, st = c.E, c.st
    # concrete single-shot stack of known elements
    if v.op == 'vec' and v.a[0] is EMPTY and v.a[1] and all(e[0] == 1 and e[1] == 'one' for e in v.a[1]):
        es = v.a[1]
        e = es[-1] if back else es[0]
        E.store(st, E.lastref(st, c.args[0]), mk('vec', EMPTY, es[:-1] if back else es[1:]))
        return Some(e[2])
    return pick(c, v, 'pop_back' if back else 'pop_front', 'val')


@model('std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::vec::Vec::<T, A>::into_boxed_slice')
def m_asslice(c):
    return c.args[0]


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::collections::HashMap::<K, V, S, A>::iter',
       'std::collections::BTreeMap::<K, V, A>::iter', 'std::collections::HashMap::<K, V, S, A>::iter_mut',
       'std::collections::BTreeMap::<K, V, A>::iter_mut', 'std::collections::VecDeque::<T, A>::iter',
       'std::collections::VecDeque::<T, A>::iter_mut')
def m_iter(c):
    return mk('iter', c.E.lastref(c.st, c.args[0]), 'ref', ())


@model('std::collections::HashMap::<K, V, S, A>::keys', 'std::collections::BTreeMap::<K, V, A>::keys',
       'std::collections::HashMap::<K, V, S, A>::values', 'std::collections::BTreeMap::<K, V, A>::values',
       'std::collections::HashMap::<K, V, S, A>::values_mut', 'std::collections::BTreeMap::<K, V, A>::values_mut')
def m_keys(c):
    k = 'keys' if c.f['path'].endswith('keys') else 'values'
    return mk('iter', c.E.lastref(c.st, c.args[0]), 'ref', ((k,),))


@model('std::vec::Vec::<T, A>::drain', 'std::collections::VecDeque::<T, A>::drain')
def m_drain(c):
    E, v = c.E, c.ld(0)
    r = c.args[1] if len(c.args) > 1 else None
    if r is not None and r.op == 'agg' and r.a[0].endswith('RangeFull'):
        if v.op in ('vec', 'map', 'g', 'S', 'f', 'vf', 'op'):
            E.update(c.st, E.lastref(c.st, c.args[0]), lambda t: mk('vec', EMPTY, ()))
        return mk('iter', v, 'val', ())
    rt = mk('op', 'range', E.deep(c.st, r)) if r is not None else UNDEF
    E.update(c.st, E.lastref(c.st, c.args[0]), lambda t: mk('op', 'drained', t, rt))
    return mk('iter', mk('op', 'slice', v, rt), 'val', ())


def option_iter(c, v):
    es = [(gd, 'one', t.a[2][0], 0) for gd, t in c.E.alts(v) if t.op == 'agg' and t.a[1] == 1]
    if len(es) > 1:
        some = 0
        for e in es:
            some = c.E.B.OR(some, e[0])
        es = [(some, 'one', c.E.g([(e[0], e[2]) for e in es]), 0)]
    return mk('iter', mk('vec', EMPTY, tuple(es)), 'val', ())


@model('std::option::Option::<T>::iter', 'std::option::Option::<T>::iter_mut')
def m_optiter(c):
    return option_iter(c, m_asref(c))


@model('std::iter::IntoIterator::into_iter')
def m_intoiter(c):
    v = c.args[0]
    if v.op == 'iter' or v.op == 'range':
        return v
    ty = argtype(c)
    t = c.E.P.types[ty] if ty is not None else None
    if t and t['k'] == 'ref':
        t1 = c.E.P.types[t['t']]
        if t1['k'] == 'adt' and t1['name'].split('::')[-1] == 'Option':
            return m_optiter(c)
        return mk('iter', c.E.lastref(c.st, v), 'ref', ())
    if t and t['k'] == 'adt' and t['name'].split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'):
        return mk('range', v)
    if t and t['k'] == 'adt' and t['name'].split('::')[-1] == 'Option':
        return option_iter(c, E_sym_enum(c.E, c.E.deep(c.st, v), OPT))
    if t and t['k'] == 'adt' and t['name'].split('::')[-1] in ('Vec', 'VecDeque', 'HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return mk('iter', c.E.deep(c.st, v), 'val', ())
    if t and t['k'] == 'array':
        return mk('iter', c.E.deep(c.st, v), 'val', ())
    return v


def adaptor(c, *step):
    v = c.args[0]
    if v.op == 'iter':
        return mk('iter', v.a[0], v.a[1], v.a[2] + (step,))
    if v.op == 'ref':
        return mk('iter', c.E.deep(c.st, v), 'val', (step,))
    return mk('iter', v, 'val', (step,))


for _n in ('enumerate', 'rev', 'cloned', 'copied', 'peekable', 'fuse'):
    def _mk(n):
        def f(c):
            return adaptor(c, n)
        return f
    MODELS['std::iter::Iterator::' + _n] = _mk(_n)
for _n in ('map', 'filter', 'take_while', 'skip_while', 'filter_map', 'skip', 'take', 'step_by', 'inspect', 'flat_map'):
    def _mk2(n):
        def f(c):
            return adaptor(c, n, c.args[1])
        return f
    MODELS['std::iter::Iterator::' + _n] = _mk2(_n)


@model('std::iter::Iterator::flatten')
def m_iterflatten(c):
    E, st = c.E, c.st
    it = c.ld(0)
    if it.op != 'iter':
        return None
    src = it.a[0]
    if not it.a[2] and src.op == 'vec' and src.a[0] is EMPTY and len(src.a[1]) == 1 and src.a[1][0][3] == 0:
        gd, _, x, _ = src.a[1][0]
        if x.op == 'ref':
            y = E.load(st, E.lastref(st, x))
            if y.op == 'agg' and y.a[0] == OPT:
                return option_iter(c, y)
            r = mk('iter', E.lastref(st, x), 'ref', ())
        elif x.op == 'agg' and x.a[0] == OPT:
            r = option_iter(c, x)
        else:
            r = mk('iter', E.deep(st, x), 'val', ())
        return E.g([(gd, r), (E.B.NOT(gd), mk('iter', mk('vec', EMPTY, ()), 'val', ()))])
    ty = E.P.types[c.f['args'][0]]['s'] if c.f.get('args') and isinstance(c.f['args'][0], int) else ''
    if re.search(r"(Iter|IterMut|IntoIter|Drain)<(&|'\w+,? ?|mut )*std::option::Option<", ty) and not any(a[0] in ('map', 'enumerate', 'keys', 'values', 'flat_map') for a in it.a[2]):
        return adaptor(c, 'flatten')
    return None


PLAIN_STEPS = ('enumerate', 'cloned', 'copied', 'map', 'filter', 'filter_map', 'rev', 'peekable', 'fuse', 'inspect', 'keys', 'values')


def members(E, st, it):
    """[(guard, value or reference)] of an iterator over a list all of whose members are known; None otherwise."""
    if it.op != 'iter' or any(a[0] not in PLAIN_STEPS for a in it.a[2]) or any(a[0] in ('keys', 'values') for a in it.a[2]):
        return None
    src, mode = it.a[0], it.a[1]
    r = None
    if mode == 'ref':
        if src.op != 'ref':
            return None
        v = E.load(st, src)
        n = 0
        while v.op == 'ref' and n < 8:
            src, v, n = v, E.load(st, v), n + 1
        r = src
    else:
        v = E.deep(st, src)
    if v.op == 'karr':
        if not all(hasattr(x, 'op') for x in v.a[0]):
            return None
        return [(1, Ref(('V', x)) if r is not None else x) for x in v.a[0]]
    if v.op == 'vec' and v.a[0] is EMPTY and v.a[1] and all(e[1] == 'one' for e in v.a[1]) and (
            all(isinstance(e[3], int) for e in v.a[1]) or len(v.a[1]) > 1 and not any(hasattr(e[3], 'op') or e[3] == 'f' for e in v.a[1])):
        return [(e[0], reft(('ref', r), ('ent', j)) if r is not None else e[2]) for j, e in enumerate(v.a[1])]
    return None


def each(c, it):
    """Run the steps of an iterator over a known list element by element: [(guard, item)]; None when not known."""
    E, st = c.E, c.st
    ms = members(E, st, it)
    if ms is None or len(ms) > 40:
        return None
    out = []
    tag = c.fr.tag
    for j in range(len(ms)):
        c.fr.tag = tag * 64 + j + 1
        try:
            v = iter_next(c, mk('iter', it.a[0], it.a[1], (('at', j),) + it.a[2]))
        finally:
            c.fr.tag = tag
        for gd, t in E.alts(v):
            if t.op == 'agg' and t.a[1] == 1 and gd:
                out.append((gd, t.a[2][0]))
    return out


def iter_next(c, it, s=None):
    """One generic element of an iterator value; Option value."""
    E, st = c.E, c.st
    if it.op == 'range':
        ends = it.a[0].a[2] if it.a[0].op == 'agg' else ()
        if len(ends) == 2 and it.a[0].a[0].endswith('RangeInclusive'):
            ends = (ends[0], E.binop('Add', E.deep(st, ends[1]), Int(1)))
        S = c.fresh('range', E.deep(st, it.a[0]) if it.a[0].op != 'agg' else mk('op', 'range', *ends))
        nx = E.atom('next', S)
        return E.g([(nx, Some(S)), (E.B.NOT(nx), NONE)])
    if it.op != 'iter':
        how = 'next_back' if c.f['path'].endswith('::next_back') else 'last' if c.f['path'].endswith('::last') else 'next'
        S = c.fresh('item', it if it.op not in ('agg', 'g') else mk('op', 'it'), Str(how))
        nx = E.atom('next', S)
        return E.g([(nx, Some(S)), (E.B.NOT(nx), NONE)])
    src, mode, ads = it.a
    at = None
    if ads and ads[0][0] == 'end':
        return NONE
    if ads and ads[0][0] == 'at':
        ads = ads[1:]
        ms = members(E, st, mk('iter', src, mode, ads))
        if ms is None:
            # the list was changed meanwhile
            E.note('list changed while iterated in ' + c.fr.fn.short)
            return iter_next(c, mk('iter', src, mode, ads))
        at = it.a[2][0][1]
        if at >= len(ms):
            return NONE
        gd, x = ms[len(ms) - 1 - at if ('rev',) in ads else at]
        v = E.g([(gd, Some(x)), (E.B.NOT(gd), NONE)]) if gd != 1 else Some(x)
    elif mode == 'ref':
        out = []
        for gd, r in E.alts(src):
            v = E.load(st, r)
            if v.op == 'ref':
                r = E.lastref(st, r)
                v = E.load(st, r)
            kind = 'rev' if ('rev',) in ads else 'next'
            v2 = pick_ref(c, r, v, kind)
            out.append((gd, v2))
        v = E.g(out) if len(out) > 1 else out[0][1]
    else:
        kind = 'rev' if ('rev',) in ads else 'next'
        v = pick(c, E.deep(st, src), kind, 'val')
    for ad in ads:
        if ad[0] in ('rev', 'peekable', 'fuse', 'inspect'):
            continue
        if ad[0] in ('skip', 'take', 'step_by'):
            # not every element comes through
            lim = E.atom('limited', c.fresh(ad[0], *[x for x in ad[1:] if hasattr(x, 'op')]))
            v = E.g([(E.B.AND(gd, lim), t) for gd, t in E.alts(v)] + [(E.B.NOT(lim), NONE)])
            continue
        if ad[0] == 'enumerate':
            before = [x for x in ads[:ads.index(ad)] if x[0] in ('skip', 'take', 'step_by', 'filter', 'filter_map', 'skip_while')]
            idx = c.fresh('index', *[mk('op', x[0], *[y for y in x[1:] if hasattr(y, 'op')]) for x in before])
            if at is not None and not before and all(e[0] == 1 for e in ms):
                turned = ('rev',) in ads and ads.index(('rev',)) > ads.index(ad)
                v = E.lift(v, lambda t: Some(Agg('tuple', 0, (Int(len(ms) - 1 - at if turned else at), t.a[2][0]))) if t.op == 'agg' and t.a[1] == 1 else t)
                continue
            if ad is ads[0]:
                E.posof[idx.a[:3]] = [t.a[2][0] for _, t in E.alts(v) if t.op == 'agg' and t.a[1] == 1]
            v = E.lift(v, lambda t: Some(Agg('tuple', 0, (idx, t.a[2][0]))) if t.op == 'agg' and t.a[1] == 1 else t)
        elif ad[0] in ('cloned', 'copied'):
            v = E.lift(v, lambda t: Some(E.load(st, t.a[2][0])) if t.op == 'agg' and t.a[1] == 1 else t)
        elif ad[0] == 'keys':
            v = E.lift(v, lambda t: Some(E.proj(t.a[2][0], ('f', 0))) if t.op == 'agg' and t.a[1] == 1 else t)
        elif ad[0] == 'values':
            v = E.lift(v, lambda t: Some(E.proj(t.a[2][0], ('f', 1))) if t.op == 'agg' and t.a[1] == 1 else t)
        elif ad[0] == 'map':
            c2 = X.Call(E, c.fr, c.b, c.blk, st, c.f, [c.args[0], ad[1]], c.dty)
            v = closure_lift(c2, v, 1, Some, lambda t: t)
        elif ad[0] == 'filter_map':
            c2 = X.Call(E, c.fr, c.b, c.blk, st, c.f, [c.args[0], ad[1]], c.dty)
            v = closure_lift(c2, v, 1, lambda x: x, lambda t: t)
        elif ad[0] == 'flatten':
            out = []
            for gd, t in E.alts(v):
                if t.op != 'agg' or t.a[1] != 1:
                    out.append((gd, t))
                    continue
                x = t.a[2][0]
                y = E_sym_enum(E, E.load(st, x) if x.op == 'ref' else x, OPT)
                for g2, o in E.alts(y):
                    if o.op == 'agg' and o.a[1] == 1:
                        o = Some(Ref(x.a[0], x.a[1] + (('vf', 1, 0),))) if x.op == 'ref' else o
                    out.append((E.B.AND(gd, g2), o))
            v = E.g(out)
        elif ad[0] in ('filter', 'take_while', 'skip_while'):
            out = []
            for gd, t in E.alts(v):
                if t.op == 'agg' and t.a[1] == 1:
                    root = ('H', c.fr.ctx, ('flt', c.b))
                    s2 = X.State(E.B.AND(st.pc, gd), dict(st.st))
                    s2.st[root] = t.a[2][0]
                    r = call_in(c, s2, ad[1], [Ref(root)])
                    b = E.truth(r) if r is not None else 0
                    if ad[0] == 'skip_while':
                        b = E.atom('limited', c.fresh(ad[0]))
                    elif ad[0] == 'take_while':
                        b = E.B.AND(b, E.atom('limited', c.fresh(ad[0])))
                    out.append((E.B.AND(gd, b), t))
                    out.append((E.B.AND(gd, E.B.NOT(b)), NONE))
                else:
                    out.append((gd, t))
            v = E.g(out)
        else:
            S = c.fresh('item', Str(ad[0]))
            nx = E.atom('next', S)
            v = E.g([(nx, Some(S)), (E.B.NOT(nx), NONE)])
    return v


def pick_ref(c, r, v, kind):
    """Next of a by-reference iteration over container v stored at reference r."""
    E, st = c.E, c.st
    if v.op == 'vec' and v.a[0] is EMPTY:
        return pick(c, v, kind, ('ref', r))
    if v.op == 'map' and v.a[0] is EMPTY:
        return pick(c, v, 'map_' + kind, ('ref', r))
    ty = itertype(c)
    if v.op == 'map' or ty == 'map':
        return pick(c, asmap(v), 'map_' + kind, ('ref', r))
    if v.op == 'vec':
        return pick(c, v, kind, ('ref', r))
    return pick(c, v, kind, ('ref', r))


def itertype(c):
    ty = pointee(c)
    if ty and ty['k'] == 'adt':
        n = ty['name']
        if any(x in n for x in ('HashMap', 'BTreeMap', 'hash_map', 'btree_map', 'btree::map', 'phf::')):
            return 'map'
    return None


@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def m_next(c):
    E, st = c.E, c.st
    it = c.ld(0)
    if it.op == 'iter' and it.a[2] and it.a[2][0][0] == 'at':
        # one round of a loop over a known list: without an element the next round follows
        v = iter_next(c, it)
        some = 0
        for gd, t in E.alts(v):
            if t.op == 'agg' and t.a[1] == 1:
                some = E.B.OR(some, gd)
        rest = E.B.AND(st.pc, E.B.NOT(some))
        if rest:
            s2 = X.State(rest, dict(st.st))
            E.skips.append(s2)
        st.pc = E.B.AND(st.pc, some)
        if st.pc == 0:
            raise X.Dead()
        xs = [(gd, t) for gd, t in E.alts(v) if t.op == 'agg' and t.a[1] == 1]
        return xs[0][1] if len(xs) == 1 else E.g(xs)
    if it.op == 'g':
        out = [(gd, iter_next(c, t)) for gd, t in it.a[0]]
        return E.g(out)
    # explicit finite list iterated by position
    if it.op == 'iter' and not it.a[2]:
        v = E.deep(st, it.a[0])
        if v.op == 'vec' and v.a[0] is EMPTY and not v.a[1]:
            return NONE
    return iter_next(c, it)


@model('std::iter::Iterator::find', 'std::iter::Iterator::any', 'std::iter::Iterator::all', 'std::iter::Iterator::position',
       'std::iter::Iterator::rposition', 'std::iter::Iterator::find_map')
def m_find(c):
    E, st = c.E, c.st
    what = c.f['path'].split('::')[-1]
    it = c.ld(0)
    v = iter_next(c, it) if it.op != 'g' else E.g([(gd, iter_next(c, t)) for gd, t in it.a[0]])
    out = []
    hit = 0
    payload = []
    for gd, t in E.alts(v):
        if t.op == 'agg' and t.a[1] == 1:
            x = t.a[2][0]
            s2 = X.State(E.B.AND(st.pc, gd), dict(st.st))
            if s2.pc == 0:
                continue
            if what == 'find':
                root = ('H', c.fr.ctx, ('fnd', c.b))
                s2.st[root] = x
                a = Ref(root)
            else:
                a = x
            r = call_in(c, s2, c.args[1], [a])
            if r is None:
                continue
            b = E.truth(r)
            b = E.B.AND(gd, b)
            if b:
                hit = E.B.OR(hit, b)
                payload.append((b, x))
    if what == 'all':
        return c.fresh('all') if hit not in (0, 1) else bval(hit)
    if not payload:
        return FALSE if what == 'any' else NONE
    if what == 'any':
        return bval(hit)
    x = E.g(payload) if len(payload) > 1 else payload[0][1]
    if what in ('position', 'rposition'):
        S = c.fresh('pos')
        if all(t.op == 'iter' and not t.a[2] for _, t in E.alts(it)):
            E.posof[S.a[:3]] = [y for _, y in E.alts(x)]
        E.finds[S] = (hit, x, what, tuple(a[0] for _, t in E.alts(it) if t.op == 'iter' for a in t.a[2]))
        x = S
    return E.g([(hit, Some(x)), (E.B.NOT(hit), NONE)])


@model('std::iter::Iterator::count', 'std::iter::Iterator::last', 'std::iter::Iterator::max', 'std::iter::Iterator::min',
       'std::iter::Iterator::sum', 'std::iter::Iterator::fold')
def m_iteragg(c):
    if c.f['path'].endswith('::last'):
        it = c.ld(0)
        if it.op == 'S':
            return iter_next(c, it)
    what = c.f['path'].split('::')[-1]
    if what in ('max', 'min') and c.ld(0).op in ('iter', 'g'):
        v = E_next_any(c, c.ld(0))
        return c.E.lift(v, lambda t: Some(c.E.lift(c.E.deep(c.st, t.a[2][0]), lambda x: mk(what + 'of', x))) if t.op == 'agg' and t.a[1] == 1 else t)
    if what == 'fold' and c.ld(0).op in ('iter', 'g'):
        r = m_fold(c)
        if r is not None:
            return r
    return c.fresh(what)


def m_fold(c):
    """The value folded so far after an arbitrary item, when folding one more item like it changes nothing."""
    E, st = c.E, c.st
    init = c.args[1]
    out = []
    for gd, t in E.alts(E_next_any(c, c.ld(0))):
        if t.op != 'agg' or t.a[1] != 1:
            out.append((gd, init))
            continue
        s2 = X.State(E.B.AND(st.pc, gd), dict(st.st))
        if s2.pc == 0:
            continue
        r1 = call_in(c, s2, c.args[2], [init, t.a[2][0]])
        r2 = call_in(c, s2, c.args[2], [r1, t.a[2][0]]) if r1 is not None else None
        if r1 is None or r2 is not r1:
            return None
        out.append((gd, r1))
    return E.g(out)


def E_next_any(c, it):
    return iter_next(c, it) if it.op != 'g' else c.E.g([(gd, iter_next(c, t)) for gd, t in it.a[0]])


INTS = ('u8', 'u16', 'u32', 'u64', 'usize', 'i16', 'i32', 'i64', 'isize')
CHECKED = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}


@model(*['core::num::<impl %s>::checked_%s' % (t, o) for t in INTS for o in CHECKED])
def m_checked(c):
    E = c.E
    a, b = c.ld(0), c.ld(1)
    o = CHECKED[c.f['path'].split('_')[-1]]

    def f(t):
        r = E.binop(o, t, b)
        ok = E.atom('fits', t if o == 'Add' else r)
        return E.g([(ok, Some(r)), (E.B.NOT(ok), NONE)])
    return E.lift(a, f)


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def m_try_from(c):
    """Between integers: the same number, where it fits."""
    E = c.E
    ty = E.P.types[c.dty] if c.dty is not None else None
    if not ty or not ty.get('s', '').endswith('TryFromIntError>'):
        return None

    def f(t):
        if t.op == 'int':
            return Ok(t)
        ok = E.atom('fits', t)
        return E.g([(ok, Ok(t)), (E.B.NOT(ok), Err(mk('err')))])
    return E.lift(c.ld(0), f)


@model('std::iter::Iterator::collect')
def m_collect(c, n=None):
    E, st = c.E, c.st
    it = c.ld(0)
    if it.op != 'iter':
        return mk('op', 'collect', it) if it.op != 'agg' else c.fresh('collect')
    ty = E.P.types[c.dty] if c.dty is not None else None
    n = n or (ty['name'].split('::')[-1] if ty and ty['k'] == 'adt' else '')
    if not [a for a in it.a[2] if a[0] not in ('cloned', 'copied')]:
        v = E.deep(st, it.a[0])
        if n in ('Vec', 'VecDeque') and v.op == 'vec' and it.a[1] == 'val':
            return v
    ms = each(c, it) if n in ('Vec', 'VecDeque', 'HashMap', 'BTreeMap') else None
    if ms is not None:
        if n.startswith('Vec'):
            return mk('vec', EMPTY, tuple((gd, 'one', x, 'b') for gd, x in ms))
        m = mk('map', EMPTY, ())
        for gd, x in ms:
            k, vv = E.deep(st, E.proj(x, ('f', 0))), E.proj(x, ('f', 1))
            m = E.map_set(m, k, vv if gd == 1 else E.ite(gd, vv, E.map_get(m, k)))
        return m
    v = iter_next(c, it)
    out = []
    for gd, t in E.alts(v):
        if t.op == 'agg' and t.a[1] == 1:
            out.append((gd, t.a[2][0]))
    if n in ('Vec', 'VecDeque', 'HashSet', 'BTreeSet'):
        # generic members: bound symbol of this site
        return mk('vec', EMPTY, tuple((gd, 'many', x, 'b') for gd, x in out))
    if n in ('HashMap', 'BTreeMap'):
        m = mk('map', EMPTY, ())
        es = []
        for gd, x in out:
            k = E.deep(st, E.proj(x, ('f', 0)))
            vv = E.proj(x, ('f', 1))
            es.append((k, 'many', E.ite(gd, vv, ABSENT)))
        return mk('map', mk('collected', *[y for k, m, v in es for y in (k, v)]), ())
    part = [mk('op', a[0], *[y for y in a[1:] if hasattr(y, 'op')]) for a in it.a[2] if a[0] in ('take', 'skip', 'step_by')]
    return mk('op', 'collect', *[x for _, x in out if x.op != 'agg'][:2], *part)


@model('std::vec::Vec::<T, A>::len', 'std::collections::VecDeque::<T, A>::len', 'core::slice::<impl [T]>::len',
       'std::collections::HashMap::<K, V, S, A>::len', 'std::collections::BTreeMap::<K, V, A>::len',
       'std::collections::HashSet::<T, S, A>::len')
def m_len(c):
    v = c.ld(0)

    def f(t):
        if t.op == 'vec' and t.a[0] is EMPTY and all(e[0] == 1 and e[1] == 'one' for e in t.a[1]):
            return Int(len(t.a[1]))
        if t.op == 'map' and t.a[0] is EMPTY and all(e[1] == 'one' and e[2].op not in ('g', 'absent') for e in t.a[1]):
            return Int(len(t.a[1]))
        return mk('len', t)
    return c.E.lift(v, f)


@model('std::vec::Vec::<T, A>::is_empty', 'std::collections::VecDeque::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty',
       'std::collections::HashMap::<K, V, S, A>::is_empty', 'std::collections::BTreeMap::<K, V, A>::is_empty')
def m_isempty(c):
    r = m_len(c)
    return bval(c.E.cond_eq(r, 0))


@model('std::vec::Vec::<T, A>::clear', 'std::collections::HashMap::<K, V, S, A>::clear', 'std::collections::BTreeMap::<K, V, A>::clear',
       'std::collections::VecDeque::<T, A>::clear')
def m_clear(c):
    E, st = c.E, c.st
    m = 'map' if 'Map' in c.f['path'] else 'vec'
    E.store(st, E.lastref(st, c.args[0]), mk(m, EMPTY, ()))
    return UNIT


@model('std::vec::Vec::<T, A>::retain', 'std::collections::VecDeque::<T, A>::retain_mut', 'std::vec::Vec::<T, A>::retain_mut',
       'std::collections::VecDeque::<T, A>::retain', 'std::collections::HashMap::<K, V, S, A>::retain')
def m_retain(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    v = E.load(st, r)
    if 'Map' in c.f['path']:
        S = c.fresh('item', v if v.op != 'g' else mk('op', 'm'), Str('retain'))
        x = call_in(c, st, c.args[1], [mk('key', S), mk('valof', S)])
        E.store(st, r, mk('op', 'retain', v, x if x is not None else UNDEF))
        return UNIT
    if v.op == 'vec' and v.a[0] is EMPTY:
        # every entry goes through the predicate (and may be changed by it)
        ents = []
        for j, e in enumerate(v.a[1]):
            root = ('H', c.fr.ctx, ('ret', c.b, j))
            st.st[root] = e[2]
            x = call_in(c, st, c.args[1], [Ref(root)])
            keep = E.truth(x) if x is not None else 0
            E.retains[(c.fr.ctx, c.b, j)] = (e[2], x, v, st.pc)
            ents.append((E.B.AND(e[0], keep), e[1], E.deep(st, st.st[root]), e[3]))
        E.store(st, r, mk('vec', EMPTY, tuple(ents)))
        return UNIT
    S = c.fresh('item', v if v.op not in ('g', 'vec') else mk('op', 'v', v), Str('retain'))
    x = call_in(c, st, c.args[1], [S])
    E.retains[(c.fr.ctx, c.b)] = (S, x, v, st.pc)
    E.store(st, r, mk('op', 'retain', v, S, x if x is not None else UNDEF))
    return UNIT


@model('std::vec::Vec::<T, A>::remove')
def m_vecremove(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    v = E.load(st, r)
    i = E.deep(st, c.args[1])
    E.update(st, r, lambda t: mk('op', 'removed', t, i))
    return mk('idx', v, i)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last',
       'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut', 'std::collections::VecDeque::<T, A>::get',
       'std::collections::VecDeque::<T, A>::get_mut', 'std::collections::VecDeque::<T, A>::front', 'std::collections::VecDeque::<T, A>::back')
def m_slget(c):
    E, st = c.E, c.st
    if len(c.args) > 1:
        x = at_position(c, E.lastref(st, c.args[0]), E.deep(st, c.args[1]))
        if x is not None:
            return Some(x)
    v = c.ld(0)
    i = E.deep(st, c.args[1]) if len(c.args) > 1 else Str(c.f['path'].split('::')[-1])
    S = mk('idx', v, i)
    b = E.atom('inrange', v, i)
    return E.g([(b, Some(S)), (E.B.NOT(b), NONE)])


@model('std::boxed::Box::<T>::new_uninit')
def m_newuninit(c):
    root = ('H', c.fr.ctx, c.b)
    c.st.st[root] = UNDEF
    return Ref(root)


@model('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::<impl [T]>::into_vec')
def m_boxvec(c):
    E, st = c.E, c.st
    v = E.deep(st, c.args[0])
    n = 0
    while v.op == 'agg' and n < 6 and len(v.a[2]) >= 1:
        # MaybeUninit / ManuallyDrop wrappers
        x = [z for z in v.a[2] if z.op != 'undef']
        if len(x) != 1:
            break
        v = E.deep(st, x[0])
        n += 1
    return v


@model('std::vec::from_elem')
def m_fromelem(c):
    return mk('vec', EMPTY, ((1, 'many', c.args[0], 'b'),))


@model('phf::Map::<K, V>::get')
def m_phf(c):
    E = c.E
    m = c.ld(0)
    k = c.ld(1)
    ents = phf_entries(E, m)
    if ents is None:
        return None

    def f(t):
        if t.op == 'str':
            x = ents.get(t.a[0])
            return NONE if x is None else Some(x)
        S = mk('phfget', t)
        b = E.atom('phfhas', m, t)
        return E.g([(b, Some(mk('phfval', m, t))), (E.B.NOT(b), NONE)])
    return E.lift(k, f)


def phf_entries(E, m):
    if m.op == 'static':
        s = E.P.statics.get(m.a[0])
        if s is None:
            return None
        m = E.const(s['ty'], s['v'])
    if m.op == 'agg' and m.a[0].endswith('Map') and len(m.a[2]) == 3 and m.a[2][2].op == 'karr':
        r = {}
        for e in m.a[2][2].a[0]:
            if e.op == 'agg' and e.a[2][0].op == 'str':
                r[e.a[2][0].a[0]] = e.a[2][1]
        return r
    return None


@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def m_callonce(c):
    if c.f.get('key') in c.E.P.fns:
        return None
    E, st = c.E, c.st
    tup = c.args[1]
    n = len(tup.a[2]) if tup.op == 'agg' else 0
    return E.call_value(c, c.args[0], [tup.a[2][i] for i in range(n)])


@model('std::time::Instant::now', 'std::time::Instant::elapsed', 'std::time::Duration::as_secs')
def m_time(c):
    return mk('kunk', 'time')


@model('std::io::_print', 'std::io::_eprint')
def m_print(c):
    return UNIT


@model('chrono::Utc::now')
def m_now(c):
    return mk('now')


@model('chrono::DateTime::<Tz>::to_rfc3339_opts')
def m_rfc(c):
    return mk('op', 'rfc3339', c.ld(0), *[x for x in c.args[1:]])


@model('std::ops::Drop::drop', 'std::mem::drop')
def m_drop(c):
    return UNIT


def fallback(c):
    return None


# ------------------------------------------------------------------ XML tree primitives
XD = 'files::xml::xml_tree::XmlDocument::'
XE = 'files::xml::xml_tree::XmlElement::'


def doc_of(c, i=0):
    """Identity term of the XmlDocument behind argument i."""
    r = c.E.lastref(c.st, c.args[i])
    if r.op == 'ref':
        return mk('docref', r.a[0], r.a[1])
    return r


def el_id(E, idv):
    """Element identity from an id value."""
    return E.lift(idv, lambda t: t.a[0] if t.op == 'id' else mk('byid', t))


def el_of(c, i=0):
    v = c.ld(i)
    return v


def optel(c, i):
    """Option<&usize> parent argument -> element identity."""
    E = c.E
    v = E_sym_enum(E, c.args[i], OPT)
    d = mk('root')
    return E.lift(v, lambda t: d if t.a[1] == 0 else el_id(E, E.deep(c.st, t.a[2][0])))


@model(XD + 'get_root', XD + 'get_root_mut')
def x_root(c):
    return Some(mk('root'))


@model(XE + 'get_id')
def x_getid(c):
    return c.E.lift(el_of(c), lambda t: mk('id', t))


@model(XE + 'get_tag')
def x_gettag(c):
    return c.E.lift(el_of(c), lambda t: eltag(c, t))


def eltag(c, t):
    if t.op == 'ct' and t.a[1] != '*':
        return Str(t.a[1])
    if t.op == 'E':
        return c.E.elinfo[t][0]
    return mk('tag', t)


@model(XE + 'pop_child_mut')
def x_popchild(c):
    E = c.E
    el = el_of(c)
    if el.op == 'g':
        el = el.a[0][0][1] if len(el.a[0]) == 1 else mk('many', *[t for _, t in el.a[0]])
    S = c.fresh('child', el)
    E.pops.setdefault((c.fr.ctx, c.b), (c.fr.fn, el))
    nx = E.atom('next', S)
    return E.g([(nx, Some(Agg('tuple', 0, (mk('id', S), mk('tag', S))))), (E.B.NOT(nx), NONE)])


@model(XE + 'get_child_count')
def x_count(c):
    return mk('childcount', el_of(c))


@model(XE + 'get_first_child_id')
def x_firstchild(c):
    E = c.E
    el = el_of(c)
    f = mk('first', el)
    b = E.atom('exists', f)
    return E.g([(b, Some(mk('id', f))), (E.B.NOT(b), NONE)])


@model(XD + 'pop_element_mut', XD + 'get_element', XD + 'get_element_mut')
def x_popel(c):
    E = c.E
    idv = c.ld(1)
    return E.lift(idv, lambda t: Some(t.a[0] if t.op == 'id' else mk('byid', t)))


@model(XD + 'pop_elements_by_tag_mut')
def x_popby(c):
    E = c.E
    tag = c.ld(1)
    par = optel(c, 2)
    base = mk('tagged', tag, par)
    E.popped.add((tag, par))
    b = E.atom('existstag', tag, par)
    return E.g([(b, Some(mk('vec', base, ()))), (E.B.NOT(b), NONE)])


@model(XD + 'get_first_element', XD + 'get_first_element_mut')
def x_firstel(c):
    E = c.E
    path = c.ld(1)
    par = optel(c, 2)
    p = mk('path', par, *[e[2] for e in path.a[1]]) if path.op == 'vec' else mk('path', par, path)
    b = E.atom('exists', p)
    return Ok(E.g([(b, Some(p)), (E.B.NOT(b), NONE)]))


@model(XD + 'get_first_element_id')
def x_firstelid(c):
    E = c.E
    path = c.ld(1)
    par = optel(c, 2)
    p = mk('path', par, *[e[2] for e in path.a[1]]) if path.op == 'vec' else mk('path', par, path)
    b = E.atom('exists', p)
    return Ok(E.g([(b, Some(mk('id', p))), (E.B.NOT(b), NONE)]))


@model(XD + 'get_element_ids_by_attribute')
def x_idsbyattr(c):
    E = c.E
    k, v = c.ld(1), c.ld(2)
    par = optel(c, 3)
    base = mk('withattr', k, v, par)
    b = E.atom('existsattr', k, v, par)
    return E.g([(b, Some(mk('vec', base, ()))), (E.B.NOT(b), NONE)])


OUT = ('G', 'OUT')


def new_el(c, tag, par, how):
    E, st = c.E, c.st
    e = mk('E', c.fr.ctx, c.b)
    E.elinfo[e] = (tag, par, how)
    E.treeops.setdefault(('new', e), (tag, par, how, c.ld(2) if how != 'append' else None))
    for r in list(st.st):
        if r[0] in ('EA', 'EV') and r[1] is e:
            del st.st[r]
    st.st[('EA', e)] = mk('map', EMPTY, ())
    st.st[('EV', e)] = NONE
    cur = st.st.get(OUT, mk('map', EMPTY, ()))
    st.st[OUT] = E.map_set(cur, e, Agg('tuple', 0, (tag, par)))
    return e


@model(XD + 'append_child_mut')
def x_append(c):
    tag = c.ld(1)
    return Ok(new_el(c, tag, optel(c, 2), 'append'))


@model(XD + 'create_root_mut')
def x_createroot(c):
    c.E.roottags.append(c.ld(1))
    return Ok(mk('root'))


@model(XD + 'insert_children_after_tag_mut', XD + 'insert_children_before_tag_mut', XD + 'insert_child_at_mut')
def x_insert(c):
    tag = c.ld(1)
    return Ok(new_el(c, tag, optel(c, 3), c.f['path'].split('::')[-1]))


@model(XE + 'get_attribute')
def x_getattr(c):
    E, st = c.E, c.st

    def f(t):
        r = ('EA', t)
        if t.op == 'E':
            return Some(Ref(r))
        b = E.atom('hasattrs', t)
        return E.g([(b, Some(Ref(r))), (E.B.NOT(b), NONE)])
    return E.lift(el_of(c), f)


@model(XE + 'get_attribute_mut')
def x_getattrmut(c):
    return x_getattr(c)


@model(XE + 'set_attribute_mut')
def x_setattr(c):
    E, st = c.E, c.st
    el = el_of(c)
    v = c.ld(1)
    for gd, t in E.alts(el):
        r = ('EA', t)
        cur = E.getroot(st, r)
        st.st[r] = E.ite(gd, v, cur)
    E.setattrs.setdefault((c.fr.ctx, c.b), el)
    return Ok(c.args[0])


@model(XE + 'set_value_mut')
def x_setval(c):
    E, st = c.E, c.st
    v = c.ld(1)
    for gd, t in E.alts(el_of(c)):
        r = ('EV', t)
        cur = E.getroot(st, r)
        st.st[r] = E.ite(gd, Some(v), cur)
    return UNIT


@model(XE + 'get_value')
def x_getval(c):
    E, st = c.E, c.st

    def f(t):
        r = ('EV', t)
        if r not in st.st:
            b = E.atom('hastext', t)
            st.st[r] = E.g([(b, Some(mk('text', t))), (E.B.NOT(b), NONE)])
        return Ref(r)
    return E.lift(el_of(c), f)


@model(XE + 'has_value')
def x_hasval(c):
    E = c.E
    r = x_getval(c)
    v = E.load(c.st, r)
    return bval(E.cond_eq(E.discr(v, OPT), 1))


@model(XE + 'is_empty_tag')
def x_isempty(c):
    return bval(c.E.atom('emptytag', el_of(c)) if el_of(c).op != 'g' else 0)


@model(XE + 'order_child_mut')
def x_order(c):
    E = c.E
    E.orders.append((c.fr.ctx, c.b, el_of(c), c.ld(1)))
    E.treeops.pop(('order', c.fr.ctx, c.b), None)
    k = mk('ordered', c.fr.ctx, c.b)
    E.treeops[('order', c.fr.ctx, c.b)] = (el_of(c), c.ld(1), k)
    c.st.st[('G', 'ORD')] = E.map_set(c.st.st.get(('G', 'ORD'), mk('map', EMPTY, ())), k, UNIT)
    return Ok(UNIT)


@model(XE + 'get_namespace', XE + 'get_parent_id')
def x_other(c):
    return mk(c.f['path'].split('::')[-1], el_of(c))


# document handles
@model('files::office_document::OfficeDocument::get_xml_tree_mut')
def o_tree(c):
    E = c.E
    p = c.ld(1)
    b = E.atom('partexists', p if p.op != 'g' else mk('many', p))
    return Ok(E.g([(b, Some(Agg('tuple', 0, (mk('srcdoc'), mk('srctype'), mk('srcext'), mk('srcexttype'))))), (E.B.NOT(b), NONE)]))


@model('files::office_document::OfficeDocument::get_xml_document_ref')
def o_ref(c):
    E = c.E
    E.docrefs.append((c.fr.ctx, c.b, [E.deep(c.st, a) for a in c.args], c.st.pc))
    root = ('DOC', c.ld(1) if c.ld(1).op != 'g' else mk('many', c.ld(1)))
    c.st.st[root] = mk('doc', root[1])
    c.st.st[('CLOSED', root[1])] = FALSE
    return Ok(Ref(root))


@model('files::office_document::OfficeDocument::close_xml_document')
def o_close(c):
    E = c.E
    E.closes.append((c.fr.ctx, c.b, c.ld(1), c.st.pc))
    ended(c)
    return Ok(UNIT)


def ended(c):
    p = c.ld(1)
    k = ('CLOSED', p if p.op != 'g' else mk('many', p))
    if k in c.st.st:
        c.st.st[k] = TRUE


@model('files::office_document::OfficeDocument::delete_document_mut')
def o_delete(c):
    ended(c)
    return None


@model('files::xml::xml_serialize::XmlSerializer::vec_to_xml_doc_tree')
def o_parse(c):
    return Ok(mk('tpldoc', c.ld(0) if c.ld(0).op == 'str' else mk('kunk', 'x')))


def rearr(name, t, f):
    """A collection after an operation that rearranges it: listed entries by f, an unknown base as a whole."""
    if t.op == 'vec':
        b = t.a[0]
        return mk('vec', b if b is EMPTY else mk('op', name, b), f(t.a[1]))
    if t.op in ('S', 'f', 'vf', 'mapval', 'idx'):
        return mk('op', name, t)
    return t


@model('core::slice::<impl [T]>::reverse')
def m_reverse(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    flip = {'b': 'f', 'f': 'b'}
    E.update(st, r, lambda t: rearr('reversed', t, lambda es: tuple((g, m, x, flip.get(d, d) if isinstance(d, str) else d) for g, m, x, d in es[::-1])))
    return UNIT


@model('std::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort_by', 'std::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable',
       'core::slice::<impl [T]>::sort_unstable_by', 'core::slice::<impl [T]>::sort_unstable_by_key', 'std::slice::<impl [T]>::sort_by_cached_key',
       'core::slice::<impl [T]>::swap', 'core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right')
def m_sort(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    E.update(st, r, lambda t: rearr('sorted', t, lambda es: tuple((g, m, x, 'sorted') for g, m, x, d in es)))
    return UNIT


@model('std::vec::Vec::<T, A>::dedup', 'std::vec::Vec::<T, A>::dedup_by', 'std::vec::Vec::<T, A>::dedup_by_key', 'std::vec::Vec::<T, A>::truncate',
       'std::collections::VecDeque::<T, A>::truncate')
def m_dedup(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    lim = E.atom('limited', c.fresh(c.f['path'].split('::')[-1]))
    E.update(st, r, lambda t: rearr('limited', t, lambda es: tuple((E.B.AND(g, lim) if m == 'many' or len(es) > 1 else g, m, x, d) for g, m, x, d in es)))
    return UNIT


@model('std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::reserve', 'std::string::String::reserve', 'std::string::String::shrink_to_fit',
       'std::collections::HashMap::<K, V, S, A>::reserve', 'std::collections::VecDeque::<T, A>::reserve')
def m_nothing(c):
    return UNIT


@model('std::ops::RangeInclusive::<Idx>::new')
def m_rangeincl(c):
    return mk('agg', 'std::ops::RangeInclusive', 0, (c.args[0], c.args[1]))


@model('std::ops::RangeInclusive::<Idx>::contains', 'std::ops::Range::<Idx>::contains', 'std::ops::RangeFrom::<Idx>::contains', 'std::ops::RangeTo::<Idx>::contains',
       'std::ops::RangeToInclusive::<Idx>::contains', 'std::ops::RangeBounds::contains')
def m_rangehas(c):
    E, B = c.E, c.E.B
    r, x = c.ld(0), E.deep(c.st, c.ld(1))
    if r.op != 'agg' or 'Range' not in r.a[0] or r.a[0].endswith('RangeFull'):
        return None
    name, v = r.a[0].split('::')[-1], [E.deep(c.st, t) for t in r.a[2]]
    b = 1
    if name in ('Range', 'RangeInclusive', 'RangeFrom'):
        b = B.AND(b, E.truth(E.binop('Le', v[0], x)))
    if name in ('Range', 'RangeTo'):
        b = B.AND(b, E.truth(E.binop('Lt', x, v[-1])))
    if name in ('RangeInclusive', 'RangeToInclusive'):
        b = B.AND(b, E.truth(E.binop('Le', x, v[-1])))
    return mk('b', b)
