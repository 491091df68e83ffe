"""The C interface crate (rs_ffi): dump, engine and the facts recorded while one exported function is interpreted."""
import os
import subprocess
import sys

from . import core
from . import engine as X
from .engine import Engine, State, mk, Ref, RES, OPT, Some, NONE, UNIT
from .mir import Program, short
from .models import bval

_prog = []


def program():
    if not _prog:
        out = os.environ.get('OXO_FFIDUMP')
        if not out:
            out = os.path.join(core.V, '.build', 'ffi-%d.json' % os.getpid())
            r = subprocess.run([os.path.join(core.V, 'ffi_dump.sh'), out, core.REPO], capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(out):
                sys.stderr.write(r.stderr[-3000:])
                return None
            _prog.append(Program(out))
            os.unlink(out)
        else:
            _prog.append(Program(out))
    return _prog[0]


def tail(p):
    return p.split('::')[-1] if p else ''


KEEPS = {'std::mem::ManuallyDrop::<T>::new', 'std::mem::forget', 'std::boxed::Box::<T>::leak', 'std::boxed::Box::<T, A>::leak'}
SAME = {'to_string_lossy', 'into_owned', 'to_owned', 'to_string', 'as_ref', 'cast', 'cast_mut', 'cast_const', 'deref', 'deref_mut', 'clone', 'borrow',
        'as_mut_ptr', 'as_str', 'into', 'into_string'}


class Run(Engine):
    """One exported function: its pointer arguments are arbitrary, output pointers refer to cells that start out unset."""

    def __init__(self, P, fn):
        super().__init__(P)
        self.fn = fn
        self.uses = []      # (pc, pointer, what, line): a pointer is used as a valid one
        self.owned = []     # (pc, pointer, line): a handle was turned back into an owned box
        self.kept = []      # (pc, pointer): that box is never released here
        self.lib = []       # (pc, name, args, result, by value, line): operations of the library
        self.fall = []      # (pc, name, result, line): every other call giving a Result
        self.text = []      # results of building error text
        self.leaked = set()
        self.outs = {}
        self.ins = []

    def run_fn(self):
        X.ENG = self
        fn, P = self.fn, self.P
        st = State(1, {})
        args = []
        for i in range(1, fn.argc + 1):
            t = P.types[fn.locals[i][0]]
            nm = (fn.locals[i][1] if len(fn.locals[i]) > 1 else None) or 'argument %d' % i
            if t['k'] == 'ptr' and t.get('mut'):
                r = ('H', 'out', nm)
                st.st[r] = mk('unset')
                self.outs[nm] = (r, t)
                args.append(Ref(r))
            else:
                self.ins.append((nm, t))
                args.append(mk('arg', nm))
        self.ret = self.call_fn(st, fn, args, ('ffi', 0, fn.key), ())
        self.end = st
        return self

    def isnull(self, a):
        if a.op == 'ref' and a.a[0][:2] == ('H', 'out'):
            a = mk('arg', a.a[0][2])
        return mk('isnull', a) if a.op == 'arg' else None

    def use(self, st, fr, blk, a, what):
        for g, t in self.alts(a):
            if t.op in ('arg', 'nullptr'):
                self.uses.append((self.B.AND(st.pc, g), t, what, blk.get('l'), fr.fn.short))

    def binop(self, op, a, b):
        if op in ('Eq', 'Ne') and (a.op == 'nullptr' or b.op == 'nullptr'):
            x = b if a.op == 'nullptr' else a
            k = self.isnull(x)
            if k is not None:
                c = self.truth(k)
                return bval(c if op == 'Eq' else self.B.NOT(c))
        return super().binop(op, a, b)

    def null(self, a):
        """condition under which the pointer is null"""
        if a.op == 'nullptr':
            return 1
        return self.truth(mk('isnull', a))

    def call2(self, c, f, args, path, key, fr, b, blk, st):
        p = short(f.get('path') or '')
        n = tail(p)
        if n == 'is_null' and args:
            out = self.lift(args[0], lambda a: bval(self.truth(self.isnull(a))) if self.isnull(a) is not None else bval(1) if a.op == 'nullptr' else bval(0)
                            if a.op in ('ref', 'raw', 'intoraw') else self.fresh(fr, b, 'is_null', a))
            return out
        if p in ('std::ptr::null', 'std::ptr::null_mut'):
            return mk('nullptr')
        if p.startswith('std::ptr::NonNull') and n == 'new' or ('_ptr::<impl *' in p and n in ('as_ref', 'as_mut')):
            def nn(a):
                k = self.isnull(a)
                if k is None:
                    return Some(a)
                d = self.truth(k)
                return self.g([(d, NONE), (self.B.NOT(d), Some(a))])
            return self.lift(args[0], nn)
        if 'CStr' in p and n == 'from_ptr':
            self.use(st, fr, blk, args[0], 'read as text')
            return mk('text', args[0]) if args[0].op == 'arg' else self.fresh(fr, b, 'text')
        if n in ('from_raw_parts', 'from_raw_parts_mut') and 'slice' in p:
            self.use(st, fr, blk, args[0], 'read as a buffer')
            return mk('buffer', args[0], args[1])
        if n == 'from_raw' and 'boxed::Box' in p:
            self.use(st, fr, blk, args[0], 'turned into a box')
            for g, t in self.alts(args[0]):
                if t.op == 'arg':
                    self.owned.append((self.B.AND(st.pc, g), t, blk.get('l')))
            return mk('handle', args[0]) if args[0].op == 'arg' else self.fresh(fr, b, 'handle', args[0])
        if 'openxml_office_fbs' in p and key in self.P.fns and args:
            return mk('field', n, self.deep(st, args[0]))
        if p in KEEPS or (n in ('into_raw', 'leak') and 'boxed::Box' in p):
            for g, t in self.alts(self.deep(st, args[0])):
                self.leaked.add(t)
                if t.op == 'handle':
                    self.kept.append((self.B.AND(st.pc, g), t.a[0]))
            if n == 'into_raw':
                return mk('raw', self.deep(st, args[0]))
            return args[0] if n != 'forget' else UNIT
        if n == 'into_raw' and 'CString' in p:
            return mk('raw', self.deep(st, args[0]))
        if n == 'new' and 'boxed::Box' in p:
            return mk('box', self.deep(st, args[0]))
        if 'CStr' in p and n in ('as_ptr', 'as_mut_ptr'):
            return mk('within', self.deep(st, args[0]))
        if n in ('write', 'write_unaligned', 'replace') and ('_ptr::<impl *' in p or p.startswith('std::ptr::') or p.startswith('core::ptr::')) and args[0].op == 'ref':
            self.store(st, args[0], args[1])
            return UNIT
        if n in ('read', 'read_unaligned') and ('_ptr::<impl *' in p or p.startswith('std::ptr::')):
            self.use(st, fr, blk, args[0], 'read')
            return mk('handle', args[0]) if args[0].op == 'arg' else None or self.fresh(fr, b, 'read', args[0])
        if 'CString' in p and n == 'new':
            r = self.fresh(fr, b, 'cstring', self.deep(st, args[0]))
            self.text.append(r)
            return r
        if key is None or key not in self.P.fns:
            if n in SAME and args:
                a = args[0]
                a = self.lift(a, lambda t: self.deep(st, t) if t.op == 'ref' else t)
                if all(t.op in ('text', 'handle', 'arg') for g, t in self.alts(a)):
                    return a
            root = p.split('::')[0].lstrip('<')
            if self.is_lib(f):
                byval = bool(args) and not self.is_ref(fr, blk, 0)
                if c.dty is None or not self.P.is_result(c.dty):
                    return mk('made', n, *[self.deep(st, x) for x in args])
                r = self.fresh(fr, b, n, *[self.deep(st, x) for x in args if x.op in ('arg', 'text', 'handle', 'buffer')])
                self.lib.append((st.pc, n, [self.deep(st, x) for x in args], r, byval, blk.get('l'), self.P.is_result(c.dty) if c.dty is not None else False, p))
                return r
            r = super().call2(c, f, args, path, key, fr, b, blk, st)
            if c.dty is not None and self.P.is_result(c.dty) and r is not None and r.op == 'S':
                self.fall.append((st.pc, n, r, blk.get('l')))
            return r
        return super().call2(c, f, args, path, key, fr, b, blk, st)

    def is_lib(self, f):
        p = f.get('path') or ''
        return p.startswith('draviavemal_openxml_office::') or '<draviavemal_openxml_office::' in p

    def is_ref(self, fr, blk, i):
        o = blk['a'][i] if i < len(blk['a']) else None
        if not o or o[0] not in ('c', 'm'):
            return False
        return self.P.types[self.ptype(fr.fn, o[1])]['k'] in ('ref', 'ptr')

    def failed(self, r):
        return self.B.NOT(self.cond_eq(self.discr(r, RES), 0))


def exported(P):
    return sorted((f for f in P.lib.values() if f.cabi), key=lambda f: f.short)
