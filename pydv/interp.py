"""Execution of the Python 2 AST (mixed into Engine)."""
import ast as pyast
from fractions import Fraction

import z3

from .types import (TInt, TReal, TBool, TStr, TFP, TNone, TBot, TObj, TSeq,
                    TTup, TStruct, TOpt, TMap, TSet, join, JoinError)
from .engine import (Unsupported, PathEnd, PyExc, ReturnEx, BreakEx,
                     ContinueEx, Through, Sym, Ref, Poison, Maybe, HList, HDict, HSet,
                     HInst, HGen, HZip, FuncV, BoundV, Builtin, Descr, ClassV,
                     ModuleV, ExtV, TermV, UFun, Frame, OBJECT, TYPES, EXC,
                     PKG, assigned_names, walk, seq_parts, State, frac)


PY2_BUILTINS = set("""abs all any apply basestring bin bool buffer bytearray
bytes callable chr classmethod cmp coerce compile complex copyright credits
delattr dict dir divmod enumerate eval execfile exit file filter float format
frozenset getattr globals hasattr hash help hex id input int intern isinstance
issubclass iter len license list locals long map max memoryview min next
object oct open ord pow print property quit range raw_input reduce reload repr
reversed round set setattr slice sorted staticmethod str sum super tuple type
unichr unicode vars xrange zip __import__ __debug__ Ellipsis NotImplemented
""".split())


class PoisonRead(Exception):
    def __init__(self, key):
        Exception.__init__(self, str(key))
        self.key = key


def py3json(n):
    """Python 3 ast -> the JSON form (only what exec'd templates use)"""
    if isinstance(n, pyast.Module):
        return {'_': 'Module', 'body': [py3json(x) for x in n.body]}
    if isinstance(n, pyast.FunctionDef):
        a = n.args
        return {'_': 'FunctionDef', 'name': n.name, 'lineno': n.lineno,
                'decorator_list': [], 'body': [py3json(x) for x in n.body],
                'args': {'_': 'arguments', 'vararg': a.vararg and a.vararg.arg,
                         'kwarg': a.kwarg and a.kwarg.arg,
                         'args': [{'_': 'Name', 'id': x.arg, 'ctx': {'_': 'Param'}}
                                  for x in a.args],
                         'defaults': [py3json(x) for x in a.defaults]}}
    if isinstance(n, pyast.Constant):
        if isinstance(n.value, str):
            return {'_': 'Str', 's': n.value, 'lineno': n.lineno}
        if n.value is None or isinstance(n.value, bool):
            return {'_': 'Name', 'id': str(n.value), 'lineno': n.lineno,
                    'ctx': {'_': 'Load'}}
        return {'_': 'Num', 'lineno': n.lineno,
                'n': {'t': type(n.value).__name__, 'v': repr(n.value)}}
    if isinstance(n, (pyast.Load, pyast.Store, pyast.Del)):
        return {'_': type(n).__name__}
    if isinstance(n, pyast.AST):
        if isinstance(n, pyast.Subscript):
            sl = n.slice
            return {'_': 'Subscript', 'value': py3json(n.value),
                    'ctx': py3json(n.ctx), 'lineno': n.lineno,
                    'slice': py3json(sl) if isinstance(sl, pyast.Slice)
                    else {'_': 'Index', 'value': py3json(sl)}}
        d = {'_': type(n).__name__}
        if hasattr(n, 'lineno'):
            d['lineno'] = n.lineno
        for f in n._fields:
            d[f] = py3json(getattr(n, f, None))
        if d['_'] == 'Call':
            d['starargs'] = d['kwargs'] = None
            for a in n.args:
                if isinstance(a, pyast.Starred):
                    d['starargs'] = py3json(a.value)
            d['args'] = [py3json(a) for a in n.args
                         if not isinstance(a, pyast.Starred)]
            for k in n.keywords:
                if k.arg is None:
                    d['kwargs'] = py3json(k.value)
            d['keywords'] = [py3json(k) for k in n.keywords
                             if k.arg is not None]
        return d
    if isinstance(n, list):
        return [py3json(x) for x in n]
    return n


class Interp(object):
    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name not in self.asts:
            return None
        rec = self.asts[name]
        if 'ast' not in rec:
            raise Unsupported('module %s does not parse: %s' %
                              (name, rec.get('error')))
        m = self.modules[name] = ModuleV(name)
        m.env['__name__'] = name
        fr = Frame(self.fresh_id(), None, m, None, None)
        self.loading += 1
        for stmt in rec['ast']['body']:
            try:
                self.exec_stmt(stmt, fr)
            except (Unsupported, JoinError, PyExc) as e:
                for n in assigned_names([stmt]):
                    m.env[n] = Poison('module-level %s of %s: %s' %
                                      (n, name, e))
        self.loading -= 1
        return m

    def ext(self, dotted):
        if dotted in self.asts:
            return self.module(dotted)
        v = self.B.EXT_VALUES.get(dotted)
        if v is not None:
            return v(self)
        if dotted in self.ext_values:
            return self.ext_values[dotted]
        return ExtV(dotted)

    def lookup_path(self, path):
        """'general.WeightedSequence.merge' -> value"""
        parts = path.split('.')
        m = self.module(PKG + parts[0])
        if m is None:
            raise Unsupported('no module %s' % parts[0])
        if parts[1] not in m.env:
            raise Unsupported('%s has no %s' % (parts[0], parts[1]))
        v = m.env[parts[1]]
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        for p in parts[2:]:
            v = self.getattr(v, p)
        return v

    # -------------------------------------------------------------- names
    def load(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if f.locals_ is None:       # module or class level
                d = self.st.frames.get(f.fid)
                if d is not None and name in d:
                    return self.check_val(d[name], f.fid, name)
                if f.closure is None:
                    break
                f = f.closure
                continue
            if name in f.locals_:
                d = self.st.frames[f.fid]
                if name in d:
                    return self.check_val(d[name], f.fid, name)
                self.raise_('UnboundLocalError' if first else 'NameError',
                            name)
            f = f.closure
            first = False
        env = fr.module.env
        if name in env:
            v = env[name]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if name in self.builtins:
            return self.builtins[name]
        if name in PY2_BUILTINS:
            raise Unsupported('builtin %s' % name)
        self.raise_('NameError', name)

    def check_val(self, v, fid, name):
        if isinstance(v, Poison):
            raise PoisonRead(v.why)
        if isinstance(v, Maybe):
            if self.branch(v.flag):
                return v.value
            self.raise_('UnboundLocalError', name)
        return v

    def store(self, name, v, fr):
        if fr.locals_ is None and fr.fid not in self.st.frames:
            fr.module.env[name] = v
        else:
            self.st.frames[fr.fid][name] = v

    # --------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        self.line = (fr.module.name, s.get('lineno'))
        getattr(self, 's_' + s['_'], self.s_unknown)(s, fr)

    def s_unknown(self, s, fr):
        raise Unsupported('statement %s at %s' % (s['_'], self.line))

    def s_Expr(self, s, fr):
        v = s['value']
        if v['_'] == 'Str':
            return
        if v['_'] == 'Yield':
            val = self.eval(v['value'], fr) if v['value'] else None
            self.do_yield(val, fr)
            return
        self.eval(v, fr)

    def do_yield(self, val, fr):
        if fr.emit is not None:
            fr.emit(val)
            return
        if fr.out is None:
            raise Unsupported('yield outside a generator')
        self.list_append(Ref(fr.out), val)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Unsupported('global statement')

    def s_Import(self, s, fr):
        for a in s['names']:
            if a['asname']:
                self.store(a['asname'], self.ext(a['name']), fr)
            else:
                top = a['name'].split('.')[0]
                self.store(top, self.ext(top), fr)

    def s_ImportFrom(self, s, fr):
        mod = s['module']
        if mod == '__future__':
            for a in s['names']:
                if a['name'] == 'division':
                    fr.module.env['__division__'] = True
            return
        for a in s['names']:
            nm = a['asname'] or a['name']
            full = mod + '.' + a['name']
            if mod in self.asts:
                m = self.module(mod)
                if a['name'] in m.env:
                    self.store(nm, m.env[a['name']], fr)
                    continue
            self.store(nm, self.ext(full), fr)

    def s_Assign(self, s, fr):
        v = self.eval(s['value'], fr)
        for t in s['targets']:
            self.assign(t, v, fr)

    def assign(self, t, v, fr):
        k = t['_']
        if k == 'Name':
            self.store(t['id'], v, fr)
        elif k in ('Tuple', 'List'):
            items = self.unpack(v, len(t['elts']))
            for x, y in zip(t['elts'], items):
                self.assign(x, y, fr)
        elif k == 'Attribute':
            o = self.eval(t['value'], fr)
            self.setattr(o, t['attr'], v)
        elif k == 'Subscript':
            o = self.eval(t['value'], fr)
            i = self.eval_slice(t['slice'], fr)
            self.setitem(o, i, v)
        else:
            raise Unsupported('assignment to %s' % k)

    def unpack(self, v, n):
        if isinstance(v, Sym) and isinstance(v.t, TOpt):
            v = self.unopt(v)
        c = self.content(v)
        if isinstance(c, Sym):
            # exactly n elements?
            e = c.e
            items = []
            t = c.t
            o = self.origin(c)
            if o is not None and o[0].one_to_one:
                F, base, ps = o
                self.assume((base == F.dom.nil) == (e == t.nil))
                return [self.val(t.el, F.at(F.alts[0][1][0],
                                            self.z(x, F.dom.el), ps))
                        for x in self.unpack(Sym(F.dom, base), n)]
            for _ in range(n):
                if self.branch(e == t.nil):
                    self.raise_('ValueError', 'need more values to unpack')
                items.append(self.val(t.el, z3.simplify(t.last(e))))
                e = z3.simplify(t.init(e))
            if not self.branch(e == t.nil):
                self.raise_('ValueError', 'too many values to unpack')
            return items[::-1]
        if len(c) != n:
            self.raise_('ValueError', 'unpack')
        return c

    def s_AugAssign(self, s, fr):
        t = s['target']
        k = t['_']
        op = s['op']['_']
        if k == 'Name':
            cur = self.load(t['id'], fr)
            self.store(t['id'], self.augop(op, cur, self.eval(s['value'], fr)),
                       fr)
        elif k == 'Attribute':
            o = self.eval(t['value'], fr)
            cur = self.getattr(o, t['attr'])
            v = self.augop(op, cur, self.eval(s['value'], fr))
            self.setattr(o, t['attr'], v)
        elif k == 'Subscript':
            o = self.eval(t['value'], fr)
            i = self.eval_slice(t['slice'], fr)
            cur = self.getitem(o, i)
            v = self.augop(op, cur, self.eval(s['value'], fr))
            self.setitem(o, i, v)
        else:
            raise Unsupported('augmented assignment')

    def augop(self, op, cur, v):
        if isinstance(cur, Ref):
            h = self.h(cur)
            if op == 'Add' and isinstance(h, HList):
                self.list_extend(cur, v)
                return cur
            if isinstance(h, HInst):
                m, _ = h.cls.lookup('__i%s__' % op.lower())
                if m is not None:
                    return self.call(self.getattr(
                        cur, '__i%s__' % op.lower()), [v], {})
        return self.binop(op, cur, v)

    def s_Delete(self, s, fr):
        for t in s['targets']:
            if t['_'] == 'Subscript':
                o = self.eval(t['value'], fr)
                self.delitem(o, self.eval_slice(t['slice'], fr))
            elif t['_'] == 'Name':
                d = self.st.frames[fr.fid]
                if t['id'] not in d:
                    self.raise_('UnboundLocalError', t['id'])
                del d[t['id']]
            elif t['_'] == 'Attribute':
                o = self.eval(t['value'], fr)
                h = self.hmut(o)
                if t['attr'] not in h.attrs:
                    self.raise_('AttributeError', t['attr'])
                del h.attrs[t['attr']]
            else:
                raise Unsupported('del')

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s['value'], fr) if s['value'] else None)

    def s_If(self, s, fr):
        if self.truth(self.eval(s['test'], fr)):
            self.exec_block(s['body'], fr)
        else:
            self.exec_block(s['orelse'], fr)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s['test'], fr)):
            msg = ()
            if s['msg']:
                try:
                    msg = (self.eval(s['msg'], fr),)
                except Unsupported:
                    msg = (TermV('assert-message', (), {}),)
            self.raise_('AssertionError', *msg)

    def s_Print(self, s, fr):
        for v in s['values']:
            self.eval(v, fr)

    def s_Exec(self, s, fr):
        b = s['body']
        if b['_'] != 'Tuple' or len(b['elts']) != 2:
            raise Unsupported('exec form')
        src = self.eval(b['elts'][0], fr)
        dic = self.eval(b['elts'][1], fr)
        if not isinstance(src, str):
            raise Unsupported('exec of a symbolic text')
        try:
            tree = py3json(pyast.parse(src))
        except SyntaxError:
            self.raise_('SyntaxError' if 'SyntaxError' in EXC
                        else 'StandardError', 'exec')
        m = ModuleV(fr.module.name)
        f2 = Frame(self.fresh_id(), None, m, None, None)
        for st in tree['body']:
            self.exec_stmt(st, f2)
        h = self.hmut(dic)
        for k, v in m.env.items():
            h.d[k] = v

    def s_Raise(self, s, fr):
        if s['type'] is None:
            if not self.exc_stack:
                self.raise_('TypeError', 'raise')
            raise PyExc(self.exc_stack[-1])
        t = self.eval(s['type'], fr)
        inst = self.eval(s['inst'], fr) if s['inst'] else None
        if s['tback']:
            self.eval(s['tback'], fr)
        if isinstance(t, ClassV):
            if isinstance(inst, Ref) and isinstance(self.h(inst), HInst) and \
                    self.h(inst).cls.issub(t):
                raise PyExc(inst)
            args = [] if s['inst'] is None else (
                list(inst) if isinstance(inst, tuple) else [inst])
            raise PyExc(self.instantiate(t, args, {}))
        if isinstance(t, Ref):
            raise PyExc(t)
        if isinstance(t, ExtV):
            raise PyExc(self.alloc(HInst(self.extclass(t), {
                'args': (inst,) if s['inst'] else ()})))
        if isinstance(t, TermV):
            raise PyExc(self.alloc(HInst(self.extclass(ExtV(t.fn)), {
                'args': t.args})))
        if isinstance(t, Sym) and 'raise' in getattr(t.t, 'hooks', {}):
            raise PyExc(t.t.hooks['raise'](self, t, inst))
        raise Unsupported('raise of %r' % (t,))

    def extclass(self, ext):
        """an external exception class"""
        if ext.dotted not in self.extclasses:
            base = EXC[self.B.EXT_EXC.get(ext.dotted, 'Exception')]
            self.extclasses[ext.dotted] = ClassV(ext.dotted, [base], {})
        return self.extclasses[ext.dotted]

    def exc_matches(self, exc, typ):
        h = self.h(exc)
        if isinstance(typ, tuple):
            return any(self.exc_matches(exc, t) for t in typ)
        if isinstance(typ, ExtV):
            typ = self.extclass(typ)
        if isinstance(typ, ClassV):
            return h.cls.issub(typ)
        raise Unsupported('except %r' % (typ,))

    def s_TryExcept(self, s, fr):
        try:
            self.exec_block(s['body'], fr)
        except PyExc as e:
            for hd in s['handlers']:
                if hd['type'] is not None:
                    typ = self.eval(hd['type'], fr)
                    if isinstance(self.h(e.value), HInst) and \
                            getattr(self.h(e.value).cls, 'anyexc', False):
                        # an arbitrary exception: may or may not match
                        m = self.match_any(e.value, typ)
                    else:
                        m = self.exc_matches(e.value, typ)
                    if not m:
                        continue
                if hd['name'] is not None:
                    self.assign(hd['name'], e.value, fr)
                self.exc_stack.append(e.value)
                try:
                    self.exec_block(hd['body'], fr)
                finally:
                    self.exc_stack.pop()
                return
            raise
        else:
            self.exec_block(s['orelse'], fr)

    def match_any(self, exc, typ):
        if typ is EXC['BaseException']:
            return True
        if isinstance(typ, ExtV):
            typ = self.extclass(typ)
        key = z3.Bool('exc_%d_is_%s' % (exc.oid, typ))
        return self.branch(key)

    def s_TryFinally(self, s, fr):
        try:
            self.exec_block(s['body'], fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx, Through):
            self.exec_block(s['finalbody'], fr)
            raise
        self.exec_block(s['finalbody'], fr)

    def s_With(self, s, fr):
        cm = self.eval(s['context_expr'], fr)
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        if s['optional_vars'] is not None:
            self.assign(s['optional_vars'], v, fr)
        ex = self.getattr(cm, '__exit__')
        try:
            self.exec_block(s['body'], fr)
        except PyExc as e:
            cls = self.h(e.value).cls
            r = self.call(ex, [cls, e.value, TermV('tb', (), {})], {})
            if self.truth(r):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx, Through):
            self.call(ex, [None, None, None], {})
            raise
        self.call(ex, [None, None, None], {})

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s['name'], s, fr)
        for d in reversed(s['decorator_list']):
            dv = self.eval(d, fr)
            f = self.call(dv, [f], {})
        self.store(s['name'], f, fr)

    def mkfunc(self, name, node, fr):
        a = node['args']
        defaults = [self.eval(d, fr) for d in a['defaults']]
        # class-level frames are not closures of methods
        clo = fr if fr.locals_ is not None else (
            fr.closure if fr.cls is not None else None)
        return FuncV(name, node, fr.module, clo, defaults)

    def s_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s['bases']]
        fid = self.fresh_id()
        self.st.frames[fid] = {}
        f2 = Frame(fid, None, fr.module, fr, None, cls=s['name'])
        self.exec_block(s['body'], f2)
        attrs = self.st.frames.pop(fid)
        cls = self.make_class(s['name'], bases, attrs, fr.module)
        for d in reversed(s['decorator_list']):
            cls = self.call(self.eval(d, fr), [cls], {})
        self.store(s['name'], cls, fr)

    def as_class(self, b):
        if isinstance(b, ExtV):
            v = self.B.EXT_BASES.get(b.dotted)
            if v is not None:
                return v(self)
            if b.dotted in self.B.EXT_EXC or b.dotted.endswith('Error'):
                return self.extclass(b)
            if b.dotted not in self.extclasses:
                self.extclasses[b.dotted] = ClassV(b.dotted, [OBJECT], {})
            return self.extclasses[b.dotted]
        return b

    def make_class(self, name, bases, attrs, module):
        cbases = [self.as_class(b) for b in bases] or [OBJECT]
        meta = attrs.get('__metaclass__')
        if meta is None:
            for b in cbases:
                for c in b.mro():
                    if c.meta is not None:
                        meta = c.meta
                        break
                if meta is not None:
                    break
        if isinstance(meta, ClassV):
            new, owner = meta.lookup('__new__')
            dic = self.alloc(HDict(dict(attrs)))
            self.h(dic).d.setdefault('__module__', module.name)
            if new is not None:
                f = new.f if isinstance(new, Descr) else new
                cls = self.call(f, [meta, name, tuple(cbases), dic], {})
            else:
                cls = self.raw_class(meta, name, cbases, dic, module)
            cls.module = module
            init, _ = meta.lookup('__init__')
            if init is not None:
                self.call(init, [cls, name, tuple(cbases), dic], {})
            return cls
        cls = ClassV(name, cbases, attrs, module)
        cls.local = not self.loading
        for n, f in attrs.items():
            self.own(f, cls)
        return cls

    def own(self, f, cls):
        g = f.f if isinstance(f, Descr) else f
        if isinstance(g, FuncV) and g.cls is None:
            g.cls = cls

    def raw_class(self, meta, name, bases, dic, module=None):
        cls = ClassV(name, list(bases), dict(self.h(dic).d), module, meta)
        cls.local = not self.loading    # made on the current path
        for n, f in cls.attrs.items():
            self.own(f, cls)
        return cls

    # -------------------------------------------------------- expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + n['_'], None)
        if m is None:
            raise Unsupported('expression %s at %s' % (n['_'], self.line))
        return m(n, fr)

    def e_Name(self, n, fr):
        return self.load(n['id'], fr)

    def e_Num(self, n, fr):
        t, v = n['n']['t'], n['n']['v']
        if t in ('int', 'long'):
            return int(v.rstrip('L'))
        if t == 'float':
            return float(v)
        if t == 'bool':
            return v == 'True'
        if t == 'NoneType':
            return None
        raise Unsupported('number %s' % v)

    def e_Str(self, n, fr):
        return n['s']

    def e_Tuple(self, n, fr):
        return tuple(self.eval(x, fr) for x in n['elts'])

    def e_List(self, n, fr):
        return self.new_list([self.eval(x, fr) for x in n['elts']])

    def e_Set(self, n, fr):
        r = self.alloc(HSet())
        for x in n['elts']:
            self.set_add(r, self.eval(x, fr))
        return r

    def e_Dict(self, n, fr):
        r = self.alloc(HDict())
        for k, v in zip(n['keys'], n['values']):
            self.setitem(r, self.eval(k, fr), self.eval(v, fr))
        return r

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n['value'], fr), n['attr'])

    def eval_slice(self, s, fr):
        k = s['_']
        if k == 'Index':
            return self.eval(s['value'], fr)
        if k == 'Slice':
            f = lambda x: None if x is None else self.eval(x, fr)
            return slice(f(s['lower']), f(s['upper']), f(s['step']))
        raise Unsupported('slice %s' % k)

    def e_Subscript(self, n, fr):
        o = self.eval(n['value'], fr)
        return self.getitem(o, self.eval_slice(n['slice'], fr))

    def e_BoolOp(self, n, fr):
        is_and = n['op']['_'] == 'And'
        vals = n['values']
        for i, x in enumerate(vals):
            v = self.eval(x, fr)
            if i == len(vals) - 1:
                return v
            if self.truth(v) != is_and:
                return v

    def e_UnaryOp(self, n, fr):
        op = n['op']['_']
        v = self.eval(n['operand'], fr)
        if op == 'Not':
            if isinstance(v, Sym) and isinstance(v.t, TOpt):
                e = self.truth_e(v)
            else:
                e = self.truth_e(v)
            if e is None:
                return not self.truth(v)
            return self.boolv(self.not_(e))
        if op == 'USub':
            if isinstance(v, Sym):
                if v.t is TFP:
                    return Sym(TFP, z3.fpNeg(v.e))
                return Sym(v.t, -v.e)
            return -v
        raise Unsupported('unary %s' % op)

    def e_IfExp(self, n, fr):
        if self.truth(self.eval(n['test'], fr)):
            return self.eval(n['body'], fr)
        return self.eval(n['orelse'], fr)

    def e_Lambda(self, n, fr):
        return self.mkfunc('<lambda>', n, fr)

    def e_Compare(self, n, fr):
        left = self.eval(n['left'], fr)
        res = True
        for op, c in zip(n['ops'], n['comparators']):
            right = self.eval(c, fr)
            r = self.compare(op['_'], left, right)
            if len(n['ops']) == 1:
                return self.boolv(r)
            if not self.branch(r):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            x = a
            if isinstance(x, Sym) and isinstance(x.t, TStruct) and x.t.cls:
                x = self.thaw(x)
            if isinstance(x, Ref) and isinstance(self.h(x), HInst):
                m, _ = self.h(x).cls.lookup('__ne__')
                if m is not None:
                    return self.truth_e(self.call(
                        self.getattr(x, '__ne__'), [b], {}))
                if self.h(x).cls.lookup('__eq__')[0] is not None and \
                        self.h(x).cls is not OBJECT:
                    # Python 2: no __ne__ -> identity
                    return not (x == b)
            return self.not_(self.eq(a, b))
        if op == 'Lt':
            return self.lt(a, b)
        if op == 'Gt':
            return self.lt(b, a)
        if op in ('LtE', 'GtE'):
            if op == 'GtE':
                a, b = b, a
            if self.kind(a) == 'num' and self.kind(b) == 'num':
                t = join(self.typ(a), self.typ(b))
                if t is TFP:
                    if not isinstance(a, Sym) and not isinstance(b, Sym):
                        return a <= b
                    return z3.fpLEQ(self.z(a, t), self.z(b, t))
            return self.or_([self.lt(a, b), self.eq(a, b)])
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if op == 'Is' else self.not_(r)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            return r if op == 'In' else self.not_(r)
        raise Unsupported('comparison %s' % op)

    def is_(self, a, b):
        if a is None or b is None:
            return self.eq(a, b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if isinstance(a.t, (TObj, TOpt)) or a.t is TBool:
                return self.eq(a, b)
            raise Unsupported('is on %r' % a)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Sym) or isinstance(b, Sym):
                o = a if isinstance(a, Sym) else b
                if isinstance(o.t, TStruct):
                    raise Unsupported('is on a frozen value')
                return False
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            return self.eq(a, b) if type(a) is type(b) or isinstance(
                a, Sym) or isinstance(b, Sym) else False
        if isinstance(a, (ClassV, FuncV, ExtV, TermV)):
            return a is b or (isinstance(a, ExtV) and a == b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.eq(a, b)
        return a is b or a == b

    def e_BinOp(self, n, fr):
        a = self.eval(n['left'], fr)
        b = self.eval(n['right'], fr)
        return self.binop(n['op']['_'], a, b,
                          fr.module.env.get('__division__'))

    OPNAMES = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div',
               'Mod': 'mod', 'Pow': 'pow', 'FloorDiv': 'floordiv',
               'BitOr': 'or', 'BitAnd': 'and'}

    def binop(self, op, a, b, truediv=None):
        if isinstance(a, Sym) and isinstance(a.t, TOpt):
            a = self.unopt(a)
        if isinstance(b, Sym) and isinstance(b.t, TOpt):
            b = self.unopt(b)
        ka, kb = self.kind(a), self.kind(b)
        if op == 'Mod' and ka == 'str':
            return self.B.str_format(self, a, b)
        if ka == 'num' and kb == 'num':
            return self.arith(op, a, b, truediv)
        if ka == 'str' and kb == 'str' and op == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return Sym(TStr, z3.Concat(self.z(a, TStr), self.z(b, TStr)))
        if op == 'Add' and ka == 'seq' and kb == 'seq':
            return self.list_concat(a, b)
        if op == 'Add' and ka == 'tup' and kb == 'tup':
            return tuple(self.content(a)) + tuple(self.content(b))
        if op == 'Mult' and ka == 'tup' and isinstance(b, int):
            return a * b
        if op == 'Mult' and ka == 'seq' and isinstance(b, int) and \
                isinstance(self.content(a), list):
            return self.new_list(self.content(a) * b)
        if ka in ('inst', 'struct'):
            x = self.thaw(a) if ka == 'struct' else a
            nm = '__%s__' % self.OPNAMES[op]
            if self.h(x).cls.lookup(nm)[0] is not None:
                return self.call(self.getattr(x, nm), [b], {})
        if kb in ('inst', 'struct'):
            x = self.thaw(b) if kb == 'struct' else b
            nm = '__r%s__' % self.OPNAMES[op]
            if self.h(x).cls.lookup(nm)[0] is not None:
                return self.call(self.getattr(x, nm), [a], {})
        if ka == 'set' and kb == 'set':
            return self.B.set_op(self, op, a, b)
        for x in (a, b):
            if isinstance(x, Sym) and isinstance(x.t, (TObj, TSet)):
                hook = getattr(x.t, 'hooks', {}).get('binop')
                if hook:
                    return hook(self, op, a, b)
                if isinstance(x.t, TSet):
                    return self.B.set_op(self, op, a, b)
        if isinstance(a, (TermV, ExtV)) or isinstance(b, (TermV, ExtV)):
            return TermV('op:' + op, (a, b), {})
        if op == 'Mod':
            return self.B.str_format(self, a, b)
        if ka in ('num', 'str', 'seq', 'tup', 'map') and \
                kb in ('num', 'str', 'seq', 'tup', 'map') or \
                a is None or b is None:
            self.raise_('TypeError', 'unsupported operand types')
        raise Unsupported('%s of %r and %r' % (op, a, b))

    def arith(self, op, a, b, truediv=None):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                isint = isinstance(a, int) and isinstance(b, int)
                if self.float_mode == 'real':
                    if isinstance(a, float):
                        a = Fraction(a)
                    if isinstance(b, float):
                        b = Fraction(b)
                if op == 'Add':
                    return a + b
                if op == 'Sub':
                    return a - b
                if op == 'Mult':
                    return a * b
                if op == 'Div':
                    if isint and not truediv:
                        return a // b
                    return (Fraction(a) / Fraction(b)
                            if self.float_mode == 'real' else a / b)
                if op == 'FloorDiv':
                    return a // b
                if op == 'Mod':
                    return a % b
                if op == 'Pow':
                    return a ** b
            except ZeroDivisionError:
                self.raise_('ZeroDivisionError', 'division by zero')
            raise Unsupported('arithmetic %s' % op)
        t = join(self.typ(a), self.typ(b))
        if t is TBool:
            t = TInt
        x, y = self.z(a, t), self.z(b, t)
        if t is TFP:
            rm = z3.RNE()
            if op == 'Add':
                return Sym(t, z3.fpAdd(rm, x, y))
            if op == 'Sub':
                return Sym(t, z3.fpSub(rm, x, y))
            if op == 'Mult':
                return Sym(t, z3.fpMul(rm, x, y))
            raise Unsupported('floating point %s' % op)
        if op == 'Add':
            return self.val(t, z3.simplify(x + y))
        if op == 'Sub':
            return self.val(t, z3.simplify(x - y))
        if op == 'Mult':
            return self.val(t, z3.simplify(x * y))
        if op in ('Div', 'FloorDiv', 'Mod'):
            if self.branch(y == 0):
                self.raise_('ZeroDivisionError', 'division by zero')
            if t is TInt:
                if op == 'Div' and truediv:
                    return Sym(TReal, z3.ToReal(x) / z3.ToReal(y))
                # floor division; z3's div is Euclidean
                q = z3.If(y > 0, x / y, (-x) / (-y))
                if op == 'Mod':
                    return Sym(t, x - q * y)
                return Sym(t, q)
            if op == 'Div':
                return Sym(t, x / y)
        if op == 'Pow':
            f = z3.Function('pow', z3.RealSort(), z3.RealSort(),
                            z3.RealSort())
            return Sym(TReal, f(self.z(a, TReal), self.z(b, TReal)))
        raise Unsupported('arithmetic %s' % op)

    # --------------------------------------------------- comprehensions
    def e_ListComp(self, n, fr):
        acc = self.new_list()
        self.comp(n['generators'], 0, fr,
                  lambda: self.list_append(acc, self.eval(n['elt'], fr)))
        return acc

    def e_SetComp(self, n, fr):
        fr2 = self.subframe(n, fr)
        acc = self.alloc(HSet())
        self.comp(n['generators'], 0, fr2,
                  lambda: self.set_add(acc, self.eval(n['elt'], fr2)))
        return acc

    def e_DictComp(self, n, fr):
        fr2 = self.subframe(n, fr)
        acc = self.alloc(HDict())
        self.comp(n['generators'], 0, fr2,
                  lambda: self.setitem(acc, self.eval(n['key'], fr2),
                                       self.eval(n['value'], fr2)))
        return acc

    def subframe(self, n, fr):
        fid = self.fresh_id()
        self.st.frames[fid] = {}
        return Frame(fid, fr.func, fr.module, fr, assigned_names(
            [g['target'] for g in n['generators']]), fr.cls)

    def e_GeneratorExp(self, n, fr):
        fr2 = self.subframe(n, fr)
        # the outermost iterable is evaluated at once
        first = self.eval(n['generators'][0]['iter'], fr)

        def thunk(emit):
            if emit is not None:
                self.comp(n['generators'], 0, fr2,
                          lambda: emit(self.eval(n['elt'], fr2)), first)
                return []
            acc = self.new_list()
            self.comp(n['generators'], 0, fr2,
                      lambda: self.list_append(acc, self.eval(n['elt'], fr2)),
                      first)
            return self.h(acc).content
        g = self.alloc(HGen(thunk))
        self.genexps[g.oid] = (n, fr2, first)
        return g

    def comp(self, gens, i, fr, emit, first=None):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = first if first is not None else self.eval(g['iter'], fr)

        def body():
            for c in g['ifs']:
                if not self.truth(self.eval(c, fr)):
                    return
            self.comp(gens, i + 1, fr, emit)
        self.loop_over(g, fr, it, lambda x: self.assign(g['target'], x, fr),
                       body)

    # -------------------------------------------------------------- calls
    def e_Call(self, n, fr):
        f = self.eval(n['func'], fr)
        args = []
        for a in n['args']:
            args.append(self.eval(a, fr))
        kwargs = dict((k['arg'], self.eval(k['value'], fr))
                      for k in n['keywords'])
        if n['starargs']:
            sa = self.eval(n['starargs'], fr)
            c = self.content(sa)
            if isinstance(c, Sym):
                args.append(StarSym(c))
            else:
                args.extend(c)
        if n['kwargs']:
            kw = self.eval(n['kwargs'], fr)
            if isinstance(kw, Ref) and isinstance(self.h(kw), HDict) and \
                    self.h(kw).d is not None:
                kwargs.update(self.h(kw).d)
            else:
                kwargs['**'] = kw
        # builtins that need the frame
        if isinstance(f, Builtin) and f.name in ('super', 'locals', 'vars',
                                                 'all', 'any', 'globals'):
            return f.fn(self, args, kwargs, fr)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            if f.name in ('super', 'locals', 'vars', 'all', 'any', 'globals'):
                return f.fn(self, list(args), kwargs, None)
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, UFun):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ExtV):
            return self.call_ext(f.dotted, list(args), kwargs)
        if isinstance(f, Ref):
            h = self.h(f)
            if isinstance(h, HInst) and h.cls.lookup('__call__')[0]:
                return self.call(self.getattr(f, '__call__'), args, kwargs)
        if isinstance(f, Sym) and isinstance(f.t, TObj) and \
                'call' in f.t.hooks:
            return f.t.hooks['call'](self, f, args, kwargs)
        if isinstance(f, Sym) and isinstance(f.t, TOpt):
            return self.call(self.unopt(f), args, kwargs)
        if isinstance(f, TermV):
            return self.call_ext('%r' % f if not f.fn.startswith('attr:')
                                 else f.fn, [f] + list(args), kwargs)
        if isinstance(f, (int, str, float)) or f is None:
            self.raise_('TypeError', 'not callable')
        raise Unsupported('call of %r' % (f,))

    def call_ext(self, dotted, args, kwargs):
        h = self.externals.get(dotted) or self.B.EXTERNALS.get(dotted)
        if h is not None:
            self.used_externals.add(dotted)
            return h(self, args, kwargs)
        if self.ext_default is not None:
            r = self.ext_default(self, dotted, args, kwargs)
            if r is not NotImplemented:
                return r
        if dotted in self.B.EXT_EXC:
            return self.alloc(HInst(self.extclass(ExtV(dotted)), {
                'args': tuple(args)}))
        raise Unsupported('call of external %s' % dotted)

    def instantiate(self, cls, args, kwargs):
        if cls in TYPES.values():
            return self.builtins_types[cls.name](self, args, kwargs)
        if cls.name in self.construct:
            return self.construct[cls.name](self, cls, args, kwargs)
        new, owner = cls.lookup('__new__')
        if new is not None and isinstance(new, Builtin):
            return new.fn(self, [cls] + args, kwargs)
        for b in cls.mro():
            if b is TYPES['list']:
                r = self.alloc(HList([], cls))
                break
            if b is TYPES['dict']:
                raise Unsupported('dict subclass')
        else:
            r = self.alloc(HInst(cls, {}))
            if cls.issub(EXC['BaseException']) and not isinstance(
                    cls.lookup('__init__')[0], FuncV):
                self.h(r).attrs['args'] = tuple(args)
        init, owner = cls.lookup('__init__')
        if init is not None:
            v = self.call(self.bind(init, r, cls), args, kwargs)
            if v is not None:
                self.raise_('TypeError', '__init__')
        elif args and not cls.issub(EXC['BaseException']):
            if isinstance(self.h(r), HList):
                self.list_extend(r, args[0])
            else:
                self.raise_('TypeError', 'constructor takes no arguments')
        return r

    def bind_args(self, f, args, kwargs):
        node = f.node
        a = node['args']
        params = a['args']
        locs = {}
        star = None
        if args and isinstance(args[-1], StarSym):
            star = args.pop()
            need = len(params) - len(args)
            if a['vararg'] is None:
                # the sequence must supply exactly the missing arguments
                c = star.seq
                items = self.unpack(c, need) if not f.defaults else \
                    self.star_defaults(f, c, need, len(args))
                args = args + items
                star = None
        n = len(params)
        pos = list(args[:n])
        extra = list(args[n:])
        if extra and a['vararg'] is None:
            self.raise_('TypeError', '%s() takes %d arguments (%d given)' %
                        (f.name, n, len(args)))
        kw = dict(kwargs)
        kwsym = kw.pop('**', None)
        if kwsym is not None:
            raise Unsupported('symbolic keyword arguments')
        nd = len(f.defaults)
        for i, p in enumerate(params):
            nm = p['id'] if p['_'] == 'Name' else None
            if i < len(pos):
                v = pos[i]
                if nm is not None and nm in kw:
                    self.raise_('TypeError', 'multiple values for %s' % nm)
            elif nm is not None and nm in kw:
                v = kw.pop(nm)
            elif i >= n - nd:
                v = f.defaults[i - (n - nd)]
            else:
                self.raise_('TypeError', '%s() missing argument %s' %
                            (f.name, nm))
            locs[i] = v
        va = None
        if a['vararg'] is not None:
            if star is not None:
                if extra:
                    raise Unsupported('mixed star arguments')
                va = star.seq
            else:
                va = tuple(extra)
        if kw and a['kwarg'] is None:
            self.raise_('TypeError', 'unexpected keyword %s' % sorted(kw))
        return locs, va, kw

    def star_defaults(self, f, c, need, given):
        """f(*seq) with defaults: between need-nd and need elements"""
        nd = len(f.defaults)
        t = c.t
        for k in range(need + 1):
            if self.branch(self.len(t, c.e) == k):
                if k < need - nd:
                    self.raise_('TypeError', 'missing arguments')
                e = c.e
                items = []
                for _ in range(k):
                    # the length is k: e is not nil
                    self.assume(e != t.nil)
                    items.append(self.val(t.el, z3.simplify(t.last(e))))
                    self.assume(e == t.rawsnoc(t.init(e), t.last(e)))
                    self.assume(self.len(t, e) ==
                                self.len(t, z3.simplify(t.init(e))) + 1)
                    e = z3.simplify(t.init(e))
                return items[::-1]
        self.raise_('TypeError', 'too many arguments')

    def call_func(self, f, args, kwargs):
        q = f.qualname
        self.used_functions.add(q)
        if q in self.contracts and not (
                self.verifying == q and self.verifying_depth == 0):
            self.used_contracts.add(q)
            return self.contracts[q](self, args, kwargs)
        if self.verifying == q:
            self.verifying_depth += 1
        try:
            return self.run_func(f, args, kwargs)
        finally:
            if self.verifying == q:
                self.verifying_depth -= 1

    def run_func(self, f, args, kwargs):
        if self.depth > 60:
            raise Unsupported('call depth (recursion without a contract?) '
                              'in %s' % f.qualname)
        locs, va, kw = self.bind_args(f, args, kwargs)
        node = f.node
        a = node['args']
        body = node['body'] if node['_'] != 'Lambda' else None
        names = f.attrs.get('locals')
        if names is None:
            names = assigned_names(
                body if body is not None else [node["body"]])
            for p in a['args']:
                names |= assigned_names([p])
            if a['vararg']:
                names.add(a['vararg'])
            if a['kwarg']:
                names.add(a['kwarg'])
            f.attrs['locals'] = names
        fid = self.fresh_id()
        self.st.frames[fid] = {}
        fr = Frame(fid, f, f.module, f.closure, names, f.cls)
        for i, p in enumerate(a['args']):
            self.assign(p, locs[i], fr)
        if a['vararg']:
            self.store(a['vararg'], va if not isinstance(va, Sym)
                       else va, fr)
        if a['kwarg']:
            self.store(a['kwarg'], self.alloc(HDict(dict(kw))), fr)
        if f.is_gen:
            def thunk(emit):
                out = self.new_list()
                fr.out, fr.emit = out.oid, emit
                self.depth += 1
                self.frames_now.append(fr)
                try:
                    self.exec_block(body, fr)
                except ReturnEx:
                    pass
                except PyExc as e:
                    # in Python 2 StopIteration ends the generator
                    h = self.h(e.value)
                    if getattr(h.cls, 'anyexc', False) or \
                            not h.cls.issub(EXC['StopIteration']):
                        raise
                finally:
                    self.depth -= 1
                    self.frames_now.pop()
                return self.h(out).content
            return self.alloc(HGen(thunk))
        self.depth += 1
        line = self.line
        self.frames_now.append(fr)
        try:
            if body is None:
                return self.eval(node['body'], fr)
            self.exec_block(body, fr)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.depth -= 1
            self.frames_now.pop()
            self.line = line
            if not f.attrs.get('hasinner', None):
                if 'hasinner' not in f.attrs:
                    f.attrs['hasinner'] = any(
                        x['_'] in ('FunctionDef', 'Lambda', 'GeneratorExp',
                                   'ClassDef')
                        for x in walk(node['body'] if body is None else body))
                if not f.attrs['hasinner']:
                    self.st.frames.pop(fid, None)

    # --------------------------------------------------------- attributes
    def bind(self, f, obj, cls):
        """attribute f found on class, accessed through obj (or None)"""
        if isinstance(f, Descr):
            if f.kind == 'classmethod':
                return BoundV(cls, f.f)
            if f.kind == 'staticmethod':
                return f.f
            if f.kind == 'property':
                if obj is None:
                    return f
                return self.call(f.f, [obj], {})
        if isinstance(f, (FuncV, Builtin)):
            if obj is None:
                return f
            return BoundV(obj, f)
        if isinstance(f, Ref):
            h = self.h(f)
            if isinstance(h, HInst) and h.cls.lookup('__get__')[0]:
                return self.call(self.getattr(f, '__get__'), [obj, cls], {})
        return f

    def getattr(self, o, a):
        if isinstance(o, Sym) and isinstance(o.t, TOpt):
            o = self.unopt(o)
        if isinstance(o, Ref):
            h = self.h(o)
            if isinstance(h, HInst):
                return self.inst_getattr(o, h, a)
            r = self.B.method(self, o, h, a)
            if r is not None:
                return r
            if isinstance(h, HList) and h.cls is not None:
                if a in h.attrs:
                    return h.attrs[a]
                m, owner = h.cls.lookup(a)
                if m is not None:
                    return self.bind(m, o, h.cls)
                if a == '__class__':
                    return h.cls
                if a == '__dict__':
                    return self.B.inst_dict(self, o)
            self.raise_('AttributeError', a)
        if isinstance(o, ModuleV):
            if a in o.env:
                v = o.env[a]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if o.name + '.' + a in self.asts:
                return self.module(o.name + '.' + a)
            self.raise_('AttributeError', a)
        if isinstance(o, ClassV):
            return self.class_getattr(o, a)
        if isinstance(o, ExtV):
            r = self.B.ext_getattr(self, o, a)
            if r is not None:
                return r
            return self.ext(o.dotted + '.' + a)
        if isinstance(o, Sym):
            t = o.t
            if isinstance(t, TObj):
                return self.obj_getattr(o, t, a)
            if isinstance(t, TStruct):
                if a in t.ftypes:
                    return self.val(t.ftypes[a], t.get(o.e, a))
                if t.cls is not None:
                    return self.getattr(self.thaw(o), a)
                self.raise_('AttributeError', a)
            r = self.B.sym_method(self, o, a)
            if r is not None:
                return r
            raise Unsupported('attribute %s of %r' % (a, o))
        if isinstance(o, str):
            r = self.B.sym_method(self, o, a)
            if r is not None:
                return r
        if isinstance(o, TermV):
            h = self.externals.get('getattr')
            if h is not None:
                r = h(self, o, a)
                if r is not None:
                    return r
            if a in o.kwargs:
                return o.kwargs[a]
            return TermV('attr:' + a, (o,), {})
        if isinstance(o, tuple):
            r = self.B.tuple_method(self, o, a)
            if r is not None:
                return r
        if isinstance(o, FuncV):
            if a in ('__name__', 'func_name'):
                return o.name
            if a == '__doc__':
                return None
        if isinstance(o, UFun) and a == '__name__':
            return o.name
        if isinstance(o, BoundV) and a == '__name__':
            return self.getattr(o.func, a)
        if isinstance(o, Descr):
            if a == 'setter':
                raise Unsupported('property setter')
        if o is None or isinstance(o, (int, float, str, bool, tuple)):
            self.raise_('AttributeError', a)
        if isinstance(o, SuperV):
            for c in o.mro_after:
                if a in c.attrs:
                    if isinstance(o.obj, ClassV):
                        return self.bind(c.attrs[a], None, o.obj) \
                            if not isinstance(c.attrs[a], Descr) \
                            else self.bind(c.attrs[a], None, o.obj)
                    return self.bind(c.attrs[a], o.obj, c)
            r = self.B.super_method(self, o, a)
            if r is not None:
                return r
            self.raise_('AttributeError', a)
        raise Unsupported('attribute %s of %r' % (a, o))

    def inst_getattr(self, o, h, a):
        cls = h.cls
        f, owner = cls.lookup(a)
        if isinstance(f, Descr) and f.kind == 'property':
            return self.call(f.f, [o], {})
        if a in h.attrs:
            return h.attrs[a]
        if f is not None:
            return self.bind(f, o, cls)
        if a == '__class__':
            return cls
        if a == '__dict__':
            return self.B.inst_dict(self, o)
        if cls.issub(EXC['BaseException']):
            if a == 'message':
                args = self.excargs(h)
                return args[0] if len(args) == 1 else ''
        ga, _ = cls.lookup('__getattr__')
        if ga is not None:
            return self.call(self.bind(ga, o, cls), [a], {})
        r = self.B.inst_method(self, o, h, a)
        if r is not None:
            return r
        self.raise_('AttributeError', a)

    def class_getattr(self, o, a):
        if o.meta is not None:
            f, owner = o.meta.lookup(a)
            if isinstance(f, Descr) and f.kind == 'property':
                return self.call(f.f, [o], {})
        f, owner = o.lookup(a)
        if f is not None:
            return self.bind(f, None, o)
        if a == '__name__':
            return o.name
        if a == '__module__':
            return o.module.name if o.module else ''
        if a == '__dict__':
            return self.alloc(HDict(dict(o.attrs)))
        if a == '__mro__':
            return tuple(o.mro())
        if a == '__class__':
            return o.meta or TYPES['type']
        if o.meta is not None:
            f, owner = o.meta.lookup(a)
            if f is not None:
                return self.bind(f, o, o.meta)
        r = self.B.class_method(self, o, a)
        if r is not None:
            return r
        self.raise_('AttributeError', a)

    def excargs(self, h):
        if 'args' not in h.attrs:
            raise Unsupported('args of an exception with its own __init__')
        return h.attrs['args']

    def obj_getattr(self, o, t, a):
        if a in t.meths:
            m = t.meths[a]
            return Builtin('%s.%s' % (t.name, a),
                           lambda E, args, kw: m(E, o, args, kw))
        if a in t.attrs:
            at = t.attrs[a]
            if callable(at) and not hasattr(at, 'sort'):
                return at(self, o)
            return self.val(at, t.attrfn(a)(o.e))
        if a in t.mut:
            return self.val(t.mut[a], z3.Select(self.array(t, a), o.e))
        if 'getattr' in t.hooks:
            return t.hooks['getattr'](self, o, a)
        raise Unsupported('attribute %s of %s' % (a, t))

    def array(self, t, a):
        key = (t.name, a)
        if key not in self.st.arrays:
            self.st.arrays[key] = z3.Const(
                '%s.%s@0' % key, z3.ArraySort(t.sort(), t.mut[a].sort()))
        return self.st.arrays[key]

    def setattr(self, o, a, v):
        if isinstance(o, Sym) and isinstance(o.t, TOpt):
            o = self.unopt(o)
        if isinstance(o, Ref):
            h = self.hmut(o)
            if isinstance(h, HInst):
                f, owner = h.cls.lookup(a)
                if isinstance(f, Descr) and f.kind == 'property':
                    self.raise_('AttributeError', a)
                if isinstance(f, Ref) and isinstance(self.h(f), HInst) and \
                        self.h(f).cls.lookup('__set__')[0]:
                    raise Unsupported('data descriptor')
                sa, _ = h.cls.lookup('__setattr__')
                if sa is not None:
                    raise Unsupported('__setattr__')
                h.attrs[a] = v
                return
            if isinstance(h, HList) and h.cls is not None:
                h.attrs[a] = v
                return
            self.raise_('AttributeError', a)
        if isinstance(o, ClassV):
            if not self.loading and not o.local:
                raise Unsupported('class attribute assignment')
            o.attrs[a] = v
            return
        if isinstance(o, Sym) and isinstance(o.t, TObj):
            if a in o.t.mut:
                # the value first: making a list of an iterator has effects
                e = self.z(v, o.t.mut[a])
                self.st.arrays[(o.t.name, a)] = z3.Store(
                    self.array(o.t, a), o.e, e)
                return
            if 'setattr' in o.t.hooks:
                o.t.hooks['setattr'](self, o, a, v)
                return
        if isinstance(o, TermV):
            h = self.externals.get('setattr')
            if h is not None and h(self, o, a, v) is not None:
                return
        if isinstance(o, Sym) and isinstance(o.t, TStruct):
            raise Unsupported('mutation of a value owned by a container')
        if o is None or isinstance(o, (int, str, float, tuple)):
            self.raise_('AttributeError', a)
        raise Unsupported('setting attribute %s of %r' % (a, o))


class StarSym(object):
    """*args where args is a symbolic sequence"""
    def __init__(self, seq):
        self.seq = seq


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj
        self.mro_after = []
