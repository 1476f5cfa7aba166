"""Translates LLVM IR (text, clang 18) to C for CBMC.

The IR is what clang produces from the real C++ sources at -O0 (plus sroa, i.e.
stack slots become SSA values); nothing is optimised away. The C that is emitted
is a one-to-one transcription of the instructions:

  * iN -> unsigned integer of N bits, ptr -> unsigned char *, aggregates -> C
    structs with the same members (so the same layout);
  * a GEP is a byte offset, a load/store a typed access at that address;
  * nsw/nuw flags and `unreachable` become assertions (they are undefined
    behaviour in the C++ source), undef/poison become nondeterministic values;
  * #line directives carry the C++ source positions.

Only functions reachable from the roots are emitted. An external function that
has no model below becomes an assertion named UNMODELLED, which the driver
treats as "undecided", never as a violation.
"""
import re
import struct as _struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"[^"]*")
 | (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<str>"[^"]*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)
 | (?P<dots>\.\.\.)
 | (?P<attr>\#\d+)
 | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
 | (?P<punct>[][(){}<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise IRError("cannot tokenize: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


# ---- types: tuples -------------------------------------------------------
# ('void',) ('i',N) ('ptr',) ('float',) ('double',) ('fp80',) ('arr',n,T)
# ('st',[T],packed) ('named',name) ('fn',ret,[T],vararg) ('label',) ('metadata',)

PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'captures', 'range',
                     'nofpclass', 'elementtype', 'initializes', 'preallocated', 'inalloca', 'byref', 'allocsize',
                     'memory', 'alignstack', 'vscale_range', 'allockind', 'uwtable'}
PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'nofree', 'nest',
               'returned', 'readonly', 'readnone', 'writeonly', 'immarg', 'swiftself', 'swifterror', 'allocptr',
               'allocalign', 'noext', 'dead_on_unwind', 'writable'}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        v = self.peek()
        self.i += 1
        return v

    def accept(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError("expected %r at %r" % (s, self.t[self.i:self.i + 6]))

    def type(self):
        k, v = self.next()
        if v == 'void':
            t = ('void',)
        elif k == 'word' and re.fullmatch(r'i\d+', v):
            t = ('i', int(v[1:]))
        elif v == 'ptr':
            if self.accept('addrspace'):
                self.expect('('), self.next(), self.expect(')')
            t = ('ptr',)
        elif v in ('float', 'double', 'label', 'metadata', 'token'):
            t = (v,)
        elif v == 'x86_fp80':
            t = ('fp80',)
        elif v == 'opaque':
            t = ('st', [], False)
        elif k == 'name' and v[0] == '%':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('st', self.typelist('}'), False)
        elif v == '<':
            if self.accept('{'):
                l = self.typelist('}')
                self.expect('>')
                t = ('st', l, True)
            else:
                raise IRError("vector types are not supported")
        else:
            raise IRError("bad type at %r" % (self.t[max(0, self.i - 3):self.i + 5],))
        while self.peek()[1] == '(' and t[0] != 'label':
            self.i += 1
            args, va = [], False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                    self.skip_attrs()
                self.accept(',')
            t = ('fn', t, args, va)
        return t

    def typelist(self, end):
        l = []
        while not self.accept(end):
            l.append(self.type())
            self.accept(',')
        return l

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v is None:
                raise IRError("unbalanced parentheses")
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def skip_attrs(self):
        """Skips parameter attributes; returns byval type if there is one."""
        byval = None
        while True:
            k, v = self.peek()
            if v in PARAM_ATTRS:
                self.i += 1
            elif v in PARAM_ATTRS_PAREN:
                self.i += 1
                if v == 'byval':
                    self.expect('(')
                    byval = self.type()
                    self.expect(')')
                elif v == 'align' and self.peek()[0] == 'num':
                    self.i += 1
                elif self.peek()[1] == '(':
                    self.skip_parens()
            elif k == 'attr' or k == 'str':
                self.i += 1
                if k == 'str' and self.accept('='):
                    self.i += 1
            else:
                return byval

    # values: ('loc',name) ('glob',name) ('int',n) ('fp',text) ('null',) ('undef',) ('zero',)
    # ('agg',[(T,v)]) ('cstr',bytes) ('cexpr',...)
    def value(self, ty):
        k, v = self.next()
        if k == 'name':
            return ('loc', v) if v[0] == '%' else ('glob', v)
        if k == 'num':
            if ty[0] in ('float', 'double'):
                return ('fp', float(v))
            return ('int', int(v))
        if k == 'hex':
            if v.startswith('0x') and v[2] not in 'KLMHR':
                return ('fp', _struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
            return ('undef',)
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v in ('null',):
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if k == 'cstr':
            return ('cstr', v)
        if v == '{':
            return self.agg('}')
        if v == '[':
            return self.agg(']')
        if v == '<':
            self.expect('{')
            a = self.agg('}')
            self.expect('>')
            return a
        if v == 'getelementptr':
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                self.i += 1
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = self.tvlist(')')
            return ('gep', bt, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t1 = self.type()
            x = self.value(t1)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', v, t1, x, t2)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
            while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                self.i += 1
            self.expect('(')
            ops = self.tvlist(')')
            return ('bin', v, ops)
        raise IRError("bad value at %r" % (self.t[max(0, self.i - 4):self.i + 5],))

    def agg(self, end):
        return ('agg', self.tvlist(end))

    def tvlist(self, end):
        l = []
        while not self.accept(end):
            self.accept('inrange')
            t = self.type()
            self.skip_attrs()
            l.append((t, self.value(t)))
            self.accept(',')
        return l


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}     # name -> Func
        self.decls = {}
        self.dbg = {}
        self.aliases = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                p = P(tokenize(ln), self)
                name = p.next()[1]
                p.expect('='), p.expect('type')
                self.types[name] = p.type()
            elif ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                self.parse_func(lines[i:j])
                i = j
            elif ln.startswith('declare '):
                f = self.parse_header(ln)
                self.decls[f.name] = f
            elif ln.startswith('!'):
                m = re.match(r'(!\d+) = (?:distinct )?!(\w+)\((.*)\)', ln)
                if m:
                    self.dbg[m.group(1)] = (m.group(2), m.group(3))
            i += 1

    def parse_global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
        name, rest = m.groups()
        if ' alias ' in ' ' + rest and not re.search(r'\b(global|constant) ', rest):
            mm = re.search(r'alias .*?, ptr (@\S+?)(?:,|$)', rest)
            if mm:
                self.aliases[name] = mm.group(1)
            return
        m2 = re.search(r'(?:^|\s)(global|constant)\s', rest)
        if not m2:
            return
        ext = re.search(r'\bexternal\b', rest[:m2.start() + 1]) is not None
        self.globals[name] = (rest[m2.end():], ext, m2.group(1))

    def global_type_init(self, name):
        body, ext, kind = self.globals[name]
        toks = tokenize(body)
        p = P(toks, self)
        t = p.type()
        if ext:
            return t, None
        return t, p.value(t)

    def parse_header(self, ln):
        f = Func()
        toks = tokenize(ln.split(' !dbg')[0] if ln.startswith('declare') else ln)
        # find function name token followed by '('
        p = P(toks, self)
        idx = next(k for k, t in enumerate(toks) if t[0] == 'name' and t[1][0] == '@')
        f.name = toks[idx][1]
        # return type: parse the type that ends right before idx
        start = None
        for s in range(idx - 1, 0, -1):
            q = P(toks, self)
            q.i = s
            try:
                t = q.type()
                if q.i == idx:
                    start, f.ret = s, t
            except (IRError, IndexError, ValueError):
                pass
            # keep the longest type that ends at idx
        if start is None:
            raise IRError("no return type: " + ln[:120])
        p.i = idx + 1
        p.expect('(')
        f.params, f.vararg, f.byval = [], False, []
        n = 0
        while not p.accept(')'):
            if p.accept('...'):
                f.vararg = True
            else:
                t = p.type()
                bv = p.skip_attrs()
                nm = None
                if p.peek()[0] == 'name':
                    nm = p.next()[1]
                else:
                    nm = '%' + str(n)
                n += 1
                f.params.append((t, nm))
                f.byval.append(bv)
            p.accept(',')
        f.rest = [v for _, v in toks[p.i:]]
        m = re.search(r'!dbg (!\d+)', ln)
        f.dbg = m.group(1) if m else None
        return f

    def parse_func(self, lines):
        f = self.parse_header(lines[0])
        blocks, cur, order = {}, None, []
        first = True
        body = lines[1:]
        # join multi-line instructions (switch, invoke)
        j, joined = 0, []
        while j < len(body):
            s = body[j]
            if re.match(r'\s+switch ', s) and ']' not in s:
                while ']' not in body[j]:
                    j += 1
                    s += ' ' + body[j].strip()
            elif re.match(r'\s+(%\S+ = )?invoke ', s):
                j += 1
                s += ' ' + body[j].strip()
            joined.append(s)
            j += 1
        for s in joined:
            if not s.strip():
                continue
            m = re.match(r'^((?:"[^"]*"|[-a-zA-Z$._0-9]+)):', s)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(len(f.params)) if all(re.fullmatch(r'%\d+', n) for _, n in f.params) else '%0'
                f.implicit_entry = cur
                blocks[cur] = []
                order.append(cur)
            blocks[cur].append(s.strip())
        f.blocks, f.order = blocks, order
        self.funcs[f.name] = f


class Func:
    implicit_entry = None


def cname(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group()), n)


class Emitter:
    def __init__(self, mod, nsw=True):
        self.m = mod
        self.tyname = {}
        self.tydefs = []
        self.sizes = {}
        self.nsw = nsw
        self.need_funcs, self.done_funcs = [], set()
        self.need_globs, self.done_globs = [], set()
        self.protos, self.bodies, self.gdefs = {}, [], []
        self.unmodelled = set()
        self.bits_used = set()
        self.tmp = 0
        self.adapters = {}

    # ---- layout ----
    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self.m.types:
                raise IRError("unknown type " + t[1])
            t = self.m.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'fp80':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'st':
            return 1 if t[2] else max([1] + [self.align(x) for x in t[1]])
        raise IRError("align of %r" % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'fp80':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'st':
            return self.offsets(t)[1]
        raise IRError("size of %r" % (t,))

    def offsets(self, t):
        t = self.resolve(t)
        off, offs, al = 0, [], 1
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        return offs, (off + al - 1) // al * al

    # ---- C types ----
    def cty(self, t):
        k = t[0]
        if k == 'void':
            return 'void'
        if k == 'i':
            n = t[1]
            if n == 1:
                return '_Bool'
            if n in (8, 16, 32, 64):
                return 'uint%d_t' % n
            if n == 128:
                return 'unsigned __int128'
            self.bits_used.add(n)
            return 'vp_u%d' % n
        if k == 'ptr':
            return 'PTR'
        if k in ('float', 'double'):
            return k
        if k == 'fp80':
            return 'long double'
        if k == 'named':
            key = t[1]
        else:
            key = repr(t)
        if key in self.tyname:
            return self.tyname[key]
        if k == 'named':
            nm = 'struct T_' + cname(t[1])
            self.tyname[key] = nm
            self.define_struct(nm, self.resolve(t))
            return nm
        if k == 'arr':
            e = self.cty(t[2])
            nm = 'struct A_%d' % len(self.tyname)
            self.tyname[key] = nm
            if t[1] == 0:
                self.tydefs.append('%s { };' % nm)
            else:
                self.tydefs.append('%s { %s a[%d]; };' % (nm, e, t[1]))
            return nm
        if k == 'st':
            nm = 'struct S_%d' % len(self.tyname)
            self.tyname[key] = nm
            self.define_struct(nm, t)
            return nm
        raise IRError("no C type for %r" % (t,))

    def define_struct(self, nm, t):
        if t[0] != 'st':
            e = self.cty(t)
            self.tydefs.append('%s { %s f0; };' % (nm, e))
            return
        fs = [self.cty(x) for x in t[1]]
        self.tydefs.append('%s { %s }%s;' % (nm, ' '.join('%s f%d;' % (f, i) for i, f in enumerate(fs)),
                                             ' __attribute__((packed))' if t[2] else ''))

    def scty(self, t):
        n = t[1]
        if n in (8, 16, 32, 64):
            return 'int%d_t' % n
        if n == 128:
            return '__int128'
        if n == 1:
            return 'vp_s1'
        self.bits_used.add(n)
        return 'vp_s%d' % n

    # ---- globals / constants ----
    def glob(self, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls:
            self.need_funcs.append(name)
            return '((PTR)(void *)&%s)' % self.fname(name)
        self.need_globs.append(name)
        return '((PTR)&g_%s)' % cname(name)

    def fname(self, name):
        n = cname(name)
        if name in self.m.funcs:
            return 'f_' + n
        return 'x_' + n

    def const_init(self, t, v):
        """Initialiser expression for a global of type t."""
        r = self.resolve(t)
        k = v[0]
        if k in ('zero', 'null', 'undef') and r[0] in ('st', 'arr'):
            if self.size(r) == 0:
                return '{}'
            return '{0}'
        if k == 'agg':
            if r[0] == 'arr':
                return '{{' + ', '.join(self.const_init(tt, vv) for tt, vv in v[1]) + '}}'
            return '{' + ', '.join(self.const_init(tt, vv) for tt, vv in v[1]) + '}'
        if k == 'cstr':
            raw, i, out = v[1][2:-1], 0, []
            while i < len(raw):
                if raw[i] == '\\':
                    out.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(raw[i]))
                    i += 1
            return '{{' + ', '.join(map(str, out)) + '}}'
        return self.val(t, v)

    def val(self, t, v):
        k = v[0]
        if k == 'loc':
            return self.lname(v[1])
        if k == 'glob':
            return self.glob(v[1])
        if k == 'int':
            n = v[1]
            if t[0] == 'i':
                w = t[1]
                n &= (1 << w) - 1
                if w == 1:
                    return str(n)
                if w <= 64:
                    return '((%s)%dull)' % (self.cty(t), n)
                hi, lo = n >> 64, n & ((1 << 64) - 1)
                return '((((%s)%dull) << 64) | %dull)' % (self.cty(t), hi, lo)
            return str(n)
        if k == 'fp':
            x = v[1]
            if x != x:
                return '((%s)__builtin_nan(""))' % self.cty(t)
            if x in (float('inf'), float('-inf')):
                return '((%s)(%s__builtin_inf()))' % (self.cty(t), '-' if x < 0 else '')
            return '((%s)%s)' % (self.cty(t), x.hex())
        if k == 'null':
            return '((PTR)0)'
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            r = self.resolve(t)
            if r[0] in ('st', 'arr'):
                return '((%s){%s})' % (self.cty(t), '0' if self.size(r) else '')
            return '((%s)0)' % self.cty(t)
        if k == 'agg':
            return '((%s)%s)' % (self.cty(t), self.const_init(t, v))
        if k == 'gep':
            return self.gep_expr(v[1], v[2])
        if k == 'cast':
            return self.cast_expr(v[1], v[2], self.val(v[2], v[3]), v[4])
        if k == 'bin':
            (t1, a), (t2, b) = v[2]
            op = {'add': '+', 'sub': '-', 'mul': '*', 'xor': '^', 'and': '&', 'or': '|', 'shl': '<<', 'lshr': '>>'}[v[1]]
            return '((%s)(%s %s %s))' % (self.cty(t1), self.val(t1, a), op, self.val(t2, b))
        raise IRError("value %r" % (v,))

    def undef(self, t):
        self.tmp += 1
        n = 'u_%d' % self.tmp
        self.locals.append('%s %s;' % (self.cty(t), n))
        return n

    def lname(self, n):
        return 'v_' + cname(n)

    def gep_expr(self, bt, ops):
        (pt, pv), idx = ops[0], ops[1:]
        const, terms = 0, []
        cur = bt
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                sz = self.size(bt)
            else:
                r = self.resolve(cur)
                if r[0] == 'st':
                    offs, _ = self.offsets(r)
                    const += offs[iv[1]]
                    cur = r[1][iv[1]]
                    continue
                sz = self.size(r[2])
                cur = r[2]
            if iv[0] == 'int':
                x = iv[1]
                w = it[1]
                if x >= 1 << (w - 1):
                    x -= 1 << w
                const += x * sz
            elif iv[0] == 'zero':
                pass
            else:
                e = '(int64_t)(%s)%s' % (self.scty(it), self.val(it, iv))
                terms.append('%s * %dll' % (e, sz) if sz != 1 else e)
        e = self.val(pt, pv)
        if const:
            terms.append('%dll' % const)
        if terms:
            return '(%s + (%s))' % (e, ' + '.join(terms))
        return e

    def cast_expr(self, op, t1, e, t2):
        c2 = self.cty(t2)
        if op in ('trunc', 'zext'):
            if op == 'trunc' and t2[1] == 1:
                return '((_Bool)(%s & 1))' % e
            return '((%s)%s)' % (c2, e)
        if op == 'sext':
            if t1[1] == 1:
                return '((%s)(%s ? -1 : 0))' % (c2, e)
            return '((%s)(%s)(%s)%s)' % (c2, self.scty(t2), self.scty(t1), e)
        if op == 'ptrtoint':
            return '((%s)(uint64_t)%s)' % (c2, e)
        if op == 'inttoptr':
            return '((PTR)(uint64_t)%s)' % e
        if op in ('bitcast', 'addrspacecast'):
            if t1 == t2 or (t1[0] == 'ptr' and t2[0] == 'ptr'):
                return e
            raise IRError("bitcast %r -> %r" % (t1, t2))
        if op in ('uitofp', 'fpext', 'fptrunc'):
            return '((%s)%s)' % (c2, e)
        if op == 'sitofp':
            return '((%s)(%s)%s)' % (c2, self.scty(t1), e)
        if op == 'fptoui':
            return '((%s)%s)' % (c2, e)
        if op == 'fptosi':
            return '((%s)(%s)%s)' % (c2, self.scty(t2), e)
        raise IRError("cast " + op)

    # ---- functions ----
    def proto(self, f, prefix=None):
        ps = ', '.join(self.cty(t) + ' ' + self.lname(n) for t, n in f.params) or 'void'
        return '%s %s(%s)' % (self.cty(f.ret), prefix or self.fname(f.name), ps)

    def emit_func(self, f):
        self.locals = []
        self.f = f
        out = []
        decl = {}
        pre = {}
        phis = {}
        parsed = {}
        for b in f.order:
            parsed[b] = [self.parse_inst(s) for s in f.blocks[b]]
        for b in f.order:
            for ins in parsed[b]:
                if ins['op'] == 'phi':
                    for v, src in ins['in']:
                        phis.setdefault((src, b), []).append((ins['res'], ins['ty'], v))
        self.phis = phis
        self.prepare_cuts(f, parsed)
        for b in f.order:
            out.append('L_%s: ;' % cname(b))
            for ins in parsed[b]:
                loc = self.loc(ins.get('dbg'))
                code = self.emit_inst(ins, b)
                if code:
                    if loc:
                        out.append(loc)
                    out.append('  ' + code)
        self.locals = list(dict.fromkeys(self.locals))
        head = self.proto(f)
        copies = []
        for (t, n), bv in zip(f.params, f.byval):
            if bv:
                c = 'bv_' + cname(n)
                self.locals.append('%s %s;' % (self.cty(bv), c))
                copies.append('%s = *(%s *)%s; %s = (PTR)&%s;' % (c, self.cty(bv), self.lname(n), self.lname(n), c))
        return '%s%s {\n%s\n%s\n%s\n}\n' % (self.linkage(f.name), head, '\n'.join('  ' + l for l in self.locals),
                                               '\n'.join('  ' + c for c in copies), '\n'.join(out))

    def loc(self, dbg):
        if not dbg:
            return None
        d = self.m.dbg.get(dbg)
        if not d or d[0] != 'DILocation':
            return None
        line = re.search(r'line: (\d+)', d[1])
        scope = re.search(r'scope: (!\d+)', d[1])
        fn = None
        seen = 0
        while scope and seen < 50:
            seen += 1
            s = self.m.dbg.get(scope.group(1))
            if not s:
                break
            fm = re.search(r'file: (!\d+)', s[1])
            if fm:
                fd = self.m.dbg.get(fm.group(1))
                if fd:
                    fn = re.search(r'filename: "([^"]*)"', fd[1]).group(1)
                    dm = re.search(r'directory: "([^"]*)"', fd[1])
                    if dm and not fn.startswith('/'):
                        fn = dm.group(1) + '/' + fn
                break
            scope = re.search(r'scope: (!\d+)', s[1])
        if not line or not fn or line.group(1) == '0':
            return None
        return '#line %s "%s"' % (line.group(1), fn)

    def parse_inst(self, s):
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            dbg = m.group(1)
        # drop trailing metadata
        s0 = re.sub(r',\s*![a-zA-Z_.]+ ![^,]*', '', s)
        toks = tokenize(s0)
        p = P(toks, self.m)
        ins = {'dbg': dbg, 'text': s}
        if p.peek()[0] == 'name' and p.peek(1)[1] == '=':
            ins['res'] = p.next()[1]
            p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        ins['op'], ins['p'] = op, p
        if op == 'phi':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
                p.i += 1
            ins['ty'] = p.type()
            ins['in'] = []
            while p.accept('['):
                v = p.value(ins['ty'])
                p.expect(',')
                src = p.next()[1]
                p.expect(']')
                ins['in'].append((v, src))
                p.accept(',')
        return ins

    def setres(self, ins, ty, expr):
        n = self.lname(ins['res'])
        self.locals.append('%s %s;' % (self.cty(ty), n))
        return '%s = %s;' % (n, expr)

    def goto(self, src, dst):
        ps = self.phis.get((src, dst), [])
        code = []
        if len(ps) == 1:
            r, t, v = ps[0]
            code.append('%s = %s;' % (self.lname(r), self.val(t, v)))
        elif ps:
            tmps = []
            for r, t, v in ps:
                self.tmp += 1
                n = 'p_%d' % self.tmp
                self.locals.append('%s %s;' % (self.cty(t), n))
                code.append('%s = %s;' % (n, self.val(t, v)))
                tmps.append((r, n))
            for r, n in tmps:
                code.append('%s = %s;' % (self.lname(r), n))
        if dst in self.cuts:
            code.append(self.cut_edge(src, dst))
        else:
            code.append('goto L_%s;' % cname(dst))
        return ' '.join(code)

    # ---- loop contracts ----
    # cut_roots: functions whose loops are cut at the header. Every entry edge
    # asserts the invariant, then havocs the loop's variables and assumes it;
    # every back edge asserts it (and a decreasing measure) and stops.
    cut_roots = ()
    enabled = None        # candidate id -> bool (None: all enabled)
    loops_cut = 0

    def prepare_cuts(self, f, parsed):
        self.cuts, self.cut_info = set(), {}
        if f.name not in self.cut_roots:
            return
        succ = {}
        for b in f.order:
            last = f.blocks[b][-1]
            succ[b] = re.findall(r'label (%(?:"[^"]*"|[-a-zA-Z$._0-9]+))', last)
        entry = f.order[0]
        dom = {b: set(f.order) for b in f.order}
        dom[entry] = {entry}
        preds = {b: [x for x in f.order if b in succ[x]] for b in f.order}
        changed = True
        while changed:
            changed = False
            for b in f.order[1:]:
                ps = [dom[x] for x in preds[b]]
                n = (set.intersection(*ps) if ps else set()) | {b}
                if n != dom[b]:
                    dom[b] = n
                    changed = True
        heads = {}
        for b in f.order:
            for t in succ[b]:
                if t in dom[b]:
                    heads.setdefault(t, []).append(b)
        for h, backs in heads.items():
            body, work = {h}, list(backs)
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += preds[x]
            for b in body:
                for ins in parsed[b]:
                    if ins['op'] in ('store', 'atomicrmw', 'cmpxchg') or (
                            ins['op'] in ('call', 'invoke') and not re.search(r'@llvm\.(dbg|lifetime|experimental|assume)', ins['text'])):
                        raise IRError('loop with side effects cannot be cut: ' + ins['text'])
            n = self.loops_cut
            self.loops_cut += 1
            phis = [(i['res'], i['ty']) for i in parsed[h] if i['op'] == 'phi']
            self.cuts.add(h)
            self.cut_info[h] = (n, set(backs), phis)

    def candidates(self, n, phis):
        """Loop contract template for scans over the ghost region [vp_base, vp_base+vp_len)
        with a ghost predicate VP_G on positions (see the harness' ghost.h)."""
        ptrs = [self.lname(r) for r, t in phis if t == ('ptr',)]
        ints = [self.lname(r) for r, t in phis if t == ('i', 64)]
        c = []
        for p in ptrs:
            o = '((uint64_t)%s - (uint64_t)vp_base)' % p
            c.append(('in-region %s' % p, '__CPROVER_POINTER_OBJECT(%s) == __CPROVER_POINTER_OBJECT(vp_base) && %s <= vp_len' % (p, o), None))
            c.append(('ghost at %s' % p, 'VP_INV(%s)' % o, o))
            for i in ints:
                c.append(('%s+%s=len' % (p, i), '%s + %s == vp_len' % (o, i), None))
                c.append(('%s=%s' % (p, i), '%s == %s' % (o, i), None))
        for i in ints:
            c.append(('%s<=len' % i, '%s <= vp_len' % i, None))
            c.append(('ghost at %s' % i, 'VP_INV(%s)' % i, i))
            c.append(('ghost at len-%s' % i, 'VP_INV(vp_len - %s)' % i, 'vp_len - %s' % i))
        return [('L%dC%d' % (n, k), d, e, pos) for k, (d, e, pos) in enumerate(c)]

    def cut_edge(self, src, h):
        n, backs, phis = self.cut_info[h]
        code = []
        cands = [c for c in self.candidates(n, phis) if self.enabled is None or self.enabled.get(c[0], True)]
        back = src in backs
        for cid, d, e, pos in cands:
            if pos:
                code.append('if (%s <= vp_len) vp_unfold(%s);' % (pos, pos))
            code.append('__CPROVER_assert(%s, "INV %s %s (%s)");' % (e, cid, 'preserved' if back else 'established', d))
        if back:
            for r, t in phis:
                v = self.lname(r)
                if t == ('ptr',):
                    code.append('__CPROVER_assert((uint64_t)%s > (uint64_t)o_%s, "MEASURE L%dM%s loop makes progress");' % (v, v, n, v))
                elif t == ('i', 64):
                    code.append('__CPROVER_assert(%s < o_%s, "MEASURE L%dM%sd loop makes progress");' % (v, v, n, v))
                    code.append('__CPROVER_assert(%s > o_%s, "MEASURE L%dM%su loop makes progress");' % (v, v, n, v))
            code.append('__CPROVER_assume(0);')
            return ' '.join(code)
        for r, t in phis:
            v = self.lname(r)
            self.tmp += 1
            self.locals.append('%s h_%d;' % (self.cty(t), self.tmp))
            self.locals.append('%s o_%s;' % (self.cty(t), v))
            code.append('%s = h_%d;' % (v, self.tmp))
        # pointers of the loop stay inside the region by construction of the havoc
        for cid, d, e, pos in cands:
            if d.startswith('in-region'):
                v = d.split()[1]
                self.tmp += 1
                self.locals.append('uint64_t h_%d;' % self.tmp)
                code.append('__CPROVER_assume(h_%d <= vp_len); %s = vp_base + h_%d;' % (self.tmp, v, self.tmp))
            code.append('__CPROVER_assume(%s);' % e)
        for cid, d, e, pos in cands:
            if pos:
                code.append('if (%s <= vp_len) vp_unfold(%s);' % (pos, pos))
        for r, t in phis:
            code.append('o_%s = %s;' % (self.lname(r), self.lname(r)))
        code.append('goto L_%s;' % cname(h))
        return ' '.join(code)

    def emit_inst(self, ins, blk):
        op, p = ins['op'], ins['p']
        if op == 'phi':
            self.locals.append('%s %s;' % (self.cty(ins['ty']), self.lname(ins['res'])))
            return None
        if op == 'ret':
            t = p.type()
            if t[0] == 'void':
                return 'return;'
            return 'return %s;' % self.val(t, p.value(t))
        if op == 'br':
            t = p.type()
            if t[0] == 'label':
                return self.goto(blk, p.next()[1])
            c = self.val(t, p.value(t))
            p.expect(','), p.type()
            a = p.next()[1]
            p.expect(','), p.type()
            b = p.next()[1]
            return 'if (%s) { %s } else { %s }' % (c, self.goto(blk, a), self.goto(blk, b))
        if op == 'switch':
            t = p.type()
            v = self.val(t, p.value(t))
            p.expect(','), p.type()
            d = p.next()[1]
            p.expect('[')
            code = []
            while not p.accept(']'):
                ct = p.type()
                cv = self.val(ct, p.value(ct))
                p.expect(','), p.type()
                code.append('if (%s == %s) { %s }' % (v, cv, self.goto(blk, p.next()[1])))
            code.append(self.goto(blk, d))
            return ' '.join(code)
        if op == 'unreachable':
            return '__CPROVER_assert(0, "control reaches a point the C++ compiler treats as unreachable"); __CPROVER_assume(0);'
        if op == 'alloca':
            t = p.type()
            cnt = None
            if p.accept(',') and p.peek()[1] != 'align':
                ct = p.type()
                cnt = p.value(ct)
            a = 'a_' + cname(ins['res'])
            if cnt is not None and cnt != ('int', 1):
                if cnt[0] != 'int':
                    raise IRError("dynamic alloca")
                self.locals.append('%s %s[%d];' % (self.cty(t), a, cnt[1]))
            else:
                if self.size(t) == 0:
                    self.locals.append('unsigned char %s;' % a)
                else:
                    self.locals.append('%s %s;' % (self.cty(t), a))
            return self.setres(ins, ('ptr',), '(PTR)&%s' % a)
        if op == 'load':
            atomic = p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            pt = p.type()
            a = self.val(pt, p.value(pt))
            if self.size(t) == 0:
                return self.setres(ins, t, '(%s){}' % self.cty(t))
            if t == ('i', 1):
                return self.setres(ins, t, '(_Bool)(*(uint8_t *)%s & 1)' % a)
            return self.setres(ins, t, '*(%s *)%s' % (self.cty(t), a))
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            a = self.val(pt, p.value(pt))
            if self.size(t) == 0:
                return None
            if t == ('i', 1):
                return '*(uint8_t *)%s = %s;' % (a, self.val(t, v))
            return '*(%s *)%s = %s;' % (self.cty(t), a, self.val(t, v))
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.i += 1
            bt = p.type()
            p.expect(',')
            ops = []
            while True:
                t = p.type()
                ops.append((t, p.value(t)))
                if not p.accept(','):
                    break
            return self.setres(ins, ('ptr',), self.gep_expr(bt, ops))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(p.next()[1])
            t = p.type()
            a = self.val(t, p.value(t))
            p.expect(',')
            b = self.val(t, p.value(t))
            c, s = self.cty(t), self.scty(t)
            pre = ''
            if self.nsw and 'nsw' in fl and op in ('add', 'sub', 'mul'):
                fn = {'add': 'plus', 'sub': 'minus', 'mul': 'mult'}[op]
                pre = '__CPROVER_assert(!__CPROVER_overflow_%s((%s)%s, (%s)%s), "signed %s does not overflow"); ' % (
                    fn, s, a, s, b, op)
            sym = {'add': '+', 'sub': '-', 'mul': '*', 'udiv': '/', 'urem': '%', 'and': '&', 'or': '|', 'xor': '^',
                   'shl': '<<', 'lshr': '>>'}
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                pre += '__CPROVER_assert(%s != 0, "division by zero"); ' % b
            if op in ('sdiv', 'srem'):
                pre += '__CPROVER_assert(!(%s == (%s)((%s)1 << %d) && %s == (%s)-1), "signed division overflow"); ' % (
                    a, c, c, t[1] - 1, b, c)
                e = '(%s)((%s)%s %s (%s)%s)' % (c, s, a, '/' if op == 'sdiv' else '%', s, b)
            elif op == 'ashr':
                e = '(%s)((%s)%s >> %s)' % (c, s, a, b)
            elif t == ('i', 1):
                e = '(_Bool)((%s %s %s) & 1)' % (a, sym[op], b)
            else:
                e = '(%s)(%s %s %s)' % (c, a, sym[op], b)
            if op in ('shl', 'lshr', 'ashr') and t[1] > 1:
                pre += '__CPROVER_assert(%s < %d, "shift amount in range"); ' % (b, t[1])
            return pre + self.setres(ins, t, e)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            while p.peek()[0] == 'word' and p.peek()[1] not in ('float', 'double'):
                p.i += 1
            t = p.type()
            a = self.val(t, p.value(t))
            p.expect(',')
            b = self.val(t, p.value(t))
            return self.setres(ins, t, '%s %s %s' % (a, {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op], b))
        if op == 'fneg':
            t = p.type()
            return self.setres(ins, t, '-%s' % self.val(t, p.value(t)))
        if op == 'icmp':
            p.accept('samesign')
            pred = p.next()[1]
            t = p.type()
            a = self.val(t, p.value(t))
            p.expect(',')
            b = self.val(t, p.value(t))
            o = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=', 'sgt': '>', 'sge': '>=',
                 'slt': '<', 'sle': '<='}[pred]
            if t[0] == 'ptr' and pred not in ('eq', 'ne'):
                a, b = '(uint64_t)' + a, '(uint64_t)' + b
            elif pred[0] == 's':
                a, b = '(%s)%s' % (self.scty(t), a), '(%s)%s' % (self.scty(t), b)
            return self.setres(ins, ('i', 1), '(%s %s %s)' % (a, o, b))
        if op == 'fcmp':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.i += 1
            pred = p.next()[1]
            t = p.type()
            a = self.val(t, p.value(t))
            p.expect(',')
            b = self.val(t, p.value(t))
            un = '(__builtin_isnan(%s) || __builtin_isnan(%s))' % (a, b)
            if pred in ('true', 'false'):
                e = '1' if pred == 'true' else '0'
            elif pred == 'ord':
                e = '!' + un
            elif pred == 'uno':
                e = un
            else:
                o = {'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[pred[1:]]
                e = '(%s %s %s)' % (a, o, b)
                e = '(!%s && %s)' % (un, e) if pred[0] == 'o' else '(%s || %s)' % (un, e)
            return self.setres(ins, ('i', 1), e)
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi',
                  'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.i += 1
            t1 = p.type()
            v = p.value(t1)
            p.expect('to')
            t2 = p.type()
            if op == 'bitcast' and {t1[0], t2[0]} & {'float', 'double'} and t1 != t2:
                self.tmp += 1
                n = 'bc_%d' % self.tmp
                self.locals.append('union { %s a; %s b; } %s;' % (self.cty(t1), self.cty(t2), n))
                return '%s.a = %s; ' % (n, self.val(t1, v)) + self.setres(ins, t2, n + '.b')
            return self.setres(ins, t2, self.cast_expr(op, t1, self.val(t1, v), t2))
        if op == 'select':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
                p.i += 1
            t = p.type()
            c = self.val(t, p.value(t))
            p.expect(',')
            t1 = p.type()
            a = self.val(t1, p.value(t1))
            p.expect(',')
            t2 = p.type()
            b = self.val(t2, p.value(t2))
            return self.setres(ins, t1, '%s ? %s : %s' % (c, a, b))
        if op == 'freeze':
            t = p.type()
            return self.setres(ins, t, self.val(t, p.value(t)))
        if op == 'extractvalue':
            t = p.type()
            v = self.val(t, p.value(t))
            path, cur = '', t
            while p.accept(','):
                n = int(p.next()[1])
                r = self.resolve(cur)
                if r[0] == 'arr':
                    path += '.a[%d]' % n
                    cur = r[2]
                else:
                    path += '.f%d' % n
                    cur = r[1][n]
            return self.setres(ins, cur, '(%s)%s' % (v, path))
        if op == 'insertvalue':
            t = p.type()
            v = self.val(t, p.value(t))
            p.expect(',')
            t2 = p.type()
            x = self.val(t2, p.value(t2))
            path, cur = '', t
            while p.accept(','):
                n = int(p.next()[1])
                r = self.resolve(cur)
                if r[0] == 'arr':
                    path += '.a[%d]' % n
                    cur = r[2]
                else:
                    path += '.f%d' % n
                    cur = r[1][n]
            return self.setres(ins, t, v) + ' %s%s = %s;' % (self.lname(ins['res']), path, x)
        if op == 'call' or op == 'invoke':
            return self.emit_call(ins, p, blk, op)
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.next()[1]
            pt = p.type()
            a = self.val(pt, p.value(pt))
            p.expect(',')
            t = p.type()
            v = self.val(t, p.value(t))
            c = self.cty(t)
            r = self.setres(ins, t, '*(%s *)%s' % (c, a))
            n = self.lname(ins['res'])
            e = {'add': '%s + %s', 'sub': '%s - %s', 'and': '%s & %s', 'or': '%s | %s', 'xor': '%s ^ %s'}.get(o)
            if o == 'xchg':
                w = v
            elif e:
                w = '(%s)(%s)' % (c, e % (n, v))
            else:
                raise IRError("atomicrmw " + o)
            return r + ' *(%s *)%s = %s;' % (c, a, w)
        if op == 'fence':
            return None
        if op == 'resume':
            return '__CPROVER_assert(0, "unwinding"); __CPROVER_assume(0);'
        raise IRError("instruction not supported: " + ins['text'])

    def emit_call(self, ins, p, blk, op):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'fastcc', 'ccc', 'coldcc'):
            p.i += 1
        p.skip_attrs()
        t = p.type()
        ft = None
        if t[0] == 'fn':
            ft, t = t, t[1]
        k, callee = p.next()
        if k != 'name':
            raise IRError("callee not supported: " + ins['text'])
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            if at[0] == 'metadata':
                return None
            bv = p.skip_attrs()
            args.append((at, p.value(at), bv))
            p.accept(',')
        tail = ''
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.i += 1
            p.expect('to'), p.type()
            tail = ' ' + self.goto(blk, p.next()[1])
        if callee.startswith('@llvm.'):
            c = self.intrinsic(ins, callee[6:], t, args)
            return (c or '') + tail
        av = [self.val(a, v) for a, v, _ in args]
        if callee[0] == '%':
            sig = '%s (*)(%s)' % (self.cty(t), ', '.join(self.cty(a) for a, _, _ in args) or 'void')
            e = '((%s)%s)(%s)' % (sig, self.lname(callee), ', '.join(av))
        else:
            callee = self.m.aliases.get(callee, callee)
            self.need_funcs.append(callee)
            fn = self.m.funcs.get(callee) or self.m.decls.get(callee)
            if fn is None:
                raise IRError("call of unknown " + callee)
            if fn.vararg:
                av = av[:len(fn.params)]
            f = self.fname(callee)
            if callee in self.m.funcs and ([self.resolve(x) for x, _, _ in args] != [self.resolve(x) for x, _ in fn.params]
                                           or self.resolve(t) != self.resolve(fn.ret)):
                f = self.adapter(fn, [x for x, _, _ in args], t)
            e = '%s(%s)' % (f, ', '.join(av))
        if t[0] == 'void':
            return e + ';' + tail
        if 'res' not in ins:
            return '(void)%s;' % e + tail
        return self.setres(ins, t, e) + tail

    def intrinsic(self, ins, name, t, args):
        av = [self.val(a, v) for a, v, _ in args if a[0] != 'metadata']
        if name.startswith(('lifetime.', 'dbg.', 'experimental.noalias', 'assume', 'donothing', 'invariant.', 'va_start', 'va_end')):
            return None
        if name.startswith(('memcpy.', 'memmove.')):
            n = args[2][1]
            if n[0] == 'int' and n[1] == 0:
                return None
            if n[0] == 'int' and n[1] <= 256:
                c = 'struct vp_b%d' % n[1]
                if c not in self.tyname:
                    self.tyname[c] = c
                    self.tydefs.append('%s { unsigned char b[%d]; };' % (c, n[1]))
                return '*(%s *)%s = *(%s *)%s;' % (c, av[0], c, av[1])
            return '%s(%s, %s, %s);' % ('vp_memcpy' if name.startswith('memcpy') else 'vp_memmove', av[0], av[1], av[2])
        if name.startswith('memset.'):
            n = args[2][1]
            if n[0] == 'int' and n[1] <= 64:
                return ' '.join('%s[%d] = %s;' % (av[0], i, av[1]) for i in range(n[1]))
            return 'vp_memset(%s, %s, %s);' % (av[0], av[1], av[2])
        m = re.match(r'(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            w = ('i', int(m.group(3)))
            c = self.cty(w) if m.group(1) == 'u' else self.scty(w)
            fn = {'add': 'plus', 'sub': 'minus', 'mul': 'mult'}[m.group(2)]
            sym = {'add': '+', 'sub': '-', 'mul': '*'}[m.group(2)]
            n = self.lname(ins['res'])
            self.locals.append('%s %s;' % (self.cty(t), n))
            return '%s.f0 = (%s)(%s %s %s); %s.f1 = __CPROVER_overflow_%s((%s)%s, (%s)%s);' % (
                n, self.cty(w), av[0], sym, av[1], n, fn, c, av[0], c, av[1])
        m = re.match(r'(ctlz|cttz|ctpop|bswap)\.i(\d+)', name)
        if m:
            self.need_helper(m.group(1), int(m.group(2)))
            return self.setres(ins, t, 'vp_%s%s(%s)' % (m.group(1), m.group(2), av[0]))
        m = re.match(r'(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            c = self.cty(t) if m.group(1)[0] == 'u' else self.scty(t)
            o = '>' if m.group(1).endswith('max') else '<'
            return self.setres(ins, t, '((%s)%s %s (%s)%s) ? %s : %s' % (c, av[0], o, c, av[1], av[0], av[1]))
        m = re.match(r'([us])cmp\.i(\d+)\.i(\d+)', name)
        if m:
            c = ('uint%s_t' if m.group(1) == 'u' else 'int%s_t') % m.group(3)
            return self.setres(ins, t, '(%s)(((%s)%s > (%s)%s) - ((%s)%s < (%s)%s))' % (self.cty(t), c, av[0], c, av[1], c, av[0], c, av[1]))
        m = re.match(r'(fshl|fshr|uadd\.sat|usub\.sat)\.i(\d+)', name)
        if m:
            w, c = int(m.group(2)), self.cty(t)
            if m.group(1) == 'uadd.sat':
                e = '(%s)(%s + %s) < %s ? (%s)-1 : (%s)(%s + %s)' % (c, av[0], av[1], av[0], c, c, av[0], av[1])
            elif m.group(1) == 'usub.sat':
                e = '%s < %s ? 0 : (%s)(%s - %s)' % (av[0], av[1], c, av[0], av[1])
            else:
                n = '(%s %% %d)' % (av[2], w)
                l, r = (n, '(%d - %s)' % (w, n)) if m.group(1) == 'fshl' else ('(%d - %s)' % (w, n), n)
                e = '%s == 0 ? %s : (%s)(((%s)%s << %s) | ((%s)%s >> %s))' % (n, av[0 if m.group(1) == 'fshl' else 1], c, c, av[0], l, c, av[1], r)
            return self.setres(ins, t, e)
        if name.startswith('abs.'):
            return self.setres(ins, t, '((%s)%s < 0) ? (%s)(0 - %s) : %s' % (self.scty(t), av[0], self.cty(t), av[0], av[0]))
        if name.startswith(('expect.', 'launder.', 'strip.')):
            return self.setres(ins, t, av[0])
        if name.startswith('is.constant'):
            return self.setres(ins, t, '0')
        if name.startswith('objectsize'):
            return self.setres(ins, t, '(%s)-1' % self.cty(t))
        if name in ('trap', 'debugtrap') or name.startswith('ubsantrap'):
            return '__CPROVER_assert(0, "trap executed"); __CPROVER_assume(0);'
        raise IRError("intrinsic not supported: llvm." + name)

    helpers = None

    def need_helper(self, k, w):
        if self.helpers is None:
            self.helpers = {}
        c = 'uint%d_t' % w
        if k == 'bswap':
            e = ' | '.join('((%s)((x >> %d) & 0xff) << %d)' % (c, 8 * i, w - 8 - 8 * i) for i in range(w // 8))
            body = 'return %s;' % e
        elif k == 'ctpop':
            body = 'return (%s)(%s);' % (c, ' + '.join('((x >> %d) & 1)' % i for i in range(w)))
        elif k == 'ctlz':
            body = ' '.join('if ((x >> %d) & 1) return %d;' % (w - 1 - i, i) for i in range(w)) + ' return %d;' % w
        else:
            body = ' '.join('if ((x >> %d) & 1) return %d;' % (i, i) for i in range(w)) + ' return %d;' % w
        self.helpers[(k, w)] = 'static %s vp_%s%d(%s x) { %s }' % (c, k, w, c, body)

    # ---- calls between languages: the same registers, described by different types ----
    def flat(self, t, e):
        t = self.resolve(t)
        if t[0] == 'st':
            return [x for i, u in enumerate(t[1]) for x in self.flat(u, '%s.f%d' % (e, i))]
        if t[0] == 'arr':
            return [x for i in range(t[1]) for x in self.flat(t[2], '%s.a[%d]' % (e, i))]
        return [] if t[0] == 'void' else [(t, e)]

    def recast(self, src, dst, what):
        if len(src) != len(dst):
            raise IRError("calling conventions differ: " + what)
        out = []
        for (t1, e1), (t2, e2) in zip(src, dst):
            if t1 == t2:
                out.append('%s = %s;' % (e2, e1))
            elif t1[0] == 'i' and t2[0] == 'i' and (t1[1] + 7) // 8 == (t2[1] + 7) // 8:
                out.append('%s = %s;' % (e2, self.cast_expr('trunc' if t2[1] == 1 else 'zext', t1, e1, t2)))
            elif (t1[0], t2[0]) == ('i', 'ptr') and t1[1] == 64:
                out.append('%s = %s;' % (e2, self.cast_expr('inttoptr', t1, e1, t2)))
            elif (t1[0], t2[0]) == ('ptr', 'i') and t2[1] == 64:
                out.append('%s = %s;' % (e2, self.cast_expr('ptrtoint', t1, e1, t2)))
            else:
                raise IRError("calling conventions differ: " + what)
        return out

    def adapter(self, fn, args, ret):
        key = (fn.name, repr(args), repr(ret))
        if key not in self.adapters:
            self.tmp += 1
            nm = 'ad_%d_%s' % (self.tmp, cname(fn.name))
            src = [x for i, t in enumerate(args) for x in self.flat(t, 'a%d' % i)]
            dst = [x for i, (t, _) in enumerate(fn.params) for x in self.flat(t, 'p%d' % i)]
            body = ['%s p%d;' % (self.cty(t), i) for i, (t, _) in enumerate(fn.params)] + self.recast(src, dst, fn.name)
            call = '%s(%s)' % (self.fname(fn.name), ', '.join('p%d' % i for i in range(len(fn.params))))
            if ret[0] == 'void':
                body.append('(void)%s;' % call if fn.ret[0] != 'void' else call + ';')
            elif self.resolve(ret) == self.resolve(fn.ret):
                body.append('return %s;' % call)
            else:
                body += ['%s r = %s;' % (self.cty(fn.ret), call), '%s q;' % self.cty(ret)]
                body += self.recast(self.flat(fn.ret, 'r'), self.flat(ret, 'q'), fn.name) + ['return q;']
            self.adapters[key] = (nm, 'static %s %s(%s) { %s }' % (self.cty(ret), nm, ', '.join(
                '%s a%d' % (self.cty(t), i) for i, t in enumerate(args)) or 'void', ' '.join(body)))
        return self.adapters[key][0]

    roots = ()
    ghost = ''

    def linkage(self, n):
        return '' if n in self.roots else 'static '

    def translate(self, roots, models):
        """models: names of external functions that prelude.c defines (as x_<name>)."""
        self.roots = set(roots)
        self.need_funcs += list(roots)
        while self.need_funcs or self.need_globs:
            while self.need_funcs:
                n = self.need_funcs.pop()
                n = self.m.aliases.get(n, n)
                if n in self.done_funcs:
                    continue
                self.done_funcs.add(n)
                if n in self.m.funcs:
                    f = self.m.funcs[n]
                    self.protos[n] = self.linkage(n) + self.proto(f) + ';'
                    self.bodies.append(self.emit_func(f))
                else:
                    f = self.m.decls.get(n)
                    if f is None:
                        raise IRError("no declaration for " + n)
                    if cname(n) in models:
                        self.protos[n] = self.proto(f) + ';'
                    else:
                        self.unmodelled.add(n)
                        self.protos[n] = 'static ' + self.proto(f) + ';'
                        self.locals = []
                        self.bodies.append('static %s { __CPROVER_assert(0, "UNMODELLED external function %s"); __CPROVER_assume(0); }\n' % (
                            self.proto(f), cname(n)))
            while self.need_globs:
                n = self.need_globs.pop()
                if n in self.done_globs:
                    continue
                self.done_globs.add(n)
                self.locals = []
                if n not in self.m.globals:
                    raise IRError("unknown global " + n)
                t, init = self.m.global_type_init(n)
                if self.size(t) == 0:
                    self.gdefs.append(('static unsigned char g_%s;' % cname(n), None))
                elif init is None:
                    self.gdefs.append(('static %s g_%s;' % (self.cty(t), cname(n)), None))
                else:
                    c = self.cty(t)
                    self.gdefs.append(('static %s g_%s;' % (c, cname(n)),
                                       'static %s g_%s = %s;' % (c, cname(n), self.const_init(t, init))))
        out = ['#include <stdint.h>', '#include <stddef.h>', 'typedef unsigned char *PTR;']
        out.append('typedef __CPROVER_bitvector[1] vp_u1raw; typedef signed __CPROVER_bitvector[1] vp_s1;')
        for n in sorted(self.bits_used):
            out.append('typedef unsigned __CPROVER_bitvector[%d] vp_u%d; typedef signed __CPROVER_bitvector[%d] vp_s%d;' % (n, n, n, n))
        out += self.tydefs
        out += list((self.helpers or {}).values())
        out.append(self.ghost)
        out.append('void vp_memcpy(PTR d, PTR s, uint64_t n); void vp_memmove(PTR d, PTR s, uint64_t n); void vp_memset(PTR d, uint8_t c, uint64_t n);')
        out += list(self.protos.values())
        out += [d for _, d in self.adapters.values()]
        out += [d for d, _ in self.gdefs]
        out += [i for _, i in self.gdefs if i]
        out += self.bodies
        return '\n'.join(out)
