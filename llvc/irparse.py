"""Parser for the textual LLVM IR clang-18 emits from /repo's sources (-O0, typed by instruction)."""
import re, struct

TOK = re.compile(r'''\s*(?:
 (?P<reg>%"[^"]*"|%[-\w.$]+)
|(?P<glob>@"[^"]*"|@[-\w.$]+)
|(?P<cstr>c"[^"]*")
|(?P<str>"[^"]*")
|(?P<md>![\w.]*(?:"[^"]*")?)
|(?P<flt>[-+]?\d+\.\d*(?:e[+-]?\d+)?)
|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
|(?P<num>-?\d+)
|(?P<attr>\#\d+)
|(?P<dots>\.\.\.)
|(?P<word>[A-Za-z_$][-\w.$]*)
|(?P<p>[()\[\]{}<>,=*|:])
)''', re.X)


class Ty:
    __slots__ = ('k', 'bits', 'n', 'elt', 'fields', 'packed', 'name')

    def __init__(self, k, bits=0, n=0, elt=None, fields=None, packed=False, name=None):
        self.k, self.bits, self.n, self.elt, self.fields, self.packed, self.name = k, bits, n, elt, fields, packed, name

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.bits
        if self.k == 'array': return '[%d x %r]' % (self.n, self.elt)
        if self.k == 'struct': return self.name or '{%s}' % ', '.join(map(repr, self.fields))
        if self.k == 'vector': return '<%d x %r>' % (self.n, self.elt)
        return self.k


INT = {b: Ty('int', b) for b in (1, 8, 16, 32, 64, 128)}
FLOAT, DOUBLE, PTR, VOID, FP80 = Ty('float'), Ty('double'), Ty('ptr'), Ty('void'), Ty('fp80')
LABEL, META, TOKEN = Ty('label'), Ty('metadata'), Ty('token')
OPAQUE = Ty('opaque')
SIMPLE = {'float': FLOAT, 'double': DOUBLE, 'ptr': PTR, 'void': VOID, 'x86_fp80': FP80, 'label': LABEL,
          'metadata': META, 'token': TOKEN, 'opaque': OPAQUE}

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'readnone', 'returned', 'nest', 'immarg', 'noreturn', 'swiftself', 'allocalign', 'allocptr', 'nofree',
               'writable', 'dead_on_unwind', 'dso_local', 'dso_preemptable', 'local_unnamed_addr', 'unnamed_addr',
               'hidden', 'protected', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'external', 'available_externally',
               'linkonce', 'weak', 'appending', 'common', 'extern_weak', 'fastcc', 'ccc', 'coldcc', 'tail', 'notail', 'musttail',
               'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
PAREN_ATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'preallocated',
               'inalloca', 'elementtype', 'nofpclass', 'memory', 'range', 'initializes'}


class Parser:
    def __init__(self, mod, text):
        self.mod = mod
        self.toks = []
        pos = 0
        n = len(text)
        while pos < n:
            m = TOK.match(text, pos)
            if not m:
                if text[pos:].strip() == '' or text[pos:].lstrip().startswith(';'): break
                raise SyntaxError('token: ' + text[pos:pos + 60])
            self.toks.append((m.lastgroup, m.group(m.lastgroup)))
            pos = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ('eof', '')

    def next(self):
        t = self.peek(); self.i += 1
        return t

    def acc(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        t = self.next()
        if t[1] != v: raise SyntaxError('expected %r got %r near %r' % (v, t, self.toks[max(0, self.i - 6):self.i + 6]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v in SIMPLE: t = SIMPLE[v]
            elif v[0] == 'i' and v[1:].isdigit():
                b = int(v[1:]); t = INT.get(b) or Ty('int', b)
            else: raise SyntaxError('type ' + v)
        elif k == 'reg':
            t = self.mod.named_type(v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']')
            t = Ty('array', n=n, elt=e)
        elif v == '{':
            fs = []
            if not self.acc('}'):
                fs.append(self.type())
                while self.acc(','): fs.append(self.type())
                self.exp('}')
            t = Ty('struct', fields=fs)
        elif v == '<':
            if self.acc('{'):
                fs = [self.type()]
                while self.acc(','): fs.append(self.type())
                self.exp('}'); self.exp('>')
                t = Ty('struct', fields=fs, packed=True)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>')
                t = Ty('vector', n=n, elt=e)
        else:
            raise SyntaxError('type tok %r' % ((k, v),))
        # function type suffix e.g. "void (ptr, ...)"
        if self.peek()[1] == '(' and t.k != 'metadata':
            # only in call with explicit fn type
            save = self.i
            self.next(); depth = 1
            while depth:
                w = self.next()[1]
                if w == '(': depth += 1
                elif w == ')': depth -= 1
            # it's a function type iff followed by a callee (@ or %)
            if self.peek()[0] in ('glob', 'reg') or self.peek()[1] in ('*',):
                self.acc('*')
                return Ty('fn', elt=t)
            self.i = save
        return t

    def skip_attrs(self):
        out = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next(); out[v] = True
            elif k == 'word' and v in PAREN_ATTRS:
                self.next()
                if self.acc('('):
                    if v in ('byval', 'sret'):
                        out[v] = self.type(); self.exp(')')
                    else:
                        d = 1
                        while d:
                            w = self.next()[1]
                            if w == '(': d += 1
                            elif w == ')': d -= 1
                elif v == 'align': self.next()
            else:
                return out

    def value(self, ty):
        k, v = self.next()
        if k == 'reg': return ('reg', v)
        if k == 'glob': return ('glob', v)
        if k == 'num':
            if ty.k in ('float', 'double'): return ('f', float(v))
            return ('int', int(v))
        if k == 'flt': return ('f', float(v))
        if k == 'hex':
            if v[2] in 'KLMHR': return ('fp80', v)
            return ('f', struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0])
        if k == 'cstr':
            return ('cstr', decode_cstr(v))
        if k == 'word':
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v in ('null', 'undef', 'poison', 'zeroinitializer', 'none'): return (v,)
            if v in ('getelementptr',):
                self.acc('inbounds'); self.exp('(')
                st = self.type(); self.exp(',')
                ops = [self.typed()]
                while self.acc(','):
                    ops.append(self.typed())
                self.exp(')')
                return ('cgep', st, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('('); a = self.typed(); self.exp('to'); t = self.type(); self.exp(')')
                return ('ccast', v, a, t)
            if v in ('sub', 'add', 'mul', 'xor'):
                while self.peek()[1] in ('nsw', 'nuw'): self.next()
                self.exp('('); a = self.typed(); self.exp(','); b = self.typed(); self.exp(')')
                return ('cbin', v, a, b)
            if v == 'inrange': return self.value(ty)
        if v == '{' or v == '[':
            close = '}' if v == '{' else ']'
            xs = []
            if not self.acc(close):
                xs.append(self.typed())
                while self.acc(','): xs.append(self.typed())
                self.exp(close)
            return ('agg', xs)
        if v == '<':
            xs = []
            if self.acc('{'):
                xs.append(self.typed())
                while self.acc(','): xs.append(self.typed())
                self.exp('}'); self.exp('>')
            else:
                xs.append(self.typed())
                while self.acc(','): xs.append(self.typed())
                self.exp('>')
            return ('agg', xs)
        if k == 'md':
            return ('md', v)
        raise SyntaxError('value %r' % ((k, v),))

    def typed(self):
        if self.peek()[1] == 'inrange': self.next()
        t = self.type()
        self.skip_attrs()
        if t.k == 'metadata':
            # swallow metadata operand
            d = 0
            while True:
                w = self.peek()[1]
                if d == 0 and w in (',', ')'): break
                if self.peek()[0] == 'eof': break
                if w == '(': d += 1
                if w == ')': d -= 1
                self.next()
            return (t, ('md', None))
        return (t, self.value(t))


def decode_cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.extend(s[i].encode('latin-1', 'replace')); i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text', 'flags', 'x')

    def __init__(self, op, res, text):
        self.op, self.res, self.text = op, res, text
        self.ty = None; self.a = []; self.dbg = None; self.flags = set(); self.x = None

    def __repr__(self): return self.text


class Fn:
    def __init__(self, name):
        self.name = name; self.params = []; self.ret = None; self.blocks = {}; self.order = []; self.entry = None
        self.dbg = None; self.vararg = False; self._loops = None; self.defined = False


class Module:
    def __init__(self, text):
        self.text = text
        self.types = {}
        self.type_text = {}
        self.globals = {}
        self.fn_text = {}
        self.alias = {}
        self.decl_text = {}
        self.md = {}
        self.fns = {}
        self._scan()

    def _scan(self):
        lines = self.text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            L = lines[i]
            c = L[:1]
            if c == '%':
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)$', L)
                if m: self.type_text[m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', L)
                if m:
                    al = re.match(r'(?:[\w ]*?)\balias\b.*, ptr (@"[^"]*"|@[-\w.$]+)', m.group(2))
                    if al: self.alias[m.group(1)] = al.group(1)
                    else: self.globals[m.group(1)] = m.group(2)
            elif c == 'd' and L.startswith('define '):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', L)
                j = i + 1
                while lines[j] != '}': j += 1
                self.fn_text[m.group(1)] = (L, lines[i + 1:j])
                i = j
            elif c == 'd' and L.startswith('declare '):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', L)
                self.decl_text[m.group(1)] = L
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', L)
                if m: self.md[int(m.group(1))] = m.group(2)
            i += 1
        self.text = None
        self._dem = None

    # ---- types -----------------------------------------------------------
    def named_type(self, nm):
        if nm in self.types: return self.types[nm]
        t = Ty('struct', fields=None, name=nm)
        self.types[nm] = t
        txt = self.type_text.get(nm)
        if txt is None or txt.strip() == 'opaque':
            t.fields = []; return t
        p = Parser(self, txt)
        u = p.type()
        t.fields, t.packed = u.fields, u.packed
        return t

    def align(self, t):
        if t.k == 'int': return max(1, min(16, (t.bits + 7) // 8))
        if t.k == 'float': return 4
        if t.k in ('double', 'ptr'): return 8
        if t.k == 'fp80': return 16
        if t.k in ('array', 'vector'): return self.align(t.elt)
        if t.k == 'struct':
            if t.packed: return 1
            return max([1] + [self.align(f) for f in t.fields])
        return 1

    def size(self, t):
        if t.k == 'int': return (t.bits + 7) // 8
        if t.k == 'float': return 4
        if t.k in ('double', 'ptr'): return 8
        if t.k == 'fp80': return 16
        if t.k in ('array', 'vector'): return t.n * self.size(t.elt)
        if t.k == 'struct':
            o = self.offsets(t)
            return o[-1]
        raise ValueError('size of %r' % t)

    def offsets(self, t):
        o = 0; out = []
        for f in t.fields:
            if not t.packed:
                a = self.align(f); o = (o + a - 1) // a * a
            out.append(o); o += self.size(f)
        if not t.packed:
            a = self.align(t); o = (o + a - 1) // a * a
        out.append(o)
        return out

    # ---- debug info: struct members by name ---------------------------------
    def members(self, ident):
        """byte offsets of data members of the composite type whose DWARF identifier or name matches"""
        if not hasattr(self, '_comp'):
            self._comp = {}
            for k, v in self.md.items():
                if 'DICompositeType' in v and 'elements:' in v:
                    m = re.search(r'identifier: "([^"]*)"', v)
                    if m: self._comp[m.group(1)] = v
                    m = re.search(r'name: "([^"]*)"', v)
                    if m: self._comp.setdefault(m.group(1), v)
        v = self._comp.get(ident)
        if v is None: raise KeyError('no debug type ' + ident)
        el = int(re.search(r'elements: !(\d+)', v).group(1))
        out = {}
        for r in re.findall(r'!(\d+)', self.md[el]):
            e = self.md[int(r)]
            if 'DW_TAG_member' in e and 'DIFlagStaticMember' not in e:
                nm = re.search(r'name: "([^"]*)"', e)
                off = re.search(r'offset: (\d+)', e)
                if nm: out[nm.group(1)] = (int(off.group(1)) if off else 0) // 8
        return out

    def line(self, dbg):
        if dbg is None: return 0
        m = re.search(r'line: (\d+)', self.md.get(dbg, ''))
        return int(m.group(1)) if m else 0

    # ---- demangled names ------------------------------------------------------
    def demangled(self):
        if self._dem is None:
            import subprocess
            names = list(self.fn_text) + list(self.decl_text) + list(self.alias)
            raw = [x[1:].strip('"') for x in names]
            r = subprocess.run(['c++filt'], input='\n'.join(raw), capture_output=True, text=True)
            outs = r.stdout.split('\n')
            bad = [k for k, b in enumerate(outs[:len(raw)]) if b.startswith('_Z')]
            if bad:
                r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(raw[k] for k in bad), capture_output=True, text=True)
                for k, b in zip(bad, r.stdout.split('\n')): outs[k] = b.replace('>>', '> >').replace('>>', '> >')
            self._dem = {}
            for a, b in zip(names, outs): self._dem[a] = short_cxx(b)
            self._rev = {}
            for a, b in self._dem.items(): self._rev.setdefault(b, []).append(a)
        return self._dem

    def dem(self, nm):
        return self.demangled().get(nm, nm)

    def find(self, sig):
        """mangled name of the defined function whose (shortened) demangled signature is sig"""
        self.demangled()
        c = [x for x in self._rev.get(sig, []) if x in self.fn_text]
        # constructors: C1 and C2 demangle alike; prefer C2 (the body)
        c2 = [x for x in c if 'C2E' in x or 'D2E' in x]
        if c2: return c2[0]
        if not c: raise KeyError(sig)
        return c[0]

    def has(self, sig):
        try:
            self.find(sig); return True
        except KeyError:
            return False

    # ---- globals -----------------------------------------------------------------
    def global_def(self, nm):
        """(type, initializer value or None, is_constant)"""
        txt = self.globals.get(nm)
        if txt is None: return None
        m = re.search(r'\b(global|constant)\b (.*)$', txt)
        if not m: return None
        const = m.group(1) == 'constant'
        ext = bool(re.match(r'(external|available_externally)', txt))
        body = re.sub(r', !dbg ![0-9]+', '', m.group(2))
        body = re.sub(r', comdat(\([^)]*\))?', '', body)
        p = Parser(self, re.sub(r', align \d+$', '', body))
        t = p.type()
        init = None
        if not ext and p.peek()[0] != 'eof':
            init = p.value(t)
        return t, init, const

    # ---- functions ------------------------------------------------------------------
    def fn(self, nm):
        nm = self.alias.get(nm, nm)
        if nm in self.fns: return self.fns[nm]
        if nm not in self.fn_text: return None
        head, body = self.fn_text[nm]
        f = Fn(nm); f.defined = True
        m = re.search(r'!dbg !(\d+)', head)
        f.dbg = int(m.group(1)) if m else None
        h = head[len('define '):]
        h = h[:h.rindex('{')] if '{' in h else h
        p = Parser(self, h)
        p.skip_attrs()
        f.ret = p.type()
        p.skip_attrs()
        assert p.next()[0] == 'glob', head
        p.exp('(')
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    f.vararg = True
                else:
                    t = p.type(); at = p.skip_attrs()
                    name = p.next()[1] if p.peek()[0] == 'reg' else '%' + str(len(f.params))
                    f.params.append((t, name, at))
                if not p.acc(','): break
            p.exp(')')
        cur = None
        k = 0
        while k < len(body):
            L = body[k]; k += 1
            if not L.strip(): continue
            if L[0] not in ' \t':
                m = re.match(r'("[^"]*"|[-\w.$]+):', L)
                if not m: continue
                cur = m.group(1).strip('"')
                f.blocks[cur] = []; f.order.append(cur)
                if f.entry is None: f.entry = cur
                continue
            if cur is None:
                cur = 'entry0'; f.blocks[cur] = []; f.order.append(cur); f.entry = cur
            # join continued lines (switch, landingpad, invoke)
            s = L.strip()
            if s.startswith('#dbg') or s.startswith(';'): continue
            if s.startswith('switch') and s.rstrip().endswith('['):
                while not body[k].strip().startswith(']'):
                    s += ' ' + body[k].strip(); k += 1
                s += ' ' + body[k].strip(); k += 1
            while k < len(body) and re.match(r'\s+(to label|cleanup|catch|filter)\b', body[k]):
                s += ' ' + body[k].strip(); k += 1
            f.blocks[cur].append(self.inst(s))
        self.fns[nm] = f
        return f

    def inst(self, s):
        m = re.search(r', !dbg !(\d+)', s)
        dbg = int(m.group(1)) if m else None
        t = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', s)
        p = Parser(self, t)
        res = None
        if p.peek()[0] == 'reg' and p.peek(1)[1] == '=':
            res = p.next()[1]; p.next()
        op = p.next()[1]
        while op in ('tail', 'notail', 'musttail'): op = p.next()[1]
        I = Inst(op, res, s); I.dbg = dbg
        if op == 'alloca':
            I.ty = p.type()
            if p.acc(','):
                if p.peek()[1] != 'align':
                    I.x = p.typed()
        elif op == 'load':
            for w in ('atomic', 'volatile'):
                if p.acc(w): I.flags.add(w)
            I.ty = p.type(); p.exp(','); I.a = [p.typed()]
        elif op == 'store':
            for w in ('atomic', 'volatile'):
                if p.acc(w): I.flags.add(w)
            v = p.typed(); p.exp(','); I.a = [v, p.typed()]
        elif op == 'getelementptr':
            if p.acc('inbounds'): I.flags.add('inbounds')
            I.ty = p.type(); p.exp(',')
            I.a = [p.typed()]
            while p.acc(','): I.a.append(p.typed())
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'contract', 'nnan', 'ninf', 'nsz', 'arcp', 'afn', 'reassoc'):
                I.flags.add(p.next()[1])
            I.ty = p.type(); a = p.value(I.ty); p.exp(','); b = p.value(I.ty)
            I.a = [(I.ty, a), (I.ty, b)]
        elif op == 'fneg':
            p.skip_attrs(); I.ty = p.type(); I.a = [(I.ty, p.value(I.ty))]
        elif op in ('icmp', 'fcmp'):
            p.skip_attrs()
            I.x = p.next()[1]; t_ = p.type(); a = p.value(t_); p.exp(','); b = p.value(t_)
            I.a = [(t_, a), (t_, b)]; I.ty = INT[1]
        elif op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
            a = p.typed(); p.exp('to'); I.ty = p.type(); I.a = [a]
        elif op == 'br':
            if p.peek()[1] == 'label':
                p.next(); I.x = [p.next()[1][1:].strip('"')]
            else:
                c = p.typed(); p.exp(','); p.exp('label'); a = p.next()[1][1:].strip('"'); p.exp(','); p.exp('label'); b = p.next()[1][1:].strip('"')
                I.a = [c]; I.x = [a, b]
        elif op == 'switch':
            v = p.typed(); p.exp(','); p.exp('label'); d = p.next()[1][1:].strip('"'); p.exp('[')
            cs = []
            while not p.acc(']'):
                c = p.typed(); p.exp(','); p.exp('label'); cs.append((c, p.next()[1][1:].strip('"')))
            I.a = [v]; I.x = (d, cs)
        elif op == 'ret':
            if p.acc('void'): I.a = []
            else: I.a = [p.typed()]
        elif op == 'phi':
            p.skip_attrs()
            I.ty = p.type(); I.x = []
            while True:
                p.exp('['); v = p.value(I.ty); p.exp(','); l = p.next()[1][1:].strip('"'); p.exp(']')
                I.x.append((v, l))
                if not p.acc(','): break
        elif op == 'select':
            p.skip_attrs()
            I.a = [p.typed()]; p.exp(','); I.a.append(p.typed()); p.exp(','); I.a.append(p.typed())
            I.ty = I.a[1][0]
        elif op in ('call', 'invoke'):
            p.skip_attrs()
            rt = p.type()
            if rt.k == 'fn': rt = rt.elt
            I.ty = rt
            p.skip_attrs()
            k, v = p.next()
            callee = ('glob', v) if k == 'glob' else ('reg', v)
            if v == 'asm': callee = ('asm', v); I.x = (callee, None, None); I.a = []; return I
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    t_ = p.type(); at = p.skip_attrs()
                    if t_.k == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek()[1] in (',', ')')):
                            w = p.next()[1]
                            d += (w == '(') - (w == ')')
                        args.append((t_, ('md', None), at))
                    else:
                        args.append((t_, p.value(t_), at))
                    if not p.acc(','): break
                p.exp(')')
            nl = ul = None
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.exp('to'); p.exp('label'); nl = p.next()[1][1:].strip('"'); p.exp('unwind'); p.exp('label'); ul = p.next()[1][1:].strip('"')
            I.a = args; I.x = (callee, nl, ul)
        elif op == 'extractvalue':
            I.a = [p.typed()]; idx = []
            while p.acc(','): idx.append(int(p.next()[1]))
            I.x = idx
        elif op == 'insertvalue':
            I.a = [p.typed()]; p.exp(','); I.a.append(p.typed()); idx = []
            while p.acc(','): idx.append(int(p.next()[1]))
            I.x = idx; I.ty = I.a[0][0]
        elif op in ('landingpad', 'resume', 'unreachable', 'fence', 'cmpxchg', 'atomicrmw', 'va_arg', 'freeze', 'extractelement', 'insertelement', 'shufflevector'):
            if op == 'freeze': I.a = [p.typed()]; I.ty = I.a[0][0]
            if op == 'va_arg': I.a = [p.typed()]; p.exp(','); I.ty = p.type()
        else:
            raise SyntaxError('op ' + op + ': ' + s)
        return I


def short_cxx(b):
    b = b.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string')
    b = b.replace('std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >', 'wstring')
    b = b.replace('std::map<string, double, std::less<string >, std::allocator<std::pair<string const, double> > >', 'STRDBL_MAP')
    b = b.replace('std::map<string, string, std::less<string >, std::allocator<std::pair<string const, string > > >', 'STRING_MAP')
    b = b.replace('std::map<string, double*, std::less<string >, std::allocator<std::pair<string const, double*> > >', 'STRPDBL_MAP')
    b = b.replace('std::map<int, int, std::less<int>, std::allocator<std::pair<int const, int> > >', 'INTINT_MAP')
    b = b.replace('std::map<long, std::vector<double, std::allocator<double> >, std::less<long>, std::allocator<std::pair<long const, std::vector<double, std::allocator<double> > > > >', 'RECLS_MAP')
    b = b.replace('std::map<int, ccgl::data_raster::SubsetPositions*, std::less<int>, std::allocator<std::pair<int const, ccgl::data_raster::SubsetPositions*> > >', 'SUBSET_MAP')
    b = re.sub(r'std::vector<([a-z ]+), std::allocator<\1 ?> ?>', r'vector<\1>', b)
    b = b.replace('ccgl::data_raster::', '').replace('ccgl::utils_array::', '').replace('ccgl::utils_math::', '') \
         .replace('ccgl::utils_string::', '').replace('ccgl::utils_time::', '').replace('ccgl::utils_filesystem::', '').replace('ccgl::', '')
    b = b.replace('[abi:cxx11]', '')
    return b
