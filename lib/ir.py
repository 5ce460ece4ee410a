"""Textual LLVM-IR reader (LLVM 18): just enough of the language for the
IR that clang emits for this library.  No execution happens here."""
import re

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cmt>;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
 | (?P<md>![a-zA-Z_.0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<p>[=,(){}\[\]<>*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        k = m(s, pos)
        if not k:
            raise IRError('tokenize: ' + s[pos:pos + 60])
        pos = k.end()
        g = k.lastgroup
        if g == 'ws' or g == 'cmt':
            continue
        out.append((g, k.group()))
    return out


# ---- types -----------------------------------------------------------------
# ('i',N) ('ptr',) ('void',) ('f',bits,name) ('arr',n,T) ('st',(T..),packed)
# ('named',name) ('label',) ('meta',) ('vec',n,T) ('opaque',) ('fn',)

PTR = ('ptr',)
VOID = ('void',)


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.t[self.i] if self.i < len(self.t) else ('eof', '')
        self.i += 1
        return x

    def eat(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise IRError('expected %r got %r near %r' % (s, x, self.t[max(0, self.i - 8):self.i + 6]))

    def done(self):
        return self.i >= len(self.t)


def parse_type(p):
    k, s = p.next()
    ty = None
    if k == 'word':
        if re.match(r'i[0-9]+$', s):
            ty = ('i', int(s[1:]))
        elif s == 'ptr':
            ty = PTR
            if p.peek()[1] == 'addrspace':
                raise IRError('addrspace')
        elif s == 'void':
            ty = VOID
        elif s in ('float', 'double', 'x86_fp80', 'half', 'fp128', 'bfloat'):
            ty = ('f', {'float': 32, 'double': 64, 'x86_fp80': 80, 'half': 16, 'fp128': 128, 'bfloat': 16}[s], s)
        elif s == 'label':
            ty = ('label',)
        elif s == 'metadata':
            ty = ('meta',)
        elif s == 'opaque':
            ty = ('opaque',)
        elif s == 'token':
            ty = ('token',)
        else:
            raise IRError('type? ' + s)
    elif s == '[':
        n = int(p.next()[1])
        p.expect('x')
        t = parse_type(p)
        p.expect(']')
        ty = ('arr', n, t)
    elif s == '{':
        ts = []
        while not p.eat('}'):
            ts.append(parse_type(p))
            p.eat(',')
        ty = ('st', tuple(ts), False)
    elif s == '<':
        if p.peek()[1] == '{':
            p.next()
            ts = []
            while not p.eat('}'):
                ts.append(parse_type(p))
                p.eat(',')
            p.expect('>')
            ty = ('st', tuple(ts), True)
        else:
            n = int(p.next()[1])
            p.expect('x')
            t = parse_type(p)
            p.expect('>')
            ty = ('vec', n, t)
    elif k == 'loc':
        ty = ('named', s)
    else:
        raise IRError('type? %r' % ((k, s),))
    # function type  T (args)
    if p.peek()[1] == '(' :
        depth = 0
        while True:
            x = p.next()[1]
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
        ty = ('fn', ty)
    return ty


PARAM_ATTRS = {
    'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
    'returned', 'inreg', 'immarg', 'nofree', 'writable', 'dead_on_unwind', 'nest', 'swiftself', 'allocptr',
    'noreturn', 'nounwind', 'inrange', 'nonlazybind', 'allocalign'}
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'align',
               'captures', 'range', 'nofpclass', 'preallocated', 'inalloca', 'initializes', 'alignstack', 'memory'}


def skip_paren(p):
    depth = 0
    while True:
        x = p.next()[1]
        if x == '(':
            depth += 1
        elif x == ')':
            depth -= 1
            if depth == 0:
                return


def skip_attrs(p):
    got = {}
    while True:
        k, s = p.peek()
        if s in PARAM_ATTRS:
            p.next()
            got[s] = True
        elif s in PAREN_ATTRS:
            p.next()
            got[s] = True
            if p.peek()[1] == '(':
                if s in ('sret', 'byval'):
                    p.next()
                    got[s] = parse_type(p)
                    p.expect(')')
                else:
                    skip_paren(p)
            elif s == 'align':
                p.next()
        elif k == 'attr':
            p.next()
        else:
            return got


# ---- operands --------------------------------------------------------------
# ('l',name) ('c',int) ('g',name) ('undef',) ('poison',) ('null',) ('zero',)
# ('agg',[(ty,op)..]) ('str',bytes) ('gep',basety,(ty,op),[(ty,op)..]) ('f',text) ('ce',text,...)

def unescape(s):
    s = s[s.index('"') + 1:-1]
    out = bytearray()
    i = 0
    b = s.encode('latin1', 'replace')
    while i < len(b):
        if b[i] == 0x5c:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def parse_operand(p, ty):
    k, s = p.next()
    if k == 'loc':
        return ('l', s)
    if k == 'glob':
        return ('g', s)
    if k == 'num':
        if ty[0] == 'f':
            return ('f', s)
        return ('c', int(s))
    if k == 'str':
        return ('str', unescape(s))
    if k == 'word':
        if s == 'true':
            return ('c', 1)
        if s == 'false':
            return ('c', 0)
        if s == 'null':
            return ('null',)
        if s == 'undef':
            return ('undef',)
        if s == 'poison':
            return ('poison',)
        if s == 'zeroinitializer':
            return ('zero',)
        if s == 'none':
            return ('null',)
        if s == 'getelementptr':
            p.eat('inbounds')
            if p.peek()[1] == 'inrange':
                p.next()
                if p.peek()[1] == '(':
                    skip_paren(p)
            p.expect('(')
            bt = parse_type(p)
            p.expect(',')
            bty = parse_type(p)
            base = parse_operand(p, bty)
            idx = []
            while p.eat(','):
                p.eat('inrange')
                ity = parse_type(p)
                idx.append((ity, parse_operand(p, ity)))
            p.expect(')')
            return ('gep', bt, base, idx)
        if s in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.expect('(')
            t = parse_type(p)
            o = parse_operand(p, t)
            p.expect('to')
            t2 = parse_type(p)
            p.expect(')')
            return ('cast', s, t, o, t2)
        if s in ('add', 'sub', 'xor', 'and', 'or', 'mul', 'icmp'):
            skip_paren(p) if p.peek()[1] == '(' else None
            return ('ce', s)
        raise IRError('operand ' + s)
    if s == '{' or s == '[' or s == '<':
        close = {'{': '}', '[': ']', '<': '>'}[s]
        packed = False
        if s == '<' and p.peek()[1] == '{':
            p.next()
            packed = True
            close = '}'
        items = []
        while not p.eat(close):
            t = parse_type(p)
            items.append((t, parse_operand(p, t)))
            p.eat(',')
        if packed:
            p.expect('>')
        return ('agg', items)
    if k == 'md':
        # metadata operand: skip
        return ('md', s)
    raise IRError('operand %r' % ((k, s),))


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')

    def __init__(self, op, res, ty, a, dbg, text):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.dbg = dbg
        self.text = text


class Func:
    def __init__(self, name, ret, params, attrs, linkage, dbg):
        self.name = name
        self.ret = ret
        self.params = params      # [(ty,name,attrs)]
        self.attrs = attrs
        self.linkage = linkage
        self.dbg = dbg
        self.lines = []
        self._blocks = None
        self.order = []

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        self._blocks = {}
        cur = None
        # unnamed first block gets number = count of unnamed params
        nun = sum(1 for p in self.params if re.match(r'%[0-9]+$', p[1]))
        i = 0
        L = self.lines
        while i < len(L):
            ln = L[i]
            st = ln.strip()
            i += 1
            if not st or st[0] == ';':
                continue
            if not ln.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                if not m:
                    raise IRError('label? ' + ln)
                cur = '%' + m.group(1)
                self._blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(nun)
                self._blocks[cur] = []
                self.order.append(cur)
            if st.startswith('switch '):
                while not L[i - 1].rstrip().rstrip('!dbg0123456789 ,').endswith(']') and ']' not in st.split('[', 1)[-1]:
                    st += ' ' + L[i].strip()
                    i += 1
            elif st.startswith('invoke ') or ' = invoke ' in st:
                while 'unwind label' not in st:
                    st += ' ' + L[i].strip()
                    i += 1
            elif 'landingpad' in st:
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)\b', L[i]):
                    st += ' ' + L[i].strip()
                    i += 1
            ins = parse_inst(st)
            if ins is not None:
                self._blocks[cur].append(ins)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext',
         'fptrunc'}
FLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'inbounds', 'samesign', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc'}
CC = {'fastcc', 'ccc', 'coldcc'}
DBG = re.compile(r', !dbg !([0-9]+)')


def parse_inst(st):
    m = DBG.search(st)
    dbg = int(m.group(1)) if m else None
    # cut metadata attachments
    j = st.find(', !')
    body = st
    if j >= 0 and 'metadata' not in st:
        body = st[:j]
    elif 'metadata' in st:
        if 'llvm.dbg' in st or 'llvm.experimental.noalias' in st:
            return None
        if j >= 0:
            body = st[:st.rfind(', !dbg')] if m else st
    p = P(tokenize(body))
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BIN or op in FBIN:
        fl = set()
        while p.peek()[1] in FLAGS:
            fl.add(p.next()[1])
        ty = parse_type(p)
        a = parse_operand(p, ty)
        p.expect(',')
        b = parse_operand(p, ty)
        return Inst(op, res, ty, (a, b, fl), dbg, st)
    if op == 'fneg':
        ty = parse_type(p)
        return Inst(op, res, ty, (parse_operand(p, ty),), dbg, st)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        ty = parse_type(p)
        a = parse_operand(p, ty)
        p.expect(',')
        b = parse_operand(p, ty)
        return Inst(op, res, ty, (pred, a, b), dbg, st)
    if op in CASTS:
        while p.peek()[1] in FLAGS:
            p.next()
        ty = parse_type(p)
        a = parse_operand(p, ty)
        p.expect('to')
        t2 = parse_type(p)
        return Inst(op, res, t2, (ty, a), dbg, st)
    if op == 'br':
        ty = parse_type(p)
        if ty == ('label',):
            return Inst('br', None, None, (p.next()[1],), dbg, st)
        c = parse_operand(p, ty)
        p.expect(',')
        p.expect('label')
        t = p.next()[1]
        p.expect(',')
        p.expect('label')
        f = p.next()[1]
        return Inst('cbr', None, None, (c, t, f), dbg, st)
    if op == 'switch':
        ty = parse_type(p)
        v = parse_operand(p, ty)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            t = parse_type(p)
            c = parse_operand(p, t)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()[1]))
        return Inst('switch', None, ty, (v, d, cases), dbg, st)
    if op == 'ret':
        ty = parse_type(p)
        if ty == VOID:
            return Inst('ret', None, ty, (None,), dbg, st)
        return Inst('ret', None, ty, (parse_operand(p, ty),), dbg, st)
    if op == 'unreachable':
        return Inst(op, None, None, (), dbg, st)
    if op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_operand(p, ty)
            p.expect(',')
            inc.append((v, p.next()[1]))
            p.expect(']')
            if not p.eat(','):
                break
        return Inst('phi', res, ty, inc, dbg, st)
    if op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        ct = parse_type(p)
        c = parse_operand(p, ct)
        p.expect(',')
        ty = parse_type(p)
        a = parse_operand(p, ty)
        p.expect(',')
        parse_type(p)
        b = parse_operand(p, ty)
        return Inst('select', res, ty, (c, a, b), dbg, st)
    if op == 'freeze':
        ty = parse_type(p)
        return Inst('freeze', res, ty, (parse_operand(p, ty),), dbg, st)
    if op == 'alloca':
        p.eat('inalloca')
        ty = parse_type(p)
        n = None
        while p.eat(','):
            if p.peek()[1] == 'align':
                p.next()
                p.next()
            else:
                t = parse_type(p)
                n = parse_operand(p, t)
        return Inst('alloca', res, ty, (n,), dbg, st)
    if op == 'load':
        if p.peek()[1] in ('volatile', 'atomic'):
            p.next()
            p.eat('volatile')
        ty = parse_type(p)
        p.expect(',')
        parse_type(p)
        a = parse_operand(p, PTR)
        return Inst('load', res, ty, (a,), dbg, st)
    if op == 'store':
        if p.peek()[1] in ('volatile', 'atomic'):
            p.next()
            p.eat('volatile')
        ty = parse_type(p)
        v = parse_operand(p, ty)
        p.expect(',')
        parse_type(p)
        a = parse_operand(p, PTR)
        return Inst('store', None, ty, (v, a), dbg, st)
    if op == 'getelementptr':
        while p.peek()[1] in FLAGS:
            p.next()
        bt = parse_type(p)
        p.expect(',')
        parse_type(p)
        base = parse_operand(p, PTR)
        idx = []
        while p.eat(','):
            t = parse_type(p)
            idx.append((t, parse_operand(p, t)))
        return Inst('gep', res, PTR, (bt, base, idx), dbg, st)
    if op == 'insertvalue':
        ty = parse_type(p)
        a = parse_operand(p, ty)
        p.expect(',')
        t = parse_type(p)
        v = parse_operand(p, t)
        ix = []
        while p.eat(','):
            ix.append(int(p.next()[1]))
        return Inst(op, res, ty, (a, t, v, ix), dbg, st)
    if op == 'extractvalue':
        ty = parse_type(p)
        a = parse_operand(p, ty)
        ix = []
        while p.eat(','):
            ix.append(int(p.next()[1]))
        return Inst(op, res, ty, (a, ix), dbg, st)
    if op in ('call', 'invoke'):
        while p.peek()[1] in FLAGS or p.peek()[1] in CC:
            p.next()
        skip_attrs(p)
        ty = parse_type(p)
        k, s = p.next()
        if k not in ('glob', 'loc'):
            if s == 'asm':
                return Inst('asm', res, ty, (), dbg, st)
            raise IRError('callee ' + st)
        p.expect('(')
        args = []
        while not p.eat(')'):
            t = parse_type(p)
            skip_attrs(p)
            args.append((t, parse_operand(p, t)))
            p.eat(',')
        norm = unw = None
        attr = set()
        while not p.done():
            kk, ss = p.next()
            if kk == 'attr':
                attr.add(ss)
            if ss == 'to':
                p.expect('label')
                norm = p.next()[1]
            elif ss == 'unwind':
                p.expect('label')
                unw = p.next()[1]
        if ty[0] == 'fn':
            ty = ty[1]
        return Inst(op, res, ty, (s, args, norm, unw, attr), dbg, st)
    if op == 'landingpad':
        ty = parse_type(p)
        cl = []
        while not p.done():
            w = p.next()[1]
            if w == 'cleanup':
                cl.append(('cleanup',))
            elif w == 'catch':
                t = parse_type(p)
                cl.append(('catch', parse_operand(p, t)))
            elif w == 'filter':
                t = parse_type(p)
                cl.append(('filter', parse_operand(p, t)))
        return Inst(op, res, ty, (cl,), dbg, st)
    if op == 'resume':
        return Inst(op, None, None, (), dbg, st)
    return Inst('other:' + op, res, None, (), dbg, st)


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'text')

    def __init__(self, name, ty, init, const, text):
        self.name, self.ty, self.init, self.const, self.text = name, ty, init, const, text


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self.attrs = {}
        self._layout = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == ';':
                continue
            if c == '%':
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
                continue
            if c == '@':
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.globals[m.group(1)] = m.group(2)
                continue
            if c == '!':
                m = re.match(r'!([0-9]+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
                continue
            if ln.startswith('attributes'):
                m = re.match(r'attributes (#[0-9]+) = \{(.*)\}', ln)
                if m:
                    self.attrs[m.group(1)] = m.group(2)
                continue
            if ln.startswith('define'):
                f = self._header(ln)
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                f.lines = body
                self.funcs[f.name] = f
                continue
            if ln.startswith('declare'):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1)] = ln

    def _header(self, ln):
        m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(1)
        pre = ln[:m.start()]
        dm = re.search(r'!dbg !([0-9]+)', ln)
        rest = re.sub(r' comdat(\(\$("[^"]*"|[-a-zA-Z$._0-9]+)\))?', '', ln[m.end() - 1:])
        linkage = 'internal' if ' internal ' in pre else 'external'
        # parse params
        p = P(tokenize(rest[:rest.rfind('{')]))
        p.expect('(')
        params = []
        idx = 0
        while not p.eat(')'):
            if p.peek()[0] == 'dots':
                p.next()
                continue
            t = parse_type(p)
            at = skip_attrs(p)
            if p.peek()[0] == 'loc':
                nm = p.next()[1]
            else:
                nm = '%' + str(idx)
                idx += 1
            params.append((t, nm, at))
            p.eat(',')
        at = re.findall(r'#[0-9]+', rest)
        # return type: last type in pre
        q = P(tokenize(pre))
        ret = None
        toks = q.t
        # scan: find first parsable type token after keywords
        kws = {'define', 'dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'hidden', 'private', 'external',
               'available_externally', 'linkonce', 'weak', 'protected', 'fastcc', 'unnamed_addr', 'local_unnamed_addr'}
        while q.peek()[1] in kws:
            q.next()
        skip_attrs(q)
        ret = parse_type(q)
        return Func(name, ret, params, at, linkage, int(dm.group(1)) if dm else None)

    # -- types/layout
    def resolve(self, ty):
        if ty[0] == 'named':
            t = self.types.get(ty[1])
            if t is None:
                raise IRError('unknown type ' + ty[1])
            if isinstance(t, str):
                t = parse_type(P(tokenize(t)))
                self.types[ty[1]] = t
            return t
        return ty

    def size_align(self, ty):
        r = self._layout.get(ty)
        if r is not None:
            return r
        t = self.resolve(ty)
        k = t[0]
        if k == 'i':
            n = t[1]
            b = (n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            r = ((b + a - 1) // a * a, a)
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'f':
            r = {32: (4, 4), 64: (8, 8), 80: (16, 16), 16: (2, 2), 128: (16, 16)}[t[1]]
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'st':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            raise IRError('size of %r' % (t,))
        self._layout[ty] = r
        return r

    def field_off(self, ty, i):
        t = self.resolve(ty)
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise IRError('field')

    def glob(self, name):
        g = self.globals.get(name)
        if isinstance(g, str):
            s = g
            m = re.match(r'((?:private|internal|linkonce_odr|weak_odr|external|dso_local|hidden|unnamed_addr|local_unnamed_addr|constant|global|thread_local|linkonce|weak|available_externally|common|appending)(?:\([a-z]*\))?\s+)*', s)
            kw = m.group(0)
            rest = s[m.end():]
            const = 'constant' in kw
            ext = 'external' in kw.split()
            p = P(tokenize(rest))
            ty = parse_type(p)
            init = None
            if not ext:
                try:
                    init = parse_operand(p, ty)
                except IRError:
                    init = None
            g = Global(name, ty, init, const, s)
            self.globals[name] = g
        return g

    # -- debug locations
    def loc(self, dbg):
        """-> list of (line, scope-file, function) innermost first"""
        out = []
        while dbg is not None:
            d = self.md.get(dbg)
            if d is None:
                break
            m = re.search(r'DILocation\(line: ([0-9]+)', d)
            if not m:
                break
            line = int(m.group(1))
            sc = re.search(r'scope: !([0-9]+)', d)
            fn, fl = self._scope(int(sc.group(1)))
            out.append((line, fl, fn))
            ia = re.search(r'inlinedAt: !([0-9]+)', d)
            dbg = int(ia.group(1)) if ia else None
        return out

    def lib_functions(self):
        """library functions (file:name) that the lowered code contains, from the debug scopes"""
        out = set()
        for k, d in self.md.items():
            if 'DISubprogram(' in d:
                fn, fl = self._scope(k)
                if fl and '/boost/safe_numerics/' in fl:
                    out.add(fl[fl.index('/boost/safe_numerics/') + 21:] + ':' + fn)
        return out

    def _scope(self, s):
        fl = None
        while True:
            d = self.md.get(s, '')
            if fl is None:
                f = re.search(r'\bfile: !([0-9]+)', d)
                if f:
                    fd = self.md.get(int(f.group(1)), '')
                    m = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', fd)
                    if m:
                        fl = m.group(1)
            if 'DISubprogram' in d:
                m = re.search(r'name: "((?:[^"\\]|\\.)*)"', d)
                return (m.group(1) if m else '?'), fl
            m = re.search(r'scope: !([0-9]+)', d)
            if not m:
                return '?', fl
            s = int(m.group(1))
