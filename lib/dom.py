"""Abstract domain: disjuncts of integer constraint systems.

An abstract value of an iN register is a polynomial over *atoms*; the machine
value is that polynomial modulo 2^N.  Atoms are the inputs of the analysed
function and hash-consed non-linear terms (quotients, bitwise ands, ...).
A Store maps linear forms (over monomials) to integer intervals.  All
arithmetic is exact (Python integers); there is no solver: entailment is
interval evaluation + bounded linear combination of stored forms, and the
division lemma described in DESIGN.md.
"""
from math import gcd


class Infeasible(Exception):
    pass


class Imprecise(Exception):
    """the domain cannot express the operation; the obligation is undecided"""


# ---------------------------------------------------------------- atoms
ATOMS = []          # id -> (kind, args)
_INTERN = {}


def atom(kind, *args):
    k = (kind,) + tuple(a.key() if isinstance(a, Poly) else a for a in args)
    i = _INTERN.get(k)
    if i is None:
        i = len(ATOMS)
        ATOMS.append((kind, args))
        _INTERN[k] = i
    return i


def reset():
    ATOMS.clear()
    _INTERN.clear()


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('d', '_k')

    def __init__(self, d):
        self.d = d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def const(self):
        """int if constant else None"""
        d = self.d
        if not d:
            return 0
        if len(d) == 1 and () in d:
            return d[()]
        return None

    def c0(self):
        return self.d.get((), 0)

    def __add__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            d = dict(self.d)
            v = d.get((), 0) + o
            if v:
                d[()] = v
            else:
                d.pop((), None)
            return Poly(d)
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            if o == 1:
                return self
            return Poly({m: c * o for m, c in self.d.items()})
        k = o.const()
        if k is not None:
            return self * k
        k = self.const()
        if k is not None:
            return o * k
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2))
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return Poly(d)

    __rmul__ = __mul__

    def monos(self):
        return [m for m in self.d if m]

    def atoms(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def __repr__(self):
        return show(self)


ZERO = Poly({})
ONE = Poly({(): 1})


def K(c):
    return Poly({(): c}) if c else ZERO


def A(i):
    return Poly({(i,): 1})


NAMES = {}


def show_atom(i):
    k, a = ATOMS[i]
    if k == 'in':
        return a[0]
    if k == 'unk':
        return '?%s' % (a[0],)
    return '%s(%s)' % (k, ','.join(show(x) if isinstance(x, Poly) else str(x) for x in a))


def show(p):
    if not p.d:
        return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda x: (len(x[0]), x[0])):
        s = '*'.join(show_atom(i) for i in m)
        if not m:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%d*%s' % (c, s))
    return ' + '.join(out).replace('+ -', '- ')


def normform(p):
    """p without constant -> (key, g, sign, c0): p = sign*g*form + c0"""
    items = sorted((m, c) for m, c in p.d.items() if m)
    g = 0
    for _, c in items:
        g = gcd(g, c)
    if not items:
        return None
    s = 1 if items[0][1] > 0 else -1
    if g == 1 and s == 1:
        return tuple(items), 1, 1
    return tuple((m, c // g * s) for m, c in items), g, s


INF = None


def fdiv_(a, b):
    return a // b


def cdiv_(a, b):
    return -((-a) // b)


class Store:
    __slots__ = ('cons', 'multi', '_memo', 'lemmas')

    def __init__(self):
        self.cons = {}        # form key -> (lo,hi)
        self.multi = {}       # mono -> tuple of multi-term form keys containing it
        self._memo = {}
        self.lemmas = {}      # atom id of tdiv -> (n,d)

    def copy(self):
        s = Store.__new__(Store)
        s.cons = dict(self.cons)
        s.multi = dict(self.multi)
        s._memo = dict(self._memo)
        s.lemmas = dict(self.lemmas)
        return s

    # ---- bounds ------------------------------------------------------
    def mono_bounds(self, m):
        b = self.cons.get(((m, 1),))
        if len(m) == 1:
            return b if b else (None, None)
        # product
        lo = hi = None
        if len(m) == 2 and m[0] == m[1]:
            l, h = self.mono_bounds((m[0],))
            if l is not None and h is not None:
                c = [l * l, h * h]
                hi = max(c)
                lo = 0 if l <= 0 <= h else min(c)
        else:
            l1, h1 = self.mono_bounds(m[:1])
            l2, h2 = self.mono_bounds(m[1:])
            if None not in (l1, h1, l2, h2):
                c = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
                lo, hi = min(c), max(c)
        if b:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        return lo, hi

    def _base(self, d):
        lo = hi = d.get((), 0)
        for m, c in d.items():
            if not m:
                continue
            l, h = self.mono_bounds(m)
            if c < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + c * l
            hi = None if (hi is None or h is None) else hi + c * h
        return lo, hi

    def bounds(self, p, depth=2):
        d = p.d
        if not d:
            return 0, 0
        if len(d) == 1:
            (m, c), = d.items()
            if not m:
                return c, c
            l, h = self.mono_bounds(m)
            if len(m) > 1 and m in self.multi:
                pass
            else:
                if c < 0:
                    l, h = h, l
                return (None if l is None else l * c), (None if h is None else h * c)
        k = (p.key(), depth)
        r = self._memo.get(k)
        if r is not None:
            return r
        lo, hi = self._base(d)
        nf = normform(p)
        key, g, s = nf
        c0 = d.get((), 0)
        b = self.cons.get(key)
        if b:
            l, h = b
            if s < 0:
                l, h = (None if h is None else -h), (None if l is None else -l)
            if l is not None:
                v = l * g + c0
                if lo is None or v > lo:
                    lo = v
            if h is not None:
                v = h * g + c0
                if hi is None or v < hi:
                    hi = v
        if depth > 0:
            seen = set()
            for m in list(d):
                if not m:
                    continue
                for fk in self.multi.get(m, ()):
                    if fk == key:
                        continue
                    for fm, fc in fk:
                        pc = d.get(fm)
                        if not pc or pc % fc:
                            continue
                        q = pc // fc
                        if (fk, q) in seen:
                            continue
                        seen.add((fk, q))
                        rest = p - Poly(dict(fk)) * q
                        rl, rh = self.bounds(rest, depth - 1)
                        l, h = self.cons[fk]
                        if q < 0:
                            l, h = h, l
                        if l is not None and rl is not None:
                            v = l * q + rl
                            if lo is None or v > lo:
                                lo = v
                        if h is not None and rh is not None:
                            v = h * q + rh
                            if hi is None or v < hi:
                                hi = v
        self._memo[k] = (lo, hi)
        return lo, hi

    def simp(self, p):
        """replace atoms with singleton bounds by their value"""
        sub = None
        for m in p.d:
            for a in m:
                b = self.cons.get((((a,), 1),))
                if b and b[0] is not None and b[0] == b[1]:
                    if sub is None:
                        sub = {}
                    sub[a] = b[0]
        if not sub:
            return p
        out = ZERO
        for m, c in p.d.items():
            rest = []
            for a in m:
                if a in sub:
                    c *= sub[a]
                else:
                    rest.append(a)
            if c:
                out = out + Poly({tuple(rest): c})
        return out

    # ---- adding constraints -----------------------------------------
    def assume(self, p, lo, hi, fuel=None):
        """constrain lo <= p <= hi ; raise Infeasible"""
        if fuel is None:
            fuel = [60]
        work = [(p, lo, hi)]
        while work:
            p, lo, hi = work.pop()
            self._assume1(p, lo, hi, work, fuel)

    def _assume1(self, p, lo, hi, work, fuel):
        p = self.simp(p)
        c = p.const()
        if c is not None:
            if (lo is not None and c < lo) or (hi is not None and c > hi):
                raise Infeasible()
            return
        # infeasible with respect to what is known?
        bl, bh = self.bounds(p)
        if (lo is not None and bh is not None and bh < lo) or (hi is not None and bl is not None and bl > hi):
            raise Infeasible()
        if (lo is None or (bl is not None and bl >= lo)) and (hi is None or (bh is not None and bh <= hi)):
            if len(p.d) == 1:
                return
            # entailed already: nothing new
            nf0 = normform(p)[0]
            if nf0 in self.cons or len(nf0) > 1:
                return
        key, g, s = normform(p)
        c0 = p.c0()
        l = None if lo is None else lo - c0
        h = None if hi is None else hi - c0
        if s < 0:
            l, h = (None if h is None else -h), (None if l is None else -l)
        if l is not None:
            l = cdiv_(l, g)
        if h is not None:
            h = fdiv_(h, g)
        old = self.cons.get(key)
        nl, nh = l, h
        if old:
            if nl is None or (old[0] is not None and old[0] > nl):
                nl = old[0]
            if nh is None or (old[1] is not None and old[1] < nh):
                nh = old[1]
        if len(key) == 1 and len(key[0][0]) > 1:
            ml, mh = self.mono_bounds(key[0][0])
            if nl is None or (ml is not None and ml > nl):
                nl = ml
            if nh is None or (mh is not None and mh < nh):
                nh = mh
        if nl is not None and nh is not None and nl > nh:
            raise Infeasible()
        if old == (nl, nh):
            return
        self.cons[key] = (nl, nh)
        self._memo = {}
        if len(key) > 1 and not old:
            for m, _ in key:
                self.multi[m] = self.multi.get(m, ()) + (key,)
        fuel[0] -= 1
        if fuel[0] <= 0:
            return
        self._propagate(key, work, fuel)

    def _propagate(self, key, work, fuel):
        nl, nh = self.cons[key]
        form = Poly(dict(key))
        if len(key) > 1:
            # tighten each monomial from the others
            for m, c in key:
                rest = Poly({mm: cc for mm, cc in key if mm != m})
                rl, rh = self._base(rest.d)
                lo = None if (nl is None or rh is None) else nl - rh
                hi = None if (nh is None or rl is None) else nh - rl
                if lo is None and hi is None:
                    continue
                if c < 0:
                    lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
                ac = abs(c)
                lo = None if lo is None else cdiv_(lo, ac)
                hi = None if hi is None else fdiv_(hi, ac)
                ml, mh = self.mono_bounds(m)
                if (lo is not None and (ml is None or lo > ml)) or (hi is not None and (mh is None or hi < mh)):
                    work.append((Poly({m: 1}), lo, hi))
        else:
            m = key[0][0]
            # forms containing this mono
            ms = [m]
            if len(m) == 1:
                a = m[0]
                for mm in list(self.multi):
                    if len(mm) > 1 and a in mm:
                        ms.append(mm)
                        # singleton: product becomes linear
                        if nl is not None and nl == nh:
                            rest = list(mm)
                            rest.remove(a)
                            work.append((Poly({mm: 1}) - Poly({tuple(rest): 1}) * nl, 0, 0))
            for mm in ms:
                for fk in self.multi.get(mm, ()):
                    l, h = self.cons[fk]
                    bl, bh = self._base(dict(fk))
                    if (l is not None and bh is not None and bh < l) or (h is not None and bl is not None and bl > h):
                        raise Infeasible()
                    # re-tighten
                    if fuel[0] > 0:
                        for m2, c in fk:
                            if m2 == mm:
                                continue
                            ol, oh = self.mono_bounds(m2)
                            mb_l, mb_h = self._base({x: y for x, y in fk if x != m2})
                            lo = None if (l is None or mb_h is None) else l - mb_h
                            hi = None if (h is None or mb_l is None) else h - mb_l
                            if c < 0:
                                lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
                            ac = abs(c)
                            lo = None if lo is None else cdiv_(lo, ac)
                            hi = None if hi is None else fdiv_(hi, ac)
                            if (lo is not None and (ol is None or lo > ol)) or (
                                    hi is not None and (oh is None or hi < oh)):
                                work.append((Poly({m2: 1}), lo, hi))
            # a factor became a constant: products that mention it are linear now
            if len(m) == 1 and nl is not None and nl == nh:
                a = m[0]
                for fk in list(self.cons):
                    if len(fk) == 1 and len(fk[0][0]) > 1 and a in fk[0][0]:
                        rest = list(fk[0][0])
                        rest.remove(a)
                        l, h = self.cons[fk]
                        work.append((Poly({tuple(rest): 1}) * nl, l, h))
            # products that mention the atom: still possible?  and what do they say on the other factor?
            if len(m) == 1 and not (nl is not None and nl == nh):
                a = m[0]
                for fk in list(self.cons):
                    if len(fk) == 1 and len(fk[0][0]) == 2 and a in fk[0][0]:
                        mm = fk[0][0]
                        pl, ph = self.mono_bounds(mm)
                        if pl is not None and ph is not None and pl > ph:
                            raise Infeasible()
                        o = mm[1] if mm[0] == a else mm[0]
                        if nl is not None and nl > 0 and o != a and ph is not None and ph >= 0:
                            ol, oh = self.mono_bounds((o,))
                            if oh is None or oh > ph // nl:
                                work.append((Poly({(o,): 1}), None, ph // nl))
        # division lemma
        for m, c in key:
            if len(m) == 1 and m[0] in self.lemmas:
                self._lemma(m[0], c, form, nl, nh, work)
        if len(key) == 1 and len(key[0][0]) == 1 and self.lemmas:
            # a sign may just have become known: re-run the lemma on forms that mention quotients
            a = key[0][0][0]
            for q, (n, dd) in self.lemmas.items():
                if a in dd.atoms() or a in n.atoms():
                    for fk in self.multi.get((q,), ()):
                        l, h = self.cons[fk]
                        cc = dict(fk)[(q,)]
                        self._lemma(q, cc, Poly(dict(fk)), l, h, work)

    def _lemma(self, q, c, form, nl, nh, work):
        """q = floor(n/d), n>=0, d>0; form = c*q + rest, nl<=form<=nh"""
        if c not in (1, -1):
            return
        n, d = self.lemmas[q]
        rest = form - Poly({(q,): c})
        # c=1: q >= nl-rest, q <= nh-rest ; c=-1: q <= rest-nl ; q >= rest-nh
        lows, highs = [], []
        if c == 1:
            if nl is not None:
                lows.append(-rest + nl)
            if nh is not None:
                highs.append(-rest + nh)
        else:
            if nl is not None:
                highs.append(rest - nl)
            if nh is not None:
                lows.append(rest - nh)
        for L in lows:       # L <= floor(n/d)  <=> L*d <= n
            if len(L.d) <= 3:
                work.append((L * d - n, None, 0))
        for H in highs:      # floor(n/d) <= H  <=> n < (H+1)*d
            if len(H.d) <= 3:
                work.append((n - (H + 1) * d, None, -1))

    # ---- entailment
    def sign(self, p):
        """-1,0,1 or None"""
        l, h = self.bounds(p)
        if l is not None and l > 0:
            return 1
        if h is not None and h < 0:
            return -1
        if l == 0 and h == 0:
            return 0
        return None

    def entails(self, p, lo, hi):
        l, h = self.bounds(p)
        return (lo is None or (l is not None and l >= lo)) and (hi is None or (h is not None and h <= hi))


def split_sign(st, p):
    """[(store, s)] with s in -1,0,1 : partition of st by the sign of p"""
    s = st.sign(p)
    if s is not None:
        return [(st, s)]
    out = []
    for sg, lo, hi in ((-1, None, -1), (0, 0, 0), (1, 1, None)):
        t = st.copy()
        try:
            t.assume(p, lo, hi)
        except Infeasible:
            continue
        out.append((t, sg))
    return out


# ---------------------------------------------------------------- non-linear terms
def posdiv(st, n, d):
    """floor(n/d) for n>=0, d>0 (caller guarantees); store updated in place"""
    n = st.simp(n)
    d = st.simp(d)
    cn, cd = n.const(), d.const()
    if cd == 1:
        return n
    if cn is not None and cd is not None:
        return K(cn // cd)
    if cn == 0:
        return ZERO
    l, h = st.bounds(n - d)
    if h is not None and h < 0:
        return ZERO
    nl, nh = st.bounds(n)
    dl, dh = st.bounds(d)
    lo = 0
    if nl is not None and dh is not None:
        lo = max(0, nl // max(dh, 1))
    hi = None
    if nh is not None:
        hi = nh // max(dl or 1, 1)
    if hi is not None and lo == hi:
        return K(lo)
    # exact multiple?
    if cd is not None and all(c % cd == 0 for c in n.d.values()):
        return Poly({m: c // cd for m, c in n.d.items()})
    if cd is not None:
        # pull multiples of d out of n
        out = {m: (c // cd) for m, c in n.d.items() if m and c % cd == 0 and c}
        if out:
            tries = [out]
            noq = {m: c for m, c in out.items() if not (len(m) == 1 and ATOMS[m[0]][0] == 'pdiv')}
            if noq and len(noq) != len(out):
                tries.append(noq)
            for o in tries:
                p = Poly(o)
                rest = n - p * cd
                rl, rh = st.bounds(rest)
                if rl is not None and rh is not None and rl // cd == rh // cd:
                    return p + rl // cd
                if rl is not None and rl >= 0:
                    return p + posdiv(st, rest, d)
        # floor(floor(a/b)/c) = floor(a/(b*c))
        if len(n.d) == 1:
            (m, c), = n.d.items()
            if c == 1 and len(m) == 1 and ATOMS[m[0]][0] == 'pdiv':
                n2, d2 = ATOMS[m[0]][1]
                c2 = d2.const()
                if c2 is not None:
                    return posdiv(st, n2, K(c2 * cd))
    a = atom('pdiv', n, d)
    q = A(a)
    first = (((a,), 1),) not in st.cons
    if first:
        st.lemmas[a] = (n, d)
        st.assume(q, lo, hi)
        st.assume(n - q * d, 0, None)
        st.assume(n - q * d - d, None, -1)
    return q


def floordiv2(st, e, k):
    """floor(e / 2^k) for any sign of e"""
    if k == 0:
        return e
    e = st.simp(e)
    c = e.const()
    if c is not None:
        return K(c >> k)
    l, h = st.bounds(e)
    if l is not None and h is not None and l >> k == h >> k:
        return K(l >> k)
    if l is not None and l >= 0:
        return posdiv(st, e, K(1 << k))
    if h is not None and h < 0:
        # floor(e/2^k) = -1 - floor((-1-e)/2^k)
        return -1 - posdiv(st, -1 - e, K(1 << k))
    return None


def tdiv(st, n, d):
    """truncated quotient, d != 0.  -> [(store, poly)]"""
    out = []
    for s1, sd in split_sign(st, d):
        if sd == 0:
            continue
        for s2, sn in split_sign(s1, n):
            if sn == 0:
                out.append((s2, ZERO))
                continue
            if s2 is st:
                s2 = st
            q = posdiv(s2, n * sn, d * sd)
            out.append((s2, q * (sn * sd)))
    return out


def shl_term(st, e, s):
    """e * 2^s, s >= 0 known"""
    s = st.simp(s)
    e = st.simp(e)
    c = s.const()
    if c is not None:
        return e * (1 << c)
    if e.const() == 0:
        return ZERO
    a = atom('shl', e, s)
    q = A(a)
    if (((a,), 1),) not in st.cons:
        el, eh = st.bounds(e)
        sl, sh = st.bounds(s)
        lo = hi = None
        sl = max(sl or 0, 0)
        if eh is not None and sh is not None:
            hi = (eh << sh) if eh > 0 else (eh << sl)
        elif eh is not None and eh <= 0:
            hi = eh << sl
        if el is not None and sh is not None:
            lo = (el << sl) if el >= 0 else (el << sh)
        elif el is not None and el >= 0:
            lo = el << sl
        st.assume(q, lo, hi)
    return q


def shr_term(st, e, s):
    """floor(e / 2^s) for symbolic s>=0; sign of e known"""
    s = st.simp(s)
    e = st.simp(e)
    c = s.const()
    if c is not None:
        return floordiv2(st, e, c)
    l, h = st.bounds(e)
    neg = False
    if l is not None and l >= 0:
        pass
    elif h is not None and h < 0:
        neg = True
        e = -1 - e
        l, h = -1 - h, (None if l is None else -1 - l)
    else:
        return None
    sl, sh = st.bounds(s)
    sl = max(sl or 0, 0)
    lo = (l >> sh) if sh is not None else 0
    hi = None if h is None else h >> sl
    if hi is not None and lo == hi:
        q = K(lo)
    else:
        a = atom('shr', e, s)
        q = A(a)
        if (((a,), 1),) not in st.cons:
            st.assume(q, lo, hi)
            st.assume(e - q, 0, None)
    return (-1 - q) if neg else q


def lowmask(c):
    return c > 0 and (c & (c + 1)) == 0


def symmod(c, N):
    c &= (1 << N) - 1
    return c


def band(st, a, b, N=None):
    """bitwise and of two integers (infinite two's complement).  With N given the
    result is only meaningful modulo 2^N and operands may be reduced."""
    a = st.simp(a)
    b = st.simp(b)
    if N is not None:
        M = 1 << N

        def red(p):
            d = {}
            for m, c in p.d.items():
                c %= M
                if c > M // 2:
                    c -= M
                if c:
                    d[m] = c
            return Poly(d)
        a, b = red(a), red(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return K(ca & cb)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if cb == 0:
            return ZERO
        if cb == -1:
            return a
        if lowmask(cb):
            k = cb.bit_length()
            q = floordiv2(st, a, k)
            if q is not None:
                return a - q * (1 << k)
        if cb < 0 and lowmask(-cb - 1):
            k = (-cb - 1).bit_length()
            q = floordiv2(st, a, k)
            if q is not None:
                return q * (1 << k)
        if N is not None and cb == -(1 << (N - 1)):
            q = floordiv2(st, a, N - 1)
            if q is not None:
                # bit N-1 only: (q mod 2) * 2^(N-1)
                q2 = floordiv2(st, q, 1)
                if q2 is not None:
                    return (q - q2 * 2) * (1 << (N - 1))
        l, h = st.bounds(a)
        if l is not None and h is not None:
            if l >= 0:
                # constant bits above the other operand do not matter
                c2 = cb % (1 << h.bit_length())
                if c2 != cb:
                    return band(st, a, K(c2))
            elif h < 0 and cb > 0 and -l <= cb & -cb:
                return K(cb)
    if a == b:
        return a
    # bits of one operand above the other (non-negative) operand do not matter
    for _ in range(2):
        l, h = st.bounds(b)
        if l is not None and l >= 0 and h is not None:
            M2 = 1 << h.bit_length()
            if any(c % M2 == 0 for c in a.d.values()):
                a = Poly({m: c for m, c in a.d.items() if c % M2})
                if a.const() is not None:
                    return band(st, a, b, N)
                if a == b:
                    return a
        a, b = b, a

    # disjoint bits
    def tz(p):
        r = None
        for c in p.d.values():
            t = (c & -c).bit_length() - 1
            r = t if r is None else min(r, t)
        return r
    for x, y in ((a, b), (b, a)):
        l, h = st.bounds(y)
        if l is not None and l >= 0 and h is not None:
            t = tz(x)
            if t is not None and h < (1 << t):
                return ZERO
    # complement canonicalisation: leading coefficient positive
    def lead(p):
        it = sorted((m, c) for m, c in p.d.items() if m)
        return it[0][1] if it else 1
    if a.const() is None and lead(a) < 0:
        return b - band(st, -1 - a, b, N)
    if b.const() is None and lead(b) < 0:
        return a - band(st, a, -1 - b, N)
    if a.key() > b.key():
        a, b = b, a
    at = atom('and', a, b)
    q = A(at)
    if (((at,), 1),) not in st.cons:
        al, ah = st.bounds(a)
        bl, bh = st.bounds(b)
        lo = hi = None

        def bits(*xs):
            return max((x if x >= 0 else -1 - x).bit_length() for x in xs)
        anyn = None in (al, ah, bl, bh)
        if al is not None and al >= 0 and ah is not None:
            lo, hi = 0, ah
            if bl is not None and bl >= 0 and bh is not None:
                hi = min(ah, bh)
        elif bl is not None and bl >= 0 and bh is not None:
            lo, hi = 0, bh
        elif not anyn:
            k = bits(al, ah, bl, bh)
            lo, hi = -(1 << k), (1 << k) - 1
            if ah < 0 and bh < 0:
                hi = -1
                hi = min(hi, min(ah, bh))
        st.assume(q, lo, hi)
        if al is not None and al >= 0:
            st.assume(a - q, 0, None)
        if bl is not None and bl >= 0:
            st.assume(b - q, 0, None)
        # or / xor bounds
        if not anyn and al >= 0 and bl >= 0:
            m = (1 << bits(ah, bh)) - 1
            st.assume(a + b - q, max(al, bl), m)
            st.assume(a + b - q * 2, 0, m)
        elif not anyn:
            k = bits(al, ah, bl, bh)
            st.assume(a + b - q, -(1 << k), (1 << k) - 1)
            st.assume(a + b - q * 2, -(1 << k), (1 << k) - 1)
            an, bn = ah < 0, bh < 0
            ap, bp = al >= 0, bl >= 0
            if an or bn:
                st.assume(a + b - q, None, -1)
            if (an and bn):
                st.assume(a + b - q * 2, 0, None)
            if (an and bp) or (ap and bn):
                st.assume(a + b - q * 2, None, -1)
            if an:
                st.assume(b - q if bp else b - q, 0, None) if bp else None
    return q


_unk = [0]


def unknown(st, lo, hi, why='unk'):
    _unk[0] += 1
    a = atom('unk', '%s#%d' % (why, _unk[0]))
    st.assume(A(a), lo, hi)
    return A(a)
