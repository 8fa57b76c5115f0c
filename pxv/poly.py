"""Ring normaliser: z3 arithmetic terms as quotients of polynomials over opaque atoms.

Used as the first back end for equalities (syntactic identity of the cross-multiplied normal forms is a
proof of equality wherever the denominators are non-zero) and to give sums a canonical key.
"""
from fractions import Fraction
import z3

MAXMON = 4000


class TooBig(Exception):
    pass


def numval(t):
    """Fraction of a numeral term, or None."""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


class Norm:
    """Normaliser with its own atom table."""

    def __init__(self, sqrt_ok=None):
        self.atoms = {}      # key -> id
        self.terms = []      # id -> z3 term
        self.keys = []
        self.cache = {}
        self.keepalive = []
        self.sqrt_ok = sqrt_ok   # callable(arg term) -> bool : may sqrt(arg)^2 be replaced by arg?
        self.sqrt_sq = {}        # atom id -> (num, den) of its argument

    # -- polynomials: dict monomial(tuple of (atom, exp)) -> Fraction
    @staticmethod
    def const(c):
        return {(): Fraction(c)} if c else {}

    def atom_poly(self, i):
        return {((i, 1),): Fraction(1)}

    @staticmethod
    def padd(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) * len(b) > MAXMON:
            raise TooBig()
        r = {}
        extra = []
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = dict(m1)
                for k, e in m2:
                    d[k] = d.get(k, 0) + e
                c = c1 * c2
                sq = [k for k, e in d.items() if e >= 2 and k in self.sqrt_sq]
                if sq:
                    extra.append((d, c, sq))
                    continue
                m = tuple(sorted(d.items()))
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        for d, c, sq in extra:
            p = {(): c}
            for k in sq:
                e = d.pop(k)
                num, den = self.sqrt_sq[k]
                for _ in range(e // 2):
                    p = self.pmul(p, num)
                if e % 2:
                    d[k] = 1
            p = self.pmul(p, {tuple(sorted(d.items())): Fraction(1)})
            r = self.padd(r, p)
        return r

    def atom(self, key, term):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.terms)
            self.atoms[key] = i
            self.terms.append(term)
            self.keys.append(key)
        return i

    # -- terms
    def norm(self, t):
        """-> (num, den) polynomials"""
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._norm(t)
            self.cache[k] = r
            self.keepalive.append(t)
        return r

    ONE = {(): Fraction(1)}

    def _add(self, a, b, s=1):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return self.padd(n1, n2, s), d1
        return self.padd(self.pmul(n1, d2), self.pmul(n2, d1), s), self.pmul(d1, d2)

    def _mul(self, a, b):
        return self.pmul(a[0], b[0]), self.pmul(a[1], b[1])

    def _norm(self, t):
        v = numval(t)
        if v is not None:
            return self.const(v), self.ONE
        k = t.decl().kind() if z3.is_app(t) else None
        ch = t.children() if z3.is_app(t) else []
        if k == z3.Z3_OP_ADD:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self._add(r, self.norm(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self._add(r, self.norm(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.norm(ch[0])
            return self.pmul(n, self.const(-1)), d
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self._mul(r, self.norm(c))
            return r
        if k == z3.Z3_OP_DIV:
            n1, d1 = self.norm(ch[0])
            n2, d2 = self.norm(ch[1])
            if len(n2) == 1 and () in n2:
                return self.pmul(self.pmul(n1, d2), self.const(1 / n2[()])), d1
            if not n2:
                return self._opaque(t)
            return self._reduce(self.pmul(n1, d2), self.pmul(d1, n2))
        if k == z3.Z3_OP_POWER:
            e = numval(ch[1])
            if e is not None and e.denominator == 1 and 0 <= e <= 8:
                r = (self.const(1), self.ONE)
                b = self.norm(ch[0])
                for _ in range(int(e)):
                    r = self._mul(r, b)
                return r
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(ch[0])
        return self._opaque(t)

    @staticmethod
    def _mgcd(p):
        g = None
        for m in p:
            d = dict(m)
            if g is None:
                g = d
            else:
                g = {k: min(e, d[k]) for k, e in g.items() if k in d}
            if not g:
                break
        return g or {}

    def _reduce(self, n, d):
        """cancel common monomial factors and the leading constant of the denominator"""
        g1, g2 = self._mgcd(n), self._mgcd(d)
        g = {k: min(e, g2[k]) for k, e in g1.items() if k in g2}
        if g:
            def div(p):
                r = {}
                for m, c in p.items():
                    x = dict(m)
                    for k, e in g.items():
                        x[k] -= e
                    r[tuple(sorted((k, e) for k, e in x.items() if e))] = c
                return r
            n, d = div(n), div(d)
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: v / c for k, v in n.items()}
                d = {m: Fraction(1)}
        return n, d

    def _opaque(self, t):
        if z3.is_app(t) and t.num_args() > 0:
            key = (t.decl().name(), str(t.decl().kind())) + tuple(self.key(c) for c in t.children())
        else:
            key = ("c", t.sexpr())
        i = self.atom(key, t)
        if self.sqrt_ok is not None and z3.is_app(t) and t.decl().name() == "sqrt" and i not in self.sqrt_sq:
            if self.sqrt_ok(t.arg(0)):
                self.sqrt_sq[i] = self.norm(t.arg(0))
                # only a polynomial argument can be substituted
                if self.sqrt_sq[i][1] != self.ONE:
                    del self.sqrt_sq[i]
        return self.atom_poly(i), self.ONE

    def key(self, t):
        """canonical hashable key of any term"""
        if z3.is_arith(t):
            try:
                n, d = self.norm(t)
            except TooBig:
                return ("s", t.sexpr())
            n, d = self._reduce(n, d)
            return (self.pkey(n), self.pkey(d))
        if z3.is_app(t):
            if t.num_args() == 0:
                return ("s", t.decl().name())
            name = t.decl().name()
            ks = [self.key(c) for c in t.children()]
            if t.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                ks = sorted(set(ks), key=repr)
            return (name,) + tuple(ks)
        return ("s", t.sexpr())

    def pkey(self, p):
        return tuple(sorted(((m, (c.numerator, c.denominator)) for m, c in p.items())))

    def equal(self, a, b):
        """None or list of denominator polynomials that have to be non-zero for a == b."""
        try:
            n1, d1 = self.norm(a)
            n2, d2 = self.norm(b)
            if d1 == d2:
                ok = n1 == n2
            else:
                ok = self.pmul(n1, d2) == self.pmul(n2, d1)
        except TooBig:
            return None
        if not ok:
            return None
        return [d for d in (d1, d2) if d != self.ONE]

    def to_term(self, p):
        if not p:
            return z3.RealVal(0)
        out = []
        for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
            fs = []
            for k, e in m:
                t = self.terms[k]
                if z3.is_int(t):
                    t = z3.ToReal(t)
                fs += [t] * e
            cc = z3.RealVal(c)
            if not fs:
                out.append(cc)
            else:
                q = fs[0]
                for f in fs[1:]:
                    q = q * f
                out.append(q if c == 1 else cc * q)
        r = out[0]
        for o in out[1:]:
            r = r + o
        return r
