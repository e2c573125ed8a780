"""Contracts that replace callees during the proofs of their callers (modular step).

CubicOperator._rfromcompressed, QuarticOperator._rfromcompressed (floating-point
Newton iterations): for a symbolic number b of compressed columns,
    requires  b = r(r+1)(r+2)/6          [ b = r(r+1)(r+2)(r+3)/24 ]
    ensures   result == r.
The contract itself is checked for all r up to a bound (contracts/c04.py,
`inverse_of_operator_dimension`, labelled bounded)."""
from fractions import Fraction

from .core import IP, PATH, SI, Unsupported, mk


def _root(b, p):
    def count(r):
        q = IP.const(1)
        for k in range(p):
            q = (q * (r + IP.const(k))).scale(Fraction(1, k + 1))
        return q
    for v in sorted(b.vars()):
        for c in range(-3, 4):
            r = IP.var(v) + IP.const(c)
            if PATH.norm(count(r) - b) == IP({}):
                return r
    return None


def apply(opinf):
    for name, p in (("CubicOperator", 3), ("QuarticOperator", 4)):
        cls = getattr(opinf.operators, name, None)
        real = getattr(cls, "_rfromcompressed", None)
        if real is None:
            continue

        def contract(b, *a, _real=real, _p=p, **k):
            if not isinstance(b, SI):
                return _real(b, *a, **k)
            r = _root(PATH.norm(b.p), _p)
            if r is None:
                raise Unsupported("_rfromcompressed of a number not known to be a number of compressed columns")
            return mk(r)
        cls._rfromcompressed = staticmethod(contract)
