#!/usr/bin/env python3
"""Writes spec/Tables.tla: the transcendental functions of the specification on the grids the
drivers use, computed with 60 digits."""
import os
from decimal import Decimal, getcontext
getcontext().prec = 60
D = Decimal


def r(x, scale):
    return int((x * scale).to_integral_value(rounding="ROUND_HALF_EVEN"))


def sig(x):
    return 1 / (1 + (-x).exp())


def tanh(x):
    a, b = x.exp(), (-x).exp()
    return (a - b) / (a + b)


def log2(x):
    return x.ln() / D(2).ln()


G = 160          # grid k/8 for k in -G..G
P8 = 10 ** 8
out = ["------------------------------- MODULE Tables -------------------------------",
       "(* Generated by tools/gen_tables.py: values of the transcendental functions on the grid k/8,  *)",
       "(* k in -%d..%d, times 10^8 and rounded; losses times 10^4.                                     *)" % (G, G),
       "EXTENDS Integers", ""]


def table(name, f, scale=P8):
    vals = ", ".join(str(r(f(D(k) / 8), scale)) for k in range(-G, G + 1))
    out.append("%sSeq == << %s >>" % (name, vals))
    out.append("%s(k) == %sSeq[k + %d]" % (name, name, G + 1))
    out.append("")


table("Sigmoid", sig)
table("SigmoidD", lambda x: sig(x) * (1 - sig(x)))
table("Tanh", tanh)
table("TanhD", lambda x: 1 - tanh(x) ** 2)
out.append("\\* e^(-j/8) times 10^4, j in 0..160")
out.append("ExpNegSeq == << %s >>" % ", ".join(str(r((-D(j) / 8).exp(), 10 ** 4)) for j in range(0, 161)))
out.append("ExpNeg(j) == ExpNegSeq[j + 1]")
out.append("")
def sci(x):
    """Eight significant digits and the power of ten."""
    e = x.adjusted()
    m = r(x.scaleb(7 - e), 1)
    return m, e


out.append("\\* e^(k/8) = ExpDigits(k) * 10^(ExpPower(k) - 7)")
pairs = [sci((D(k) / 8).exp()) for k in range(-G, G + 1)]
out.append("ExpDigitsSeq == << %s >>" % ", ".join(str(a) for a, b in pairs))
out.append("ExpDigits(k) == ExpDigitsSeq[k + %d]" % (G + 1))
out.append("ExpPowerSeq == << %s >>" % ", ".join(str(b) for a, b in pairs))
out.append("ExpPower(k) == ExpPowerSeq[k + %d]" % (G + 1))
out.append("\\* e^n without its fraction, n in 0..20")
out.append("ExpWholeSeq == << %s >>" % ", ".join(str(int(D(n).exp())) for n in range(21)))
out.append("ExpWhole(n) == IF n < 0 THEN 0 ELSE ExpWholeSeq[n + 1]")
out.append("")
eps = D("0.00001")
out.append("\\* -log2(1/q + 0.00001), not below zero")
out.append("LossTable == << %s >>" % ", ".join(str(max(0, r(-log2(D(1) / q + eps), 10 ** 4))) for q in range(1, 65)))
out.append("LossOfZero == %d" % r(-log2(eps), 10 ** 4))
out.append("=" * 77)
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Tables.tla")
open(p, "w").write("\n".join(out) + "\n")
