#!/usr/bin/env python3
"""Writes spec/NormalTable.tla: the standard normal distribution at z/16 in
millionths, for z = 0..96; computed with mpmath-free series in exact floats."""
import math
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cdf = [round(5e5 * math.erfc(-z / 16 / math.sqrt(2))) for z in range(97)]
pdf = [round(1e6 * math.exp(-(z / 16) ** 2 / 2) / math.sqrt(2 * math.pi)) for z in range(97)]
expo = [round(1000 * math.exp(k / 2)) for k in range(-8, 9)]


def rows(a):
    out, line = [], "   "
    for i, v in enumerate(a):
        t = " %d%s" % (v, "," if i + 1 < len(a) else "")
        if len(line) + len(t) > 78:
            out.append(line)
            line = "   "
        line += t
    return "\n".join(out + [line])


with open(os.path.join(V, "spec", "NormalTable.tla"), "w") as f:
    f.write("""----------------------------- MODULE NormalTable -----------------------------
(* Standard normal distribution and density at z = i/16, i = 0..96, in
   millionths, and exp(k/2), k = -8..8, in thousandths (tools/normal_table.py). *)
EXTENDS Integers, Sequences
CdfT == <<
%s >>
PdfT == <<
%s >>
ExpT == << %s >>
Half16(z) == IF z > 96 THEN 96 ELSE IF z < -96 THEN -96 ELSE z
Cdf(z) == LET h == Half16(z) IN IF h >= 0 THEN CdfT[h + 1] ELSE 1000000 - CdfT[1 - h]
Pdf(z) == LET h == Half16(z) IN IF h >= 0 THEN PdfT[h + 1] ELSE PdfT[1 - h]
ExpHalf(k) == ExpT[k + 9]
=============================================================================
""" % (rows(cdf), rows(pdf), ", ".join(map(str, expo))))
