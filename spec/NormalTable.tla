----------------------------- MODULE NormalTable -----------------------------
(* Standard normal distribution and density at z = i/16, i = 0..96, in
   millionths, and exp(k/2), k = -8..8, in thousandths (tools/normal_table.py). *)
EXTENDS Integers, Sequences
CdfT == <<
    500000, 524918, 549738, 574366, 598706, 622670, 646170, 669126, 691462,
    713112, 734014, 754116, 773373, 791748, 809213, 825749, 841345, 855996,
    869705, 882485, 894350, 905324, 915434, 924712, 933193, 940915, 947919,
    954246, 959941, 965046, 969604, 973658, 977250, 980420, 983207, 985647,
    987776, 989625, 991226, 992605, 993790, 994804, 995668, 996401, 997020,
    997542, 997980, 998346, 998650, 998903, 999111, 999282, 999423, 999538,
    999631, 999706, 999767, 999816, 999856, 999887, 999912, 999931, 999947,
    999959, 999968, 999976, 999981, 999986, 999989, 999992, 999994, 999995,
    999997, 999997, 999998, 999999, 999999, 999999, 999999, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000 >>
PdfT == <<
    398942, 398164, 395838, 391991, 386668, 379931, 371855, 362532, 352065,
    340568, 328161, 314974, 301137, 286787, 272055, 257074, 241971, 226867,
    211877, 197105, 182649, 168593, 155012, 141970, 129518, 117697, 106538,
    96062, 86277, 77188, 68786, 61060, 53991, 47554, 41721, 36461, 31740,
    27522, 23772, 20453, 17528, 14963, 12724, 10778, 9094, 7643, 6398, 5335,
    4432, 3667, 3022, 2481, 2029, 1653, 1341, 1084, 873, 700, 559, 445, 353,
    278, 219, 172, 134, 104, 81, 62, 48, 37, 28, 21, 16, 12, 9, 7, 5, 4, 3, 2,
    1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
ExpT == << 18, 30, 50, 82, 135, 223, 368, 607, 1000, 1649, 2718, 4482, 7389, 12182, 20086, 33115, 54598 >>
Half16(z) == IF z > 96 THEN 96 ELSE IF z < -96 THEN -96 ELSE z
Cdf(z) == LET h == Half16(z) IN IF h >= 0 THEN CdfT[h + 1] ELSE 1000000 - CdfT[1 - h]
Pdf(z) == LET h == Half16(z) IN IF h >= 0 THEN PdfT[h + 1] ELSE PdfT[1 - h]
ExpHalf(k) == ExpT[k + 9]
=============================================================================
