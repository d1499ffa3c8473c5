"""The pairing-friendly families, from their papers (not from ecgen's tables)."""
from fractions import Fraction as Fr

# coefficients of p, r, t (highest first) over a common denominator, embedding degree, u = m*z + c
FAM = {
    # Barreto, Naehrig 2005
    "BN": dict(k=12, u=(1, 0), p=([36, 36, 24, 6, 1], 1), r=([36, 36, 18, 6, 1], 1), t=([6, 0, 1], 1)),
    # Barreto, Lynn, Scott 2002
    "BLS12": dict(k=12, u=(1, 0), p=([1, -2, 0, 2, 0, 1, 1], 3), r=([1, 0, -1, 0, 1], 1), t=([1, 1], 1)),
    "BLS24": dict(k=24, u=(1, 0), p=([1, -2, 1, 0, -1, 2, -1, 0, 1, 1, 1], 3), r=([1, 0, 0, 0, -1, 0, 0, 0, 1], 1),
                  t=([1, 1], 1)),
    # Kachisa, Schaefer, Scott 2008
    "KSS16": dict(k=16, u=(70, 25), p=([1, 2, 5, 0, 48, 152, 240, 0, 625, 2398, 3125], 980),
                  r=([1, 0, 0, 0, 48, 0, 0, 0, 625], 61250), t=([2, 0, 0, 0, 41, 35], 35)),
    "KSS18": dict(k=18, u=(42, 14), p=([1, 5, 7, 0, 37, 188, 259, 0, 343, 1763, 2401][:], 21),
                  r=([1, 0, 0, 37, 0, 0, 343], 343), t=([1, 0, 0, 16, 7], 7)),
    "KSS36": dict(k=36, u=(777, 287), p=([1, -4, 7, 0, 0, 0, 683, -2510, 4781, 0, 0, 0, 117649, -386569, 823543], 28749),
                  r=([1, 0, 0, 0, 0, 0, 683, 0, 0, 0, 0, 0, 117649], 161061481), t=([2, 0, 0, 0, 0, 0, 757, 259], 259)),
    "KSS40": dict(k=40, u=(2370, 1205),
                  p=([1, -2, 5, 0, 0, 0, 0, 0, 0, 0, 6232, -10568, 31160, 0, 0, 0, 0, 0, 0, 0, 9765625, -13398638,
                      48828125], 1123380),
                  r=([1, 0, 8, 0, 39, 0, 112, 0, -79, 0, 2800, 0, 24375, 0, 125000, 0, 390625], 2437890625),
                  t=([2] + [0] * 9 + [6469, 1185], 1185)),
}
# KSS18: z^8 + 5z^7 + 7z^6 + 37z^5 + 188z^4 + 259z^3 + 343z^2 + 1763z + 2401
FAM["KSS18"]["p"] = ([1, 5, 7, 37, 188, 259, 343, 1763, 2401], 21)
FAM["BN"]["t"] = ([6, 0, 1], 1)     # 6 z^2 + 1


def ev(poly, x):
    v = 0
    for c in poly[0]:
        v = v * x + c
    q, r = divmod(v, poly[1])
    return None if r else q


def at(fam, z):
    """(p, r, t) or None where not integers"""
    f = FAM[fam]
    u = f["u"][0] * z + f["u"][1]
    v = [ev(f[k], u) for k in "prt"]
    return None if None in v[:2] else v
