#!/usr/bin/env python3
"""Writes model/toy_curves.h: small DSTU 4145 curves (y^2+xy = x^3+ax^2+b over GF(2^m)) with every point tabulated
as a multiple of one generator of the whole (cyclic) group. The group law here is textbook chord-and-tangent."""
import os, sys
def gf(m, poly):
    P = sum(1 << e for e in poly)
    def mul(a, b):
        r = 0
        while b:
            if b & 1: r ^= a
            b >>= 1; a <<= 1
            if a >> m: a ^= P
        return r
    def inv(a):
        r, e = 1, (1 << m) - 2
        while e:
            if e & 1: r = mul(r, a)
            a = mul(a, a); e >>= 1
        return r
    return P, mul, inv
def prime(n): return n > 1 and all(n % i for i in range(2, int(n ** .5) + 1))
def curve(m, poly, a, want):
    P, mul, inv = gf(m, poly)
    assert all(mul(x, inv(x)) == 1 for x in range(1, 1 << m)), "reducible"
    sqr = [mul(x, x) for x in range(1 << m)]
    def add(p, q):
        if p is None: return q
        if q is None: return p
        (x1, y1), (x2, y2) = p, q
        if x1 == x2:
            if y1 ^ y2 == x1: return None
            l = x1 ^ mul(y1, inv(x1))
            x3 = sqr[l] ^ l ^ a
            return x3, sqr[x1] ^ mul(l ^ 1, x3)
        l = mul(y1 ^ y2, inv(x1 ^ x2))
        x3 = sqr[l] ^ l ^ x1 ^ x2 ^ a
        return x3, mul(l, x1 ^ x3) ^ x3 ^ y1
    for b in range((1 << m) - 1, 0, -1):
        pts = [(x, y) for x in range(1 << m) for y in range(1 << m) if sqr[y] ^ mul(x, y) ^ mul(sqr[x], x) ^ mul(a, sqr[x]) ^ b == 0] if m < 7 else None
        if pts is None:
            pts = []
            quad = {}
            for z in range(1 << m): quad.setdefault(sqr[z] ^ z, []).append(z)
            root = {sqr[z]: z for z in range(1 << m)}
            pts.append((0, root[b]))
            for x in range(1, 1 << m):
                w = x ^ a ^ mul(b, inv(sqr[x]))
                for z in quad.get(w, []): pts.append((x, mul(z, x)))
        N = len(pts) + 1
        h = 2 if a else 4
        if N % h or not prime(N // h) or not want(N // h): continue
        for g in sorted(pts):
            seq, p = [], g
            while p is not None: seq.append(p); p = add(p, g)
            if len(seq) + 1 == N: break
        else: continue
        root = {sqr[z]: z for z in range(1 << m)}
        quad = []
        for z in range(1 << m):           # half-trace, what libcrypto computes for odd m
            r = z; t = z
            for i in range((m - 1) // 2): t = sqr[sqr[t]]; r ^= t
            quad.append(r if sqr[r] ^ r == z else 0xffff)
        return dict(M=m, POLY=P, ARR=list(poly) + [-1], A=a, B=b, N=N // h, H=h, ALL=N,
                    x=[0] + [p[0] for p in seq], y=[0] + [p[1] for p in seq],
                    inv=[0] + [inv(z) for z in range(1, 1 << m)], sqrt=[root[z] for z in range(1 << m)], quad=quad)
    raise SystemExit("no curve")
specs = [(5, (5, 2, 0), 1, lambda n: True), (9, (9, 4, 0), 0, lambda n: n < 256), (9, (9, 4, 0), 1, lambda n: n > 255), (5, (5, 4, 3, 2, 0), 0, lambda n: True),
         (7, (7, 1, 0), 1, lambda n: True)]
out = ["/* generated by tools/gen_toy.py; checked against libcrypto by harness toycheck */"]
for i, s in enumerate(specs):
    c = curve(*s)
    print(i, {k: c[k] for k in ("M", "A", "B", "N", "H", "ALL")}, file=sys.stderr)
    out.append("#if TOY == %d" % i)
    for k in ("M", "POLY", "A", "B", "N", "H", "ALL"): out.append("#define TOY_%s %d" % (k, c[k]))
    out.append("#define TOY_ARR {%s}" % ", ".join(map(str, c["ARR"])))
    out.append("#define TOY_FB %d" % ((c["M"] + 7) // 8))
    out.append("#define TOY_NB %d" % ((c["N"].bit_length() + 7) // 8))
    out.append("#define TOY_NBITS %d" % c["N"].bit_length())
    for k in ("x", "y", "inv", "sqrt", "quad"):
        out.append("static const unsigned short toy_%s[] = {%s};" % (k, ",".join(map(str, c[k]))))
    out.append("#endif")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "model", "toy_curves.h"), "w").write("\n".join(out) + "\n")
