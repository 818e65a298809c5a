"""Writes spec/quadtab.qnt: the Gauss-Legendre and Gauss-Lobatto rules to 24
digits.  Run once with python3-vt (mpmath); the result is committed and the
specification checks the tables itself (residuals and moments, see quad.qnt)."""
import mpmath as mp
mp.mp.dps = 50
S = mp.mpf(10)**24
def leg(n, x): return mp.legendre(n, x)
def dleg(n, x): return n*(x*leg(n, x)-leg(n-1, x))/(x*x-1)
def coeffs(n):
    p, q = [mp.mpf(1)], [mp.mpf(1), mp.mpf(0)]      # highest power first
    if n == 0:
        return p
    for k in range(1, n):
        r = [mp.mpf(2*k+1)/(k+1)*c for c in q] + [mp.mpf(0)]
        for i, c in enumerate(p):
            r[len(r)-len(p)+i] -= mp.mpf(k)/(k+1)*c
        p, q = q, r
    return q
def roots(c):
    x = sorted(mp.re(z) for z in mp.polyroots(c, maxsteps=500, extraprec=200))
    n = len(x)
    if n % 2: x[n//2] = mp.mpf(0)
    for k in range(n//2): x[n-1-k] = -x[k]
    return x
def gl(n):
    xs = roots(coeffs(n))
    ws = [2/((1-x*x)*dleg(n, x)**2) for x in xs]
    return xs, ws
def lob(n):
    c = coeffs(n-1)
    d = [c[i]*(len(c)-1-i) for i in range(len(c)-1)]
    xs = [mp.mpf(-1)] + (roots(d) if n > 2 else []) + [mp.mpf(1)]
    ws = [2/(n*(n-1)*leg(n-1, x)**2) for x in xs]
    return xs, ws
def lst(v): return '[' + ', '.join(str(int(mp.nint(x*S))) for x in v) + ']'
out = ['// Quadrature rules on [-1, 1], scaled by 10^24.  Written by harness/gen_tables.py',
       'module quadtab {']
ns = list(range(1, 17))+[20, 24, 32]
for name, f, rng in (('gl', gl, ns), ('lob', lob, [2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,25,33])):
    for which, ix in (('x', 0), ('w', 1)):
        out.append(f'  pure def {name}{which}(n: int): List[int] =')
        for n in rng:
            out.append(f'    if (n == {n}) {lst(f(n)[ix])} else')
        out.append('    []')
out.append('}')
open('/verif/spec/quadtab.qnt', 'w').write('\n'.join(out)+'\n')
