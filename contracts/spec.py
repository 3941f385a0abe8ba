"""Mathematical specifications shared by several contracts (written from the documentation, not from the code)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Fr
from pyvc.ir import *
from pyvc.sym import *
from pyvc.check import *
from pyvc import ctx

def q(a, b=1): return const(Fr(a, b))
def sq(x): return powc(x, 2)
def E_(x): return b2n(val(x))

def iso(e0, k):
    """isotropic tensor e0 (|k|^2 delta_ij - k_i k_j) as a 3x3 matrix"""
    kk = add(*[sq(x) for x in k])
    return [[mul(e0, sub(kk if i == j else ZERO, mul(k[i], k[j]))) for j in range(3)] for i in range(3)]
def distort(P, z1, z2, z3):
    """A P A^T with A = [[1,0,z1],[0,1,z2],[0,0,z3]]"""
    A = [[ONE, ZERO, z1], [ZERO, ONE, z2], [ZERO, ZERO, z3]]
    AP = [[add(*[mul(A[i][m], P[m][j]) for m in range(3)]) for j in range(3)] for i in range(3)]
    return [[add(*[mul(AP[i][m], A[j][m]) for m in range(3)]) for j in range(3)] for i in range(3)]
def zetas(k, beta):
    """Mann (1994) shear-distortion coefficients for k1 != 0"""
    k1, k2, k3 = k
    k30 = add(k3, mul(beta, k1))
    kk = add(sq(k1), sq(k2), sq(k3)); kk0 = add(sq(k1), sq(k2), sq(k30)); s = add(sq(k1), sq(k2))
    C1 = div(mul(beta, sq(k1), add(kk0, mul(q(-2), sq(k30)), mul(beta, k1, k30))), mul(kk, s))
    C2 = mul(div(mul(k2, kk0), powc(s, Fr(3, 2))), app("atan2", mul(beta, k1, sqrt(s)), sub(kk0, mul(k30, k1, beta))))
    return sub(C1, mul(div(k2, k1), C2)), add(mul(div(k2, k1), C1), C2), div(kk0, kk), (k1, k2, k30)
def e_vk(E0, L, kk):
    """E(k)/(4 pi k^4) for the von Karman spectrum E = E0 L^(17/3) k^4/(1+(kL)^2)^(17/6)"""
    return div(mul(E0, powc(L, Fr(17, 3))), mul(q(4), PI, powc(add(ONE, mul(sq(L), kk)), Fr(17, 6))))
def mann_lifetime(L, kk):
    """(kL)^(-2/3)/sqrt(2F1(1/3,17/6;4/3;-(kL)^-2)) with kk = |k|^2"""
    x = mul(kk, sq(L))
    return div(powc(x, Fr(-1, 3)), sqrt(app("hyp2f1", q(1, 3), q(17, 6), q(4, 3), neg(powc(x, -1)))))
def gram(G, i, j):
    """(G G*)_ij for a 3x3 matrix of element values"""
    r = ZERO
    for m in range(3): r = vadd(r, vmul(G[i][m], vconj(G[j][m])))
    return r
def freqs(prefix="k"):
    """three arbitrary frequency vectors of arbitrary lengths; returns arrays, an arbitrary index triple and the wavevector there"""
    n = [nat("n%d" % a) for a in range(3)]
    F = PList([SArr((n[a].v,), (lambda idx, a=a: uf("%s%d" % (prefix, a), *idx)), "f") for a in range(3)])
    ix = index(*n)
    return F, n, ix, [F[a].elem((ix[a],)) for a in range(3)]
def finite(name, v):
    for part, x in (("re", re_(v)), ("im", im_(v))):
        if x.nan or isinstance(v, Cx): holds("%s is finite (%s)" % (name, part), app("isfinite", x))
