"""P02 shape functions and gradients"""
from irx import *
import fem
TITLE = "Q1 shape functions and gradients are exact"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/algebra.py normal forms"
EXPLAIN = "P1_integration / P1_integration_grad in 2D and 3D are reduced to rational functions of the point and the cell sizes; nodal interpolation, partition of unity, multilinearity and grad = (prod h) * derivative are decided as polynomial identities, for every point and every cell."
MIN_OBLIGATIONS = 60
W = r'''
#include <array>
#include <petsc.h>
#include <cafes.hpp>
using namespace cafes;
extern "C" std::array<double,4> w_p2(geometry::position<double,2> const&x, std::array<double,2> const&h){ return fem::P1_integration(x,h);}
extern "C" std::array<double,8> w_p3(geometry::position<double,3> const&x, std::array<double,3> const&h){ return fem::P1_integration(x,h);}
extern "C" std::array<std::array<double,2>,4> w_g2(geometry::position<double,2> const&x, std::array<double,2> const&h){ return fem::P1_integration_grad(x,h);}
extern "C" std::array<std::array<double,3>,8> w_g3(geometry::position<double,3> const&x, std::array<double,3> const&h){ return fem::P1_integration_grad(x,h);}
'''


def run(cx):
    m = cx.ir(W)
    for d in (2, 3):
        n = 2 ** d
        F = Fn(m, "w_p%d" % d)
        G = Fn(m, "w_g%d" % d)
        cx.saw("fem::P1_integration<%d>" % d, "fem::P1_integration_grad<%d>" % d)
        def syms(Fx):
            st = Fx.new_state()
            return [[Fx.load(st, Ptr(Fx.argatoms[k], num(8 * a)), 8, "double") for a in range(d)] for k in (1, 2)]
        x, h = syms(F)
        X, H = syms(G)
        hp = fem.hprod(h, d)
        phi = [F.cell(0, 8 * k) for k in range(n)]
        cor = fem.corners(d)
        tot = ZERO
        for k in range(n):
            lab = "P1_integration<%d>[%d]" % (d, k)
            cx.check(equal(phi[k], fem.shape(d, k, x, h)), "shape function value", lab, "computed %s\nrequired %s" % (phi[k], fem.shape(d, k, x, h)))
            tot = tot + phi[k]
            # nodal property, by substitution of the corner coordinates
            for j in range(n):
                sub = {x[a].as_atom(): (h[a] if cor[j][a] else ZERO) for a in range(d)}
                v = rewrite(phi[k], lambda at: sub.get(at))
                cx.check(equal(v, ONE if j == k else ZERO), "nodal interpolation", lab + " at corner %d" % j, "value %s" % v)
            for a in range(d):
                g = G.cell(0, 8 * (k * d + a))
                w = diff(fem.shape(d, k, X, H), X[a].as_atom()) * fem.hprod(H, d)
                cx.check(equal(g, w), "gradient", "P1_integration_grad<%d>[%d][%d]" % (d, k, a), "computed %s\nrequired (prod h) * d phi = %s" % (g, w))
        cx.check(equal(tot, ONE), "partition of unity", "P1_integration<%d>" % d, "sum = %s" % tot)
        for a in range(d):
            s = sum((G.cell(0, 8 * (k * d + a)) for k in range(n)), ZERO)
            cx.check(equal(s, ZERO), "gradients sum to zero", "P1_integration_grad<%d> axis %d" % (d, a), "sum = %s" % s)
