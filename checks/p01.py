"""P01 element matrices = exact Q1 integrals"""
from irx import *
import fem
TITLE = "Element matrices are the exact Q1 / 4Q1-Q1 integrals"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; the normal-form algebra in lib/algebra.py; rational reading of folded constants (1/3 etc., tolerance 1e-14); the exact 1D integrals of lib/fem.py"
EXPLAIN = "Every entry of every element-matrix function, for arbitrary cell sizes h, is the rational function in h of the corresponding exact integral over the cell: abstract interpretation of the optimised SSA form into a rational-function domain, compared entry by entry with independently computed integrals."
W = r'''
#include <array>
#include <petsc.h>
#include <cafes.hpp>
using namespace cafes; using namespace cafes::fem;
template<std::size_t D> using H = std::array<double, D>;
#define W(name, fn, D) extern "C" auto w_##name(H<D> const &h) -> decltype(fn(h)); extern "C" auto w_##name(H<D> const &h) -> decltype(fn(h)) { return fn(h); }
W(lap2, getMatElemLaplacian, 2) W(lapA2, getMatElemLaplacianA, 2) W(str2, getMatElemStrainTensor, 2) W(strA2, getMatElemStrainTensorA, 2)
W(pre2, getMatElemPressure, 2) W(preA2, getMatElemPressureA, 2) W(preAT2, getMatElemPressureAT, 2) W(mass2, getMatElemMass, 2) W(massA2, getMatElemMassA, 2)
W(lap3, getMatElemLaplacian, 3) W(str3, getMatElemStrainTensor, 3) W(pre3, getMatElemPressure, 3) W(mass3, getMatElemMass, 3)
'''
MIN_OBLIGATIONS = 1500


def run(cx):
    m = cx.ir(W)
    for d in (2, 3):
        nb = 2 ** d
        nv = 3 ** d
        lap, mass, st, pr = None, None, None, None
        def outs(name):
            F = Fn(m, name)
            cx.saw(name)
            cx.need(len(F.rets) == 1 and not any(e.kind == "call" and not e.name.startswith("llvm.") for e in F.effects), name + ": unexpected calls")
            h = [F.load(F.new_state(), Ptr(F.argatoms[1], num(8 * k)), 8, "double") for k in range(d)]
            return F, h
        def cmpv(name, what, got, want):
            cx.check(isinstance(got, Poly) and equal(got, want), "element matrix entry", "%s%s" % (name, what), "computed %s\nrequired %s" % (got, want))
        def flat(name, f, n, idx):
            """f(i..)-> want, flattened index"""
        # matrix-free (nested) variants
        for name, fn, kind in [("w_lap%d" % d, "getMatElemLaplacian", "lap"), ("w_mass%d" % d, "getMatElemMass", "mass"), ("w_str%d" % d, "getMatElemStrainTensor", "str"), ("w_pre%d" % d, "getMatElemPressure", "pre")]:
            F, h = outs(name)
            label = "%s<%d>" % (fn, d)
            if kind in ("lap", "mass"):
                want = fem.laplacian(d, h) if kind == "lap" else fem.mass(d, h)
                for i in range(nb):
                    for j in range(nb):
                        cmpv(label, "[%d][%d]" % (i, j), F.cell(0, 8 * (i * nb + j)), want[i][j])
            elif kind == "str":
                want = fem.strain(d, h)
                for i in range(nb):
                    for j in range(nb):
                        for a in range(d):
                            for b in range(d):
                                cmpv(label, "[%d][%d][%d][%d]" % (i, j, a, b), F.cell(0, 8 * (((i * nb + j) * d + a) * d + b)), want[i][j][a][b])
            else:
                want = fem.pressure(d, h)
                for i in range(nb):
                    for j in range(nv):
                        for a in range(d):
                            cmpv(label, "[%d][%d][%d]" % (i, j, a), F.cell(0, 8 * ((i * nv + j) * d + a)), want[i][j][a])
    # assembled (flat, row-major as passed to MatSetValuesLocal) variants, 2D
    d = 2
    for name, fn in [("w_lapA2", "getMatElemLaplacianA"), ("w_massA2", "getMatElemMassA")]:
        F, h = outs(name)
        want = fem.laplacian(2, h) if "Lap" in fn else fem.mass(2, h)
        for r in range(4):
            for c in range(4):
                cmpv(fn, "(row %d, col %d)" % (r, c), F.cell(0, 8 * (4 * r + c)), want[r][c])
    F, h = outs("w_strA2")
    want = fem.strain(2, h)
    for r in range(8):
        for c in range(8):
            cmpv("getMatElemStrainTensorA", "(row %d comp %d, col %d comp %d)" % (r % 4, r // 4, c % 4, c // 4), F.cell(0, 8 * (8 * r + c)), want[r % 4][c % 4][r // 4][c // 4])
    F, h = outs("w_preA2")
    want = fem.pressure(2, h)
    for r in range(4):
        for c in range(18):
            cmpv("getMatElemPressureA", "(row %d, col %d comp %d)" % (r, c % 9, c // 9), F.cell(0, 8 * (18 * r + c)), want[r][c % 9][c // 9])
    F, h = outs("w_preAT2")
    want = fem.pressure(2, h)
    for r in range(18):
        for c in range(4):
            cmpv("getMatElemPressureAT", "(row %d comp %d, col %d)" % (r % 9, r // 9, c), F.cell(0, 8 * (4 * r + c)), -want[c][r % 9][r // 9])
