"""P03 element and index tables"""
from irx import *
import fem
TITLE = "Element node lists and local index tables agree with the numbering"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/algebra.py normal forms; PETSc's local ghosted numbering dof*((j-gys)*gxm+(i-gxs))+c"
EXPLAIN = "get_element, get_element_4Q1 (2D, 3D), get_indices, get_indices_tensor and get_indices_4Q1 are reduced to integer polynomials in the element position and the DMDA ghost window, and compared with the x-fastest local numbering that the element matrices and shape functions use and with PETSc's ghosted local index."
MIN_OBLIGATIONS = 150
W = r'''
#include <array>
#include <petsc.h>
#include <cafes.hpp>
using namespace cafes;
extern "C" std::array<std::array<int,2>,4> w_e2(geometry::position<int,2> const&x){ return fem::get_element(x);}
extern "C" std::array<std::array<int,3>,8> w_e3(geometry::position<int,3> const&x){ return fem::get_element(x);}
extern "C" std::array<std::array<int,2>,9> w_q2(geometry::position<int,2> const&x){ return fem::get_element_4Q1(x);}
extern "C" std::array<std::array<int,3>,27> w_q3(geometry::position<int,3> const&x){ return fem::get_element_4Q1(x);}
extern "C" void w_i2(std::array<int,4>&r, DMDALocalInfo &info, geometry::position<int,2> const&x, int dof){ r = fem::get_indices(info,x,dof);}
extern "C" std::array<int,8> w_t2(DMDALocalInfo &info, geometry::position<int,2> const&x){ return fem::get_indices_tensor(info,x);}
extern "C" std::array<int,18> w_iq2(DMDALocalInfo &info, geometry::position<int,2> const&x){ return fem::get_indices_4Q1(info,x);}
'''


def run(cx):
    m = cx.ir(W)
    for d in (2, 3):
        for nm, lab, nodes, sc in (("w_e%d", "get_element<%d>", fem.corners(d), 1), ("w_q%d", "get_element_4Q1<%d>", fem.nodes3(d), 2)):
            F = Fn(m, nm % d)
            cx.saw("fem::" + lab % d)
            st = F.new_state()
            x = [F.load(st, Ptr(F.argatoms[1], num(4 * a)), 4, "i32") for a in range(d)]
            for k, c in enumerate(nodes):
                for a in range(d):
                    g = F.cell(0, 4 * (k * d + a), "i32")
                    w = x[a].scale(sc) + num(c[a])
                    cx.check(equal(F.asint(g), w), "element node", "%s[%d][%d]" % (lab % d, k, a), "computed %s\nrequired %s" % (g, w))

    def table(nm, lab, infoarg, posarg, nodes, comps, sc, dofarg=None):
        F = Fn(m, nm)
        cx.saw("fem::" + lab)
        st = F.new_state()
        def fi(f):
            return F.load(st, Ptr(F.argatoms[infoarg], num(INFO_FIELDS[f])), 4, "i32")
        x = [F.load(st, Ptr(F.argatoms[posarg], num(4 * a)), 4, "i32") for a in range(2)]
        n = len(nodes)
        for c in range(comps):
            for k, nd in enumerate(nodes):
                i = x[0].scale(sc) + num(nd[0])
                j = x[1].scale(sc) + num(nd[1])
                w = fi("dof") * ((j - fi("gys")) * fi("gxm") + i - fi("gxs")) + (num(c) if dofarg is None else Poly.of(F.argatoms[dofarg]))
                g = F.cell(0, 4 * (c * n + k), "i32")
                cx.check(equal(F.asint(g), w), "local index", "%s[%d]" % (lab, c * n + k), "computed %s\nrequired %s" % (g, w))
    table("w_i2", "get_indices", 1, 2, fem.corners(2), 1, 1, dofarg=3)
    table("w_t2", "get_indices_tensor", 1, 2, fem.corners(2), 2, 1)
    table("w_iq2", "get_indices_4Q1", 1, 2, fem.nodes3(2), 2, 2)
