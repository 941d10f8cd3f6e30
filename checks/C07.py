"""C07: radial matrix elements are the integrals they are named for."""
import program, radint
from report import Check, parallel

RULE = ("Every radial matrix element, reduced to a normal form with the quadrature rule and the basis functions left symbolic, is the sum over the rule of weight * jacobian * bra * ket * operator of the "
        "integral it is named for: over the whole element or the requested part, split at every kink of the operator, with the derivative orders asked for, and added to the rows and columns of the element's own functions.")
PARTS = ("core", "whole_basis", "named", "confine", "cross", "tei")

def run():
    C_ = Check("C07", RULE)
    P = program.load()
    def task(scal, part):
        def t(C): getattr(radint.Radint(C, P, scal), part)()
        return t
    parallel(C_, [task(s, p) for p in ("tei", "confine", "core", "cross", "named", "whole_basis") for s in ("double", "long double")])
    C_.need("integral_equations", 150)
    C_.assume = ["a Gauss-Lobatto or Gauss-Chebyshev table holds nodes and weights of a rule on [-1,1] (the tables themselves are not judged), and refining its order converges",
                 "exact real arithmetic; a model potential reports its own kinks",
                 "element functions and their derivatives are those judged by C06"]
    C_.explain = RULE
    return C_.finish()
