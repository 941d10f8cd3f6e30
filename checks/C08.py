"""C08: one-electron matrices and angular couplings match their definitions."""
import program, qatomic, qgaunt, qdiatomic
from report import Check, parallel

RULE = ("Every one-electron matrix, interpreted over a basis of several unequal elements and a list of (l,m) channels with all radial integrals, charges, fields and distances left symbolic, equals the "
        "matrix written from the operator: the right radial integral with the right angular coefficient in every block, zero elsewhere; every Gaunt coefficient and angular coupling the code returns equals "
        "the integral over the sphere; coefficients outside of the stored window are refused.")

def run():
    C_ = Check("C08", RULE)
    P = program.load()
    def task(mod, cls, job, *a):
        def t(C): getattr(getattr(mod, cls)(C, P, *a), job)()
        return t
    T = []
    for s in ("double", "long double"):
        T += [task(qgaunt, "GauntJobs", j, s) for j in ("lookup", "couplings")] + [task(qatomic, "AtomicJobs", "one_electron", s)]
    T = [task(qdiatomic, "DiatomicJobs", "one_electron")] + T + [task(qgaunt, "GauntJobs", "free", "double"), task(qatomic, "SadatomJobs", "one_electron")]
    parallel(C_, T)
    C_.need("matrices", 80); C_.need("couplings", 8000); C_.need("gaunt_coefficients", 5000)
    C_.assume = ["radial integrals are those judged by C07", "exact arithmetic apart from the numerical value of the angular integrals, which are compared to 1e-9"]
    C_.explain = RULE + (" The interpretation is exact in all real quantities; the discrete structure (elements, channels, angular momenta) is enumerated: three element layouts, channel lists up to l=3 with "
                         "all signs of m, couplings up to l=4.")
    return C_.finish()
