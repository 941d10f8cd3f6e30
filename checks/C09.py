"""C09: Coulomb and exchange matrices match the two-electron integrals."""
import program, qatomic, qdiatomic
from report import Check, parallel

RULE = ("The Coulomb matrix is J_ij = sum_kl (ij|kl) P_kl and the exchange matrix K_ij = -sum_kl (ik|jl) P_kl of the same two-electron integrals, with the density and all radial integrals left symbolic: every "
        "pair of channels, every multipole with its Gaunt coefficients and prefactor, every pair of elements (own element, inner and outer moments), for the Coulomb, Yukawa and complementary error function kernels, "
        "and nothing is dropped except below a threshold of at most 1e-12.")

def run():
    C_ = Check("C09", RULE)
    P = program.load()
    def task(mod, cls, job, *a):
        def t(C): getattr(getattr(mod, cls)(C, P, *a), job)()
        return t
    T = []
    for s in ("double", "long double"):
        T += [task(qatomic, "AtomicJobs", j, s) for j in ("rs_exchange", "exchange", "coulomb")]
    T += [task(qatomic, "AtomicJobs", "radial_two_electron", "double")]
    T += [task(qatomic, "SadatomJobs", j) for j in ("sexchange", "scoulomb")]
    T += [task(qdiatomic, "DiatomicJobs", j) for j in ("dcoulomb", "dexchange", "dexchange_absm")]
    parallel(C_, T)
    C_.need("matrices", 30)
    C_.assume = ["the radial integrals of an element are those judged by C07 and the angular couplings those judged by C08", "a Cholesky factor of the two-electron integrals of an element reproduces them to the requested threshold"]
    C_.explain = RULE + " The interpretation is exact in all real quantities; the discrete structure is enumerated (two and three elements of unequal size, channel lists with mixed l and m including incomplete shells)."
    return C_.finish()
