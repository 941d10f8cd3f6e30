"""C11: the SCF drivers minimise the energy they print."""
import program, qdriver
from report import Check, parallel

RULE = ("The drivers are interpreted with symbolic matrices up to and including the Fock builder they hand to the solver: for symbolic orbitals and occupations, the energy is the energy functional of the density, the Fock blocks "
        "are its derivative in the orthonormal basis of each block, block sizes, maximum occupations and electron numbers describe the requested state, the initial guess, loaded and frozen occupations are those asked for, and "
        "what is saved is the final density.")

def run():
    C_ = Check("C11", RULE)
    P = program.load()
    def task(cls, part=None):
        def t(C):
            j = getattr(qdriver, cls)(C, P); j.part = part; j.job()
        return t
    T = [task("ElectronJobs"), task("SadatomDriver")]
    for k in range(3): T += [task("DiatomicDriver", (k, 3)), task("AtomicDriver", (k, 3))]
    parallel(C_, T)
    C_.need("scenarios", 60)
    C_.need("electron_counts", 2500)
    C_.need("energies", 60)
    C_.assume = ["the matrices returned by the bases are those judged by C07-C09 and the exchange-correlation matrix is the derivative of its energy (C05)", "the solver calls the Fock builder it is given (OpenOrbitalOptimizer is outside the repository)"]
    C_.explain = RULE + " Exact in all matrix elements, orbitals, occupations, fields, charges and distances; options, symmetries and functional kinds are enumerated."
    return C_.finish()
