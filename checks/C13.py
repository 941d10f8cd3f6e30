"""C13: tabulated and computed spherical atoms, their screening charges and radii, and the model potentials."""
import program, qatomout
from report import Check, parallel

RULE = ("Interpreted: the radial quantities of tabulated and freshly computed spherical atoms (density, gradient, Laplacian, kinetic energy density, enclosed charge, Coulomb and exchange-correlation screening) equal the textbook "
        "expressions of the same orbitals; radius searches find the crossing on an enumerated family of profiles; nuclear models, GSZ, Thomas-Fermi and tabulated potentials equal their definitions at every branch and boundary.")

def run():
    C_ = Check("C13", RULE)
    P = program.load()
    def task(cls):
        def t(C): getattr(qatomout, cls)(C, P).job()
        return t
    parallel(C_, [task(c) for c in ("AtomDB", "SadOut", "Potentials", "Records")])
    C_.need("radial_values", 250)
    C_.need("potential_values", 250)
    C_.need("searches", 20)
    C_.need("record_values", 20)
    C_.explain = RULE
    return C_.finish()
