"""C12: what the grids evaluate is the basis, its derivatives, its densities and its measure."""
import program, qgrid
from report import Check, parallel

RULE = ("Interpreted: quadrature rules and spherical harmonics are combined into the grids' points, weights and scale factors; basis functions and derivatives at the points, the densities, gradients, tau and Laplacian "
        "contracted from a density matrix, particle numbers, projections and overlaps on the two-dimensional grid equal the textbook expressions as analytic functions (compared at generic points).")

def run():
    C_ = Check("C12", RULE)
    P = program.load()
    def task(cls):
        def t(C): getattr(qgrid, cls)(C, P).job()
        return t
    parallel(C_, [task(c) for c in ("DiatomGrid", "AtomGrid", "PureGrid", "PureGridAbs", "SadGrid", "QuadGrid", "RuleJobs", "Lcao")])
    C_.need("grid_values", 3000)
    C_.explain = RULE
    return C_.finish()
