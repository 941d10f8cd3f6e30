"""C10: symmetry blocks and function lists describe the basis."""
import program, qsym
from report import Check, parallel

RULE = ("Interpreted over several element layouts and channel lists: every list of functions a basis hands out (by element, m, (l,m), parity, symmetry block, mirror block, boundary removal) holds exactly the functions with the "
        "stated property, blocks cover every function once, labels and mirrors are in step with the blocks, unknown symmetries are rejected.")

def run():
    C_ = Check("C10", RULE)
    P = program.load()
    def task(cls, *a):
        def t(C): getattr(qsym, cls)(C, P, *a).job()
        return t
    parallel(C_, [task("DiatomicSym"), task("AtomicSym", "double"), task("AtomicSym", "long double")])
    C_.need("index_facts", 1000)
    C_.assume = ["diatomic channel lists with --symmetry=3 contain -m for every m, as the program builds them"]
    C_.explain = RULE
    return C_.finish()
