// Parse-only: instantiates public header templates that no program in the
// tree instantiates, so that their bodies are part of the analysed program.
#include <helfem.h>
#include "CoulombExchangeFE.h"
#include "GTO.h"
#include "STO.h"
namespace helfem_verif_instantiate {
  using namespace helfem::atomic::basis;
  auto t1 = &compute_in_element_tei<double>;
  auto t2 = &compute_in_element_tei<long double>;
  auto k1 = &compute_in_element_ktei_from_tei<double>;
  auto k2 = &compute_in_element_ktei_from_tei<long double>;
}
