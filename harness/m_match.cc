// Monitors of the matching functions against the pointwise oracle.
#include "eps.hh"
using namespace mon;

int main(int argc, char **argv) {
  installExitTrap();
  std::vector<Monitor> ms;
  auto add = [&](std::string n, Kind k, int what) {
    ms.push_back({n, [k, what](Rng &r, uint64_t) { return genCase(r, k, what == Sound); },
                  [what](const std::string &t, Ctx &cx) { checkMatch(t, cx, what); }});
  };
  add("dollar-sound", KDollar, Sound);
  add("dollar-complete", KDollar, Complete);
  add("plain-exact", KPlain, Sound | Complete);
  add("nn-dollar", KNN, Sound | Complete);
  add("nn-mixed", KMixed, Sound | Complete);
  auto zones = [&](std::string n, Kind k) {
    ms.push_back({n, [k](Rng &r, uint64_t) { return genCase(r, k, true); }, checkZones});
  };
  ms.push_back({"eps-exact", [](Rng &r, uint64_t) { return genEpsCase(r); }, checkEps, 20, 2});
  zones("dollar-zones", KDollar);
  zones("plain-zones", KPlain);
  zones("nn-zones", KMixed);
  return runnerMain(argc, argv, ms);
}
