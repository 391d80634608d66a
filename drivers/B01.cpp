// Calculated buses of random levels against sets computed from the switch positions.
#include "topo.hpp"

using namespace vp;

void run() {
    for (const auto& f : networks()) { at(f.first); Network n = f.second(); checkTopology(n, false); }
    for (int i = 0; i < (st().thorough ? 2500 : 300); ++i) {
        at("random network " + str(i));
        Network n = randomNetwork("r" + str(i), 1 + rnd(6));
        checkTopology(n, false);
        for (int k = 0; k < 3; ++k) {
            for (Switch& w : n.getSwitches()) { if (rnd(3) == 0) { w.setOpen(!w.isOpen()); } }
            checkTopology(n, false);
        }
    }
}
