#include "core.h"
#include "lattice/lattice.h"

// altcount <string>...
static Reg r1 ("altcount", [] (const Args& t) {
    PronunFrac f;
    for (size_t i = 1; i < t.size(); ++i) f += decStr (t[i]);
    return "N " + std::to_string (f.altCount());
});
