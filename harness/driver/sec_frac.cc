#include "core.h"
#include "lattice/lattice.h"

// frac <string>... (in insertion order)
static Reg r4 ("frac", [] (const Args& t) {
    PronunFrac f;
    for (size_t i = 1; i < t.size(); ++i) f += decStr (t[i]);
    string o = "F";
    for (const auto& s : f) o += " " + encStr (s);
    return o;
});
