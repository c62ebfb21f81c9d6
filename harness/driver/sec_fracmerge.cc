#include "core.h"
#include "lattice/lattice.h"

// fracmerge <string>... / <string>...
static Reg r5 ("fracmerge", [] (const Args& t) {
    PronunFrac f, g, *cur = &f;
    for (size_t i = 1; i < t.size(); ++i) {
        if (t[i] == "/") cur = &g; else *cur += decStr (t[i]);
    }
    bool eq = f == g;
    f += g;
    string o = eq ? "F 1" : "F 0";
    for (const auto& s : f) o += " " + encStr (s);
    return o;
});
