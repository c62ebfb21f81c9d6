#include "dagio.h"

// strdag <pos> <string>...
static Reg r1 ("strdag", [] (const Args& t) {
    PronunDAG d;
    for (size_t i = 2; i < t.size(); ++i) d.addSylString (num (t[1]), decStr (t[i]));
    return encEdges (d);
});
