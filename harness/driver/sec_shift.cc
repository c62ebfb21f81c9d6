#include "core.h"

// shift <offset> <string>
static Reg r1 ("shift", [] (const Args& t) {
    SylString s = decStr (t.at (2));
    s.shiftEndPos (num (t.at (1)));
    return "S " + encStr (s);
});
