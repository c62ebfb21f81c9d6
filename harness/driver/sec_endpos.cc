#include "core.h"

// endpos <string>
static Reg r1 ("endpos", [] (const Args& t) {
    return "N " + std::to_string (decStr (t.at (1)).endPos());
});
