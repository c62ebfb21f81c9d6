#include "core.h"

// cons <utf-16 unit>
static Reg r1 ("cons", [] (const Args& t) {
    char16_t ch = hexDec16 (t.at (1)).at (0);
    std::ostringstream o;
    o << "K " << enc (kClass, InitConsClass (ch)) << ' ' << enc (kInit, InitConsSound (ch))
      << ' ' << enc (kEnd, EndConsClass (ch));
    return o.str();
});
// tone <class> <written> <dead> <short>
static Reg r2 ("tone", [] (const Args& t) {
    ETone r = ToneFromWritten (dec<EInitConsClass> (kClass, t.at (1)[0]), dec<ETone> (kTone, t.at (2)[0]),
                               t.at (3) == "1", t.at (4) == "1");
    return string ("T ") + enc (kTone, r);
});
