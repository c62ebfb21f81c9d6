#include "dagio.h"
#include "outfmt.h"

// syl <notation> <syl>...
static Reg r1 ("syl", [] (const Args& t) {
    auto so = mkSylOut (t.at (1).at (0));
    string o = "O";
    for (size_t i = 2; i < t.size(); ++i) o += " " + hexEnc (so->output (decSyl (t[i])));
    return o;
});
// str <format> <string>...
static Reg r2 ("str", [] (const Args& t) {
    auto so = mkOut (t.at (1));
    string o = "O";
    for (size_t i = 2; i < t.size(); ++i) o += " " + hexEnc (so->output (decStr (t[i])));
    return o;
});
// strs <format> <string>...
static Reg r3 ("strs", [] (const Args& t) {
    std::list<SylString> l;
    for (size_t i = 2; i < t.size(); ++i) l.push_back (decStr (t[i]));
    return "O " + hexEnc (mkOut (t.at (1))->output (l));
});
// dagout <format> <edges>
static Reg r4 ("dagout", [] (const Args& t) {
    return "O " + hexEnc (mkOut (t.at (1))->output (decEdges (t, 2)));
});
