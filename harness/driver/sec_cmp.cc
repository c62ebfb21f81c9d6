#include "core.h"

// '-' for an operator that the class does not have
#define OPER(name, op) \
    template<typename T> static auto name (const T& a, const T& b, int) \
        -> decltype ((a op b) ? '1' : '0') { return (a op b) ? '1' : '0'; } \
    template<typename T> static char name (const T&, const T&, long) { return '-'; }
OPER (opEq, ==)
OPER (opNe, !=)
OPER (opLt, <)
OPER (opGt, >)
OPER (opLe, <=)
OPER (opGe, >=)

template<typename T>
static string six (const T& a, const T& b)
{
    return string ("C ") + opEq (a, b, 0) + opNe (a, b, 0) + opLt (a, b, 0)
           + opGt (a, b, 0) + opLe (a, b, 0) + opGe (a, b, 0);
}
// cmp <string> <string>
static Reg r1 ("cmp", [] (const Args& t) { return six (decStr (t.at (1)), decStr (t.at (2))); });
// cmpsyl <syl> <syl>
static Reg r2 ("cmpsyl", [] (const Args& t) { return six (decSyl (t.at (1)), decSyl (t.at (2))); });
// cmpall <string>... : six operators for all ordered pairs
static Reg r3 ("cmpall", [] (const Args& t) {
    vector<SylString> v;
    for (size_t i = 1; i < t.size(); ++i) v.push_back (decStr (t[i]));
    string o = "M";
    for (const auto& a : v) for (const auto& b : v) o += six (a, b).substr (1);
    return o;
});
// desc <description>
static Reg r4 ("desc", [] (const Args& t) { return "S " + encStr (SylString (hexDec (t.at (1)))); });
// desc1 <description of one syllable> <default end>
static Reg r5 ("desc1", [] (const Args& t) { return "S " + encSyl (Syl (hexDec (t.at (1)), num (t.at (2)))); });
// concat <string> <string>
static Reg r6 ("concat", [] (const Args& t) {
    SylString a = decStr (t.at (1)), b = decStr (t.at (2));
    a += b;
    return "S " + encStr (a) + " " + encStr (b);
});
