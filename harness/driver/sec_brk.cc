#include "core.h"
#include <thai/thwbrk.h>

static ThBrk* gBrk = nullptr;
static RegReset rr ([] { if (gBrk) th_brk_delete (gBrk); gBrk = nullptr; });

// breaks <word as utf-16 units>: what libthai itself says
static Reg r1 ("breaks", [] (const Args& t) {
    if (!gBrk) gBrk = th_brk_new (nullptr);
    u16string w = hexDec16 (t.at (1));
    std::wstring ww;
    for (auto ch : w) ww += static_cast<wchar_t> (ch);
    vector<int> b (w.size() + 1, 0);
    int n = th_brk_wc_find_breaks (gBrk, ww.c_str(), b.data(), b.size());
    std::ostringstream o;
    o << "B";
    for (int i = 0; i < n; ++i) o << ' ' << b[i];
    return o.str();
});
