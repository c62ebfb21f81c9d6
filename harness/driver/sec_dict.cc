#include "core.h"
#include "dict/dict.h"
#include <list>
#include <vector>

static std::map<string, std::unique_ptr<Dict>> gDicts;
static RegReset rr ([] { gDicts.clear(); });

// dict <id> <path>
static Reg r1 ("dict", [] (const Args& t) {
    std::unique_ptr<Dict>& d = gDicts[t.at (1)];
    if (!d) d.reset (new Dict);
    bool ok = d->open (hexDec (t.at (2)).c_str());
    return string (ok ? "ok 1" : "ok 0");
});
// match <dict> <pos> <word utf-16>
static Reg r2 ("match", [] (const Args& t) {
    u16string w = hexDec16 (t.at (3));
    Match m (w, num (t.at (2)), gDicts.at (t.at (1)).get());
    std::ostringstream o;
    o << "M";
    while (m.findNext()) o << ' ' << m.getCurPos() << ' ' << hexEnc (m.getData());
    return o.str();
});

// matches <schedule> {<dict> <pos> <word utf-16>}: look-ups in turn, each step
// moving on the one given by the next letter of the schedule
static Reg r3 ("matches", [] (const Args& t) {
    std::list<u16string> ws;
    std::vector<std::unique_ptr<Match>> ms;
    for (size_t i = 2; i + 2 < t.size(); i += 3) {
        ws.push_back (hexDec16 (t.at (i + 2)));
        ms.emplace_back (new Match (ws.back(), num (t.at (i + 1)), gDicts.at (t.at (i)).get()));
    }
    std::ostringstream o;
    o << "M";
    for (char c : t.at (1)) {
        Match& m = *ms.at (c - 'a');
        if (!m.findNext()) { o << " -"; continue; }
        string a = m.getData(), b = m.getData();
        o << ' ' << m.getCurPos() << ':' << (a == b ? hexEnc (a) : string ("?"));
    }
    return o.str();
});
