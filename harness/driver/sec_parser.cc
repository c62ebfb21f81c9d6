#include "dagio.h"
#include "outfmt.h"
#include "parser/parser.h"
#include <type_traits>

static std::map<string, std::unique_ptr<Parser>> gParsers;
static RegReset rr ([] { gParsers.clear(); });

// the constructor that takes a dictionary, where there is one
template<typename P>
static typename std::enable_if<std::is_constructible<P, const char*, bool>::value, P*>::type
withDict (const char* path, bool seg, int) { return new P (path, seg); }
template<typename P>
static P* withDict (const char* path, bool seg, long)
{
    P* p = new P (seg);
    p->loadExceptDict (path);
    return p;
}

// parser <id> <0|1 segmentation> <dict|-> <ctor|load>
static Reg r1 ("parser", [] (const Args& t) {
    string path = hexDec (t.at (3));
    std::unique_ptr<Parser> p;
    bool ok = false;
    if (t.at (4) == "ctor") {
        p.reset (withDict<Parser> (path.c_str(), t.at (2) == "1", 0));
        ok = true;
    } else {
        p.reset (new Parser (t.at (2) == "1"));
        if (!path.empty()) ok = p->loadExceptDict (path.c_str());
    }
    gParsers[t.at (1)] = std::move (p);
    return string ("ok ") + (ok ? "1" : "0");
});
// load <id> <dict>
static Reg r2 ("load", [] (const Args& t) {
    bool ok = gParsers.at (t.at (1))->loadExceptDict (hexDec (t.at (2)).c_str());
    return string ("ok ") + (ok ? "1" : "0");
});
// parse <id> <word>
static Reg r3 ("parse", [] (const Args& t) {
    return encEdges (gParsers.at (t.at (1))->parseWord (hexDec (t.at (2))));
});
// word <id> <word> <format>...
static Reg r4 ("word", [] (const Args& t) {
    auto d = gParsers.at (t.at (1))->parseWord (hexDec (t.at (2)));
    string o = "O";
    for (size_t i = 3; i < t.size(); ++i) o += " " + hexEnc (mkOut (t[i])->output (d));
    return o;
});
// again <id> <n> <format> <dict|-> <word>... : round after round, n in all (the
// dictionary is loaded in each of them), until a result is not that of the first
// round; number of analyses, first results
static Reg r5 ("again", [] (const Args& t) {
    Parser& p = *gParsers.at (t.at (1));
    long n = std::atol (t.at (2).c_str()), k = 0;
    string dict = hexDec (t.at (4));
    vector<string> words, first;
    for (size_t i = 5; i < t.size(); ++i) words.push_back (hexDec (t[i]));
    auto out = mkOut (t.at (3));
    bool same = true;
    while (same && k < n) {
        if (!dict.empty()) p.loadExceptDict (dict.c_str());
        for (size_t i = 0; same && i < words.size(); ++i, ++k) {
            auto d = p.parseWord (words[i]);
            string r = hexEnc (encEdges (d) + "|" + out->output (d));
            if (first.size() < words.size()) first.push_back (r); else same = r == first[i];
        }
    }
    string o = string (same ? "A 1 " : "A 0 ") + std::to_string (k);
    for (const auto& f : first) o += " " + f;
    return o;
});
