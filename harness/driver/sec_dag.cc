#include "dagio.h"

static std::map<string, PronunDAG> gDags;
static RegReset rr ([] { gDags.clear(); });
static PronunDAG& G (const string& id) { return gDags.at (id); }
static string R (bool b) { return b ? "r 1" : "r 0"; }

static Reg r1 ("gnew", [] (const Args& t) { gDags[t.at (1)] = PronunDAG(); return string ("ok"); });
static Reg r2 ("gcopy", [] (const Args& t) { PronunDAG tmp (G (t.at (1))); gDags[t.at (2)] = tmp; return string ("ok"); });
static Reg r3 ("gassign", [] (const Args& t) { PronunDAG& d = gDags[t.at (2)]; d = G (t.at (1)); return string ("ok"); });
// move-construct from a scratch copy
static Reg r4 ("gmove", [] (const Args& t) {
    PronunDAG tmp (G (t.at (1)));
    PronunDAG moved (std::move (tmp));
    gDags[t.at (2)] = moved;
    return string ("ok");
});
static Reg r5 ("gadd", [] (const Args& t) { return R (G (t.at (1)).addEdge (num (t.at (2)), num (t.at (3)), decSyl (t.at (4)))); });
static Reg r6 ("gdel", [] (const Args& t) { return R (G (t.at (1)).removeEdge (num (t.at (2)), num (t.at (3)), decSyl (t.at (4)))); });
static Reg r7 ("gdeld", [] (const Args& t) { return R (G (t.at (1)).removeDirectEdges (num (t.at (2)), num (t.at (3)))); });
static Reg r8 ("gunion", [] (const Args& t) { G (t.at (1)).unionDAG (G (t.at (2))); return string ("ok"); });
static Reg r9 ("ghas", [] (const Args& t) { return R (G (t.at (1)).isEdgeExist (num (t.at (2)), num (t.at (3)), decSyl (t.at (4)))); });
// gstate <id> <node>... : everything observable
static Reg r10 ("gstate", [] (const Args& t) {
    const PronunDAG& d = G (t.at (1));
    std::ostringstream o;
    o << encEdges (d) << " I";
    for (auto it = d.inBegin(); it != d.inEnd(); ++it)
        o << ' ' << it->second.target << ' ' << it->first << ' ' << encSyl (it->second.edgeVal);
    for (size_t i = 2; i < t.size(); ++i) {
        int n = num (t[i]), k = 0, m = 0;
        o << " N " << n << ' ' << d.outDegree (n) << ' ' << d.inDegree (n);
        auto r = d.outEdges (n);
        for (auto it = r.first; it != r.second; ++it) ++k;
        auto q = d.inEdges (n);
        for (auto it = q.first; it != q.second; ++it) ++m;
        o << ' ' << k << ' ' << m;
    }
    return o.str();
});
