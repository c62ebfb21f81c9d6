#include "dagio.h"

static string encLatt (const PronunLatt& latt)
{
    std::ostringstream o;
    o << "T";
    for (const auto& chain : latt) {
        o << " [";
        for (const auto& frac : chain) {
            o << " (";
            for (const auto& s : frac) o << ' ' << encStr (s);
            o << " )";
        }
        o << " ]";
    }
    return o.str();
}
// lattice <edges>
static Reg r1 ("lattice", [] (const Args& t) {
    return encLatt (decEdges (t, 1).fracDAG().lattice());
});
