#ifndef DRIVER_DAGIO_H
#define DRIVER_DAGIO_H

#include "core.h"
#include "lattice/pron-dag.h"

template<typename D>
inline string encEdges (const D& dag)
{
    std::ostringstream o;
    o << "E";
    for (auto it = dag.outBegin(); it != dag.outEnd(); ++it)
        o << ' ' << it->first << ' ' << it->second.target << ' ' << encSyl (it->second.edgeVal);
    return o.str();
}
inline PronunDAG decEdges (const Args& t, size_t i)
{
    PronunDAG d;
    for (; i + 2 < t.size(); i += 3)
        d.addEdge (num (t[i]), num (t[i+1]), decSyl (t[i+2]));
    return d;
}

#endif
