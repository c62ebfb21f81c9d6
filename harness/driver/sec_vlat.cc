#include "core.h"
#include "lattice/lattice.h"

static vector<string> split (const string& s)
{
    vector<string> f (1);
    for (char c : s) {
        if (c == ':') f.push_back (""); else f.back() += c;
    }
    return f;
}
static void put (std::ostream& o, const PronunFrac& f)
{
    o << " (";
    for (const auto& s : f) o << ' ' << encStr (s);
    o << " )";
}
static void put (std::ostream& o, const PronunChain& c)
{
    o << " [";
    for (const auto& f : c) put (o, f);
    o << " ]";
}
template<typename T>
static bool value (const string& op, T& a, const T& b)
{
    if (op == "asg") { a = b; }
    else if (op == "cpy") { T x (b); a = x; }
    else if (op == "mov") { T x (b); T y (std::move (x)); a = y; }
    else return false;
    return true;
}

// vlat <op>... : a history of operations on alternatives (f), chains (c) and
// lattices (l), four of each
static Reg r1 ("vlat", [] (const Args& t) {
    PronunFrac F[4];
    PronunChain C[4];
    PronunLatt L[4];
    std::ostringstream o;
    o << "V";
    for (size_t n = 1; n < t.size(); ++n) {
        auto f = split (t[n]);
        const string op = f[0].substr (1);
        int i = num (f.at (1)) % 4, j = f.size() > 2 ? num (f[2]) % 4 : 0;
        if (f[0][0] == 'f') {
            if (op == "new") F[i] = PronunFrac();
            else if (op == "mk") { PronunFrac x (num (f.at (3)), decStr (f.at (2))); F[i] = x; }
            else if (op == "set") F[i] = decStr (f.at (2));
            else if (op == "adds") F[i] += decStr (f.at (2));
            else if (op == "add") F[i] += F[j];
            else if (op == "setend") F[i].setEndPos (num (f.at (2)));
            else if (op == "end") o << " e" << F[i].endPos();
            else if (op == "cnt") o << " n" << F[i].altCount();
            else if (op == "eq") o << " q" << (F[i] == F[j]);
            else if (!value (op, F[i], F[j])) throw BadRequest (op);
        } else if (f[0][0] == 'c') {
            if (op == "new") C[i] = PronunChain();
            else if (op == "mk") { PronunChain x (F[j]); C[i] = x; }
            else if (op == "addf") C[i] += F[j];
            else if (op == "add") C[i] += C[j];
            else if (op == "merge") C[i].mergeSingles();
            else if (!value (op, C[i], C[j])) throw BadRequest (op);
        } else {
            if (op == "new") L[i] = PronunLatt();
            else if (op == "mk") { PronunLatt x (C[j]); L[i] = x; }
            else if (op == "addc") L[i] += C[j];
            else if (op == "merge") L[i].mergeSingles();
            else if (op == "cnt") o << " n" << L[i].altCount();
            else if (!value (op, L[i], L[j])) throw BadRequest (op);
        }
    }
    o << " |";
    for (const auto& x : F) put (o, x);
    for (const auto& x : C) put (o, x);
    for (const auto& l : L) {
        o << " {";
        for (const auto& c : l) put (o, c);
        o << " }";
    }
    return o.str();
});
