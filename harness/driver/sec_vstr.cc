#include "core.h"

static vector<string> split (const string& s)
{
    vector<string> f (1);
    for (char c : s) {
        if (c == ':') f.push_back (""); else f.back() += c;
    }
    return f;
}

// vstr <op>... : a history of operations on six strings; answers queries and
// ends with the contents of all
static Reg r1 ("vstr", [] (const Args& t) {
    SylString s[6];
    std::ostringstream o;
    o << "V";
    for (size_t n = 1; n < t.size(); ++n) {
        auto f = split (t[n]);
        const string& op = f[0];
        SylString& a = s[num (f.at (1)) % 6];
        if (op == "set") { a = decStr (f.at (2)); }
        else if (op == "one") { a = decSyl (f.at (2)); }
        else if (op == "mk") { SylString x (decSyl (f.at (2))); a = x; }
        else if (op == "push") { a += decSyl (f.at (2)); }
        else if (op == "new") { a = SylString(); }
        else if (op == "end") { o << " e" << a.endPos(); }
        else if (op == "dump") { o << ' ' << encStr (a); }
        else if (op == "at") {
            int k = num (f.at (2));
            for (auto& y : a) if (k-- == 0) y.setEndPos (num (f.at (3)));
        } else {
            SylString& b = s[num (f.at (2)) % 6];
            if (op == "add") { a += b; }
            else if (op == "asg") { a = b; }
            else if (op == "cpy") { SylString x (b); a = x; }
            else if (op == "mov") { SylString x (b); SylString y (std::move (x)); a = y; }
            else if (op == "eq") { o << " q" << (a == b) << (a != b); }
            else throw BadRequest (op);
        }
    }
    o << " |";
    for (const auto& x : s) o << ' ' << encStr (x);
    return o.str();
});
