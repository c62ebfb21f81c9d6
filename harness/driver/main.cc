#include "core.h"

#include <iostream>

std::map<string, Handler>& handlers() { static std::map<string, Handler> h; return h; }
std::vector<std::function<void()>>& resetters() { static std::vector<std::function<void()>> r; return r; }

string hexEnc (const string& s)
{
    if (s.empty()) return "-";
    static const char* d = "0123456789abcdef";
    string o;
    o.reserve (s.size() * 2);
    for (unsigned char ch : s) { o += d[ch >> 4]; o += d[ch & 15]; }
    return o;
}
static int hv (char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    throw BadRequest ("hex");
}
string hexDec (const string& s)
{
    if (s == "-") return "";
    if (s.size() % 2) throw BadRequest ("hex length");
    string o;
    for (size_t i = 0; i < s.size(); i += 2) o += char (hv (s[i]) * 16 + hv (s[i+1]));
    return o;
}
u16string hexDec16 (const string& s)
{
    string b = hexDec (s);
    u16string o;
    for (size_t i = 0; i + 1 < b.size(); i += 2)
        o += char16_t ((static_cast<unsigned char> (b[i]) << 8) | static_cast<unsigned char> (b[i+1]));
    return o;
}
string hexEnc16 (const u16string& s)
{
    string b;
    for (char16_t c : s) { b += char (c >> 8); b += char (c & 0xff); }
    return hexEnc (b);
}
string encSyl (const Syl& s)
{
    string o;
    if (s.isLiteral()) {
        o = "L" + hexEnc16 (s.literal());
    } else if (s == Syl::Blank) {
        o = "B";
    } else {
        o = "S";
        o += enc (kInit, s.iCons1());
        o += enc (kSec, s.iCons2());
        o += enc (kVowel, s.vowel());
        o += enc (kEnd, s.eCons());
        o += enc (kTone, s.tone());
    }
    return o + "@" + std::to_string (s.endPos());
}
Syl decSyl (const string& t)
{
    size_t at = t.rfind ('@');
    if (at == string::npos || t.empty()) throw BadRequest ("syl " + t);
    int end = std::atoi (t.c_str() + at + 1);
    if (t[0] == 'L') return Syl (end, hexDec16 (t.substr (1, at - 1)));
    if (t[0] == 'B') return Syl (end);
    if (t[0] != 'S' || at != 6) throw BadRequest ("syl " + t);
    return Syl (dec<EInitConsSound> (kInit, t[1]), dec<ESecInitCons> (kSec, t[2]),
                dec<EVowel> (kVowel, t[3]), dec<EEndConsClass> (kEnd, t[4]),
                dec<ETone> (kTone, t[5]), end);
}
SylString decStr (const string& t)
{
    SylString s;
    if (t == "~") return s;
    size_t b = 0;
    while (true) {
        size_t e = t.find (',', b);
        s += decSyl (t.substr (b, e == string::npos ? string::npos : e - b));
        if (e == string::npos) break;
        b = e + 1;
    }
    return s;
}
string encStr (const SylString& s)
{
    string o;
    for (const auto& x : s) { if (!o.empty()) o += ","; o += encSyl (x); }
    return o.empty() ? "~" : o;
}

static Reg r_ping ("ping", [] (const Args&) { return string ("pong"); });
static Reg r_cmds ("commands", [] (const Args&) {
    string o = "ok";
    for (const auto& h : handlers()) o += " " + h.first;
    return o;
});
static Reg r_reset ("reset", [] (const Args&) {
    for (auto& f : resetters()) f();
    return string ("ok");
});

int main ()
{
    std::ios::sync_with_stdio (false);
    std::cin.tie (nullptr);
    string line;
    while (std::getline (std::cin, line)) {
        std::istringstream is (line);
        Args t;
        string x;
        while (is >> x) t.push_back (x);
        if (t.empty()) continue;
        string r;
        try {
            auto h = handlers().find (t[0]);
            if (h == handlers().end()) throw BadRequest ("unknown command " + t[0]);
            r = h->second (t);
        } catch (const BadRequest& e) {
            r = string ("BAD ") + e.what();
        } catch (const std::exception& e) {
            r = string ("EXC ") + hexEnc (e.what());
        }
        std::cout << r << '\n';
        if (std::cin.rdbuf()->in_avail() <= 0) std::cout.flush();
    }
    std::cout.flush();
    for (auto& f : resetters()) f();
    return 0;
}
