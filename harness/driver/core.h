// Line-protocol test driver: exposes the public interfaces of the code under
// test.  One request per line, one response line per request.  Strings travel
// as hex ("-" = empty).  The driver holds no oracle: all judging is done by
// the caller.  Every sec_*.cc file registers a group of commands and is
// compiled on its own.

#ifndef DRIVER_CORE_H
#define DRIVER_CORE_H

#include "sylstring/sylstring.h"
#include "thortho/thcons.h"

#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

using std::string;
using std::u16string;
using std::vector;

typedef vector<string> Args;
typedef std::function<string (const Args&)> Handler;

std::map<string, Handler>& handlers();
std::vector<std::function<void()>>& resetters();

struct Reg {
    Reg (const char* name, Handler h) { handlers()[name] = h; }
};
struct RegReset {
    RegReset (std::function<void()> f) { resetters().push_back (f); }
};

// ---- code <-> enum maps (kept here so that the driver does not rely on the
// ---- converters that are themselves under test)

static const struct { char c; EInitConsSound v; } kInit[] = {
    {'*', EInitConsSound::INVALID},
    {'k', EInitConsSound::KA}, {'c', EInitConsSound::KHA}, {'g', EInitConsSound::NGA},
    {'j', EInitConsSound::JA}, {'J', EInitConsSound::CHA}, {'y', EInitConsSound::YA},
    {'d', EInitConsSound::DA}, {'t', EInitConsSound::TA}, {'T', EInitConsSound::THA},
    {'n', EInitConsSound::NA}, {'b', EInitConsSound::BA}, {'p', EInitConsSound::PA},
    {'P', EInitConsSound::PHA}, {'f', EInitConsSound::FA}, {'m', EInitConsSound::MA},
    {'r', EInitConsSound::RA}, {'l', EInitConsSound::LA}, {'w', EInitConsSound::WA},
    {'s', EInitConsSound::SA}, {'h', EInitConsSound::HA}, {'?', EInitConsSound::A},
};
static const struct { char c; ESecInitCons v; } kSec[] = {
    {'_', ESecInitCons::NONE}, {'r', ESecInitCons::RA},
    {'l', ESecInitCons::LA}, {'w', ESecInitCons::WA},
};
static const struct { char c; EVowel v; } kVowel[] = {
    {'*', EVowel::INVALID},
    {'a', EVowel::A}, {'A', EVowel::AA}, {'i', EVowel::I}, {'I', EVowel::II},
    {'v', EVowel::UE}, {'V', EVowel::UEE}, {'u', EVowel::U}, {'U', EVowel::UU},
    {'e', EVowel::E}, {'E', EVowel::EE}, {'x', EVowel::AE}, {'X', EVowel::AEE},
    {'y', EVowel::IA}, {'Y', EVowel::IAA}, {'z', EVowel::UEA}, {'Z', EVowel::UEAA},
    {'t', EVowel::UA}, {'T', EVowel::UAA}, {'o', EVowel::O}, {'O', EVowel::OO},
    {'c', EVowel::AU}, {'C', EVowel::AUU}, {'w', EVowel::OE}, {'W', EVowel::OEE},
};
static const struct { char c; EEndConsClass v; } kEnd[] = {
    {'_', EEndConsClass::NONE}, {'k', EEndConsClass::KOK}, {'t', EEndConsClass::KOT},
    {'p', EEndConsClass::KOP}, {'g', EEndConsClass::KONG}, {'n', EEndConsClass::KON},
    {'m', EEndConsClass::KOM}, {'y', EEndConsClass::KOEY}, {'w', EEndConsClass::KOEW},
};
static const struct { char c; ETone v; } kTone[] = {
    {'*', ETone::INVALID}, {'0', ETone::SAMAN}, {'1', ETone::EK},
    {'2', ETone::THO}, {'3', ETone::TRI}, {'4', ETone::CHATTAWA},
};
static const struct { char c; EInitConsClass v; } kClass[] = {
    {'*', EInitConsClass::INVALID}, {'H', EInitConsClass::HIGH}, {'M', EInitConsClass::MID},
    {'P', EInitConsClass::LOWP}, {'S', EInitConsClass::LOWS},
};

struct BadRequest : std::runtime_error {
    BadRequest (const string& m) : std::runtime_error (m) {}
};

template<typename T, size_t N, typename V>
inline char enc (const T (&tbl)[N], V v)
{
    for (const auto& e : tbl) if (e.v == v) return e.c;
    return '!';
}
template<typename V, typename T, size_t N>
inline V dec (const T (&tbl)[N], char c)
{
    for (const auto& e : tbl) if (e.c == c) return e.v;
    throw BadRequest (string ("bad code ") + c);
}

string hexEnc (const string& s);
string hexDec (const string& s);
u16string hexDec16 (const string& s);
string hexEnc16 (const u16string& s);

// ---- syllables: S<5 codes>@<end> | L<hex16>@<end> | B@<end>
string encSyl (const Syl& s);
Syl decSyl (const string& t);
// syllable strings: syllables joined by ','; "~" = empty string
SylString decStr (const string& t);
string encStr (const SylString& s);

inline int num (const string& s) { return std::atoi (s.c_str()); }

#endif
