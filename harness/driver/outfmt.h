// Formats: <notation t|r|p|w|s> <structure>:
//   D<hex of delimiter>  delimited     J  JSON     G  grouped JSON
//   R  roman words       C  roman words, capitalised
#ifndef DRIVER_OUTFMT_H
#define DRIVER_OUTFMT_H

#include "core.h"
#include "output/sylout-thai.h"
#include "output/sylout-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#include "output/output-delim.h"
#include "output/output-roman.h"
#include "output/output-json.h"
#include "output/output-gjson.h"

inline std::unique_ptr<ISylOutput> mkSylOut (char n)
{
    switch (n) {
    case 't': return std::unique_ptr<ISylOutput> (new ThaiSylOutput);
    case 'r': return std::unique_ptr<ISylOutput> (new RomanSylOutput);
    case 'p': return std::unique_ptr<ISylOutput> (new PhoneticSylOutput);
    case 'w': return std::unique_ptr<ISylOutput> (new RawSylOutput);
    case 's': return std::unique_ptr<ISylOutput> (new SoundexSylOutput);
    }
    throw BadRequest ("notation");
}
inline std::unique_ptr<IOutput> mkOut (const string& f)
{
    if (f.size() < 2) throw BadRequest ("format");
    switch (f[1]) {
    case 'D': return std::unique_ptr<IOutput> (new DelimOutput (mkSylOut (f[0]), hexDec (f.substr (2))[0]));
    case 'J': return std::unique_ptr<IOutput> (new JsonOutput (mkSylOut (f[0])));
    case 'G': return std::unique_ptr<IOutput> (new GroupedJsonOutput (mkSylOut (f[0])));
    case 'R': return std::unique_ptr<IOutput> (new RomanOutput ());
    case 'C': return std::unique_ptr<IOutput> (new RomanOutput (true));
    }
    throw BadRequest ("format");
}

#endif
