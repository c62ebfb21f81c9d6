// Only in the "cov" build: number of basic blocks executed by one analysis.
#include "core.h"
#include "parser/parser.h"
#include <unistd.h>

static unsigned long long gBlocks, gLimit = ~0ull;
extern "C" void __sanitizer_cov_trace_pc (void)
{
    if (++gBlocks > gLimit) {
        gLimit = ~0ull;
        if (write (1, "W over over\n", 12) < 0) _exit (3);
        _exit (0);
    }
}

// work <0|1 segmentation> <word> <limit> <dict|-> : blocks, number of edges;
// "over" and the end of the process when the limit is exceeded
static Reg r1 ("work", [] (const Args& t) {
    Parser p (t.at (1) == "1");
    string w = hexDec (t.at (2)), dict = hexDec (t.at (4));
    if (!dict.empty() && !p.loadExceptDict (dict.c_str())) throw BadRequest ("dictionary");
    gBlocks = 0;
    gLimit = std::stoull (t.at (3));
    auto d = p.parseWord (w);
    unsigned long long n = gBlocks;
    gLimit = ~0ull;
    size_t e = 0;
    for (auto it = d.outBegin(); it != d.outEnd(); ++it) ++e;
    return "W " + std::to_string (n) + " " + std::to_string (e);
});
