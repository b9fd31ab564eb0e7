// libFuzzer target with the oracles of C13 and C14.
#include "hostile.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    if (n < 2) return 0;
    std::string text((const char*)d + 2, n - 2);
    size_t breaks = d[0] < 128 ? ~(size_t)0 : (d[0] - 128) * (n / 100 + 1);
    auto o = hostile::check(text, breaks, d[0] & 1 ? 1 : 0, d[1] % 64 + 1,
                            d[1] & 64, true);
    // VF_KEYS: kinds of failures which matter to the property, or all.
    static const char* keys = std::getenv("VF_KEYS");
    if (!o.error.empty()
        && (!keys || std::string(keys).find("," + o.key + ",")
                         != std::string::npos))
    {
        std::fprintf(stderr, "FUZZ-VIOLATION\t%s\t%s on %s\n", o.key.c_str(),
                     o.error.c_str(), pgm::show(text).c_str());
        __builtin_trap();
    }
    return 0;
}
