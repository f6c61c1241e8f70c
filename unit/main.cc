#include "unit.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
const UnitHost *gHost; int gBad; uint64_t gDigest;
void bad(const char *key, const char *fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); gBad++; gHost->viol(key, b); }
void unitUnicode(uint64_t); void unitPackets(uint64_t); void unitStrings(uint64_t);
extern "C" int unit_run(const UnitHost *h, const char *what, uint64_t seed) {
    gHost = h;
    if (!strcmp(what, "unicode")) unitUnicode(seed); else if (!strcmp(what, "packets")) unitPackets(seed); else if (!strcmp(what, "strings")) unitStrings(seed); else return 0;
    return 1;
}
extern "C" uint64_t unit_digest() { return gDigest; }
