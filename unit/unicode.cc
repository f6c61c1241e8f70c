// Unicode conversion: every code point, and byte strings of all lengths, against an independent definition.
#include "unit.h"
#include "../agent/UnicodeEncoding.h"
#include "StringUtil.h"
#include <string.h>

namespace {
typedef std::vector<uint8_t> Bytes;
bool scalar(uint64_t c) { return c < 0xD800 || (c > 0xDFFF && c < 0x110000); }
// The definition: the shortest form, built from the number of payload bits.
int ref8(uint32_t c, uint8_t *o) {
    if (!scalar(c)) return 0;
    int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    if (n == 1) { o[0] = (uint8_t)c; return 1; }
    for (int i = n - 1; i > 0; i--) { o[i] = 0x80 | (c % 64); c /= 64; }
    static const uint8_t lead[] = {0, 0, 0xC0, 0xE0, 0xF0}; o[0] = lead[n] | (uint8_t)c; return n;
}
void one(uint32_t c) {
    uint8_t want[4]; int n = ref8(c, want);
    Exact<char> o(4); memset(o.p, 0x5A, 4); int k = encodeUtf8(o.p, c);
    if (k != n || memcmp(o.p, want, n)) { bad("utf8-encode", "code point %#x is encoded in %d bytes (%02x %02x %02x %02x), expected %d", c, k, o.p[0] & 255, o.p[1] & 255, o.p[2] & 255, o.p[3] & 255, n); return; }
    for (int i = n; i < 4; i++) if (o.p[i] != 0x5A) bad("utf8-encode", "encoding code point %#x wrote beyond its %d bytes", c, n);
    if (n) { Exact<char> in(n); memcpy(in.p, want, n); uint32_t d = decodeUtf8(in.p); if (d != c) bad("utf8-decode", "the encoding of code point %#x is decoded as %#x", c, d); int l = utf8CharLength(in.p[0]); if (l != n) bad("utf8-length", "code point %#x: the first byte announces %d bytes of %d", c, l, n); }
    int n16 = !scalar(c) ? 0 : c < 0x10000 ? 1 : 2; Exact<wchar_t> w(2); w.p[0] = w.p[1] = 0x5A5A;
    k = encodeUtf16(w.p, c);
    if (k != n16) { bad("utf16-encode", "code point %#x is encoded in %d UTF-16 units, expected %d", c, k, n16); return; }
    if (n16 == 1 && (w.p[0] != (wchar_t)c || w.p[1] != 0x5A5A)) bad("utf16-encode", "code point %#x is encoded as %#x", c, (unsigned)w.p[0]);
    if (n16 == 2) { uint32_t v = c - 0x10000; if (w.p[0] != (wchar_t)(0xD800 + v / 1024) || w.p[1] != (wchar_t)(0xDC00 + v % 1024)) bad("utf16-encode", "code point %#x is encoded as %#x %#x", c, (unsigned)w.p[0], (unsigned)w.p[1]); uint32_t d = decodeSurrogatePair(w.p[0], w.p[1]); if (d != c) bad("utf16-decode", "the pair for %#x is decoded as %#x", c, d); }
}
// What a whole string of UTF-16 becomes as UTF-8; unpaired surrogates become U+FFFD or a question mark.
std::string wideRef(const std::wstring &s, bool &wellFormed) {
    std::string o; wellFormed = true;
    for (size_t i = 0; i < s.size(); i++) { uint32_t c = (uint16_t)s[i]; if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && (uint16_t)s[i + 1] >= 0xDC00 && (uint16_t)s[i + 1] < 0xE000) { c = 0x10000 + (c - 0xD800) * 1024 + ((uint16_t)s[++i] - 0xDC00); } uint8_t b[4]; int n = ref8(c, b); if (!n) { wellFormed = false; return ""; } o.append((char*)b, n); }
    return o;
}
bool validUtf8(const std::string &s) {
    for (size_t i = 0; i < s.size();) { int n = 0; uint8_t a = s[i]; n = a < 0x80 ? 1 : a >= 0xC2 && a < 0xE0 ? 2 : a >= 0xE0 && a < 0xF0 ? 3 : a >= 0xF0 && a < 0xF5 ? 4 : 0; if (!n || i + n > s.size()) return false; uint32_t v = n == 1 ? a : a & (0xFF >> (n + 1)); for (int k = 1; k < n; k++) { uint8_t b = s[i + k]; if ((b & 0xC0) != 0x80) return false; v = v * 64 + (b & 63); } uint8_t t[4]; if (ref8(v, t) != n) return false; i += n; }
    return true;
}
}

void unitUnicode(uint64_t seed) {
    Rnd r(seed); uint32_t part = (uint32_t)(seed % 64);
    // 1. A 64th of all code points and some way beyond them (seed after seed covers everything), and random 32-bit values.
    for (uint32_t c = part; c < 0x120000 && gBad < 5; c += 64) { one(c); }
    count("code.points", 0x120000 / 64);
    static const uint32_t edge[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x7fffffff, 0x80000000, 0xffffffff};
    for (uint32_t c : edge) one(c);
    for (int i = 0; i < 2000; i++) one((uint32_t)(r.next() >> r.below(43)));
    // 2. Every byte sequence of one to three bytes with these first bytes, and every class of four-byte sequences: accepted exactly if it is the encoding of a scalar value.
    uint64_t seqs = 0, good = 0;
    for (uint32_t f = part; f < 256 && gBad < 5; f += 64) {
        int n = f < 0x80 ? 1 : (f >> 5) == 6 ? 2 : (f >> 4) == 14 ? 3 : (f >> 3) == 30 ? 4 : 0;   // what the first byte announces
        if (utf8CharLength((char)f) != n) { bad("utf8-length", "the first byte %02x announces %d bytes, expected %d", f, utf8CharLength((char)f), n); continue; }
        Exact<char> in(n ? n : 1); in.p[0] = (char)f;
        auto check = [&] {
            uint8_t b[4] = {}; for (int i = 0; i < n; i++) b[i] = in.p[i];
            uint32_t want = 0xFFFFFFFF; uint32_t v = n == 1 ? b[0] : b[0] & (0xFF >> (n + 1)); bool cont = true; for (int i = 1; i < n; i++) { if (b[i] / 64 != 2) cont = false; v = v * 64 + b[i] % 64; }
            uint8_t t[4]; if (n && cont && ref8(v, t) == n && !memcmp(t, b, n)) want = v;
            uint32_t d = decodeUtf8(in.p); seqs++; if (want != 0xFFFFFFFF) good++;
            if (d != want) bad("utf8-decode", "the bytes %02x %02x %02x %02x (%d) are decoded as %#x, expected %#x", b[0], b[1], b[2], b[3], n, d, want);
        };
        if (n <= 1) check();
        else if (n == 2) for (int x = 0; x < 256; x++) { in.p[1] = (char)x; check(); }
        else if (n == 3) for (int x = 0; x < 65536; x++) { in.p[1] = (char)(x >> 8); in.p[2] = (char)x; check(); }
        else { static const int cls[] = {0, 0x41, 0x7f, 0xc0, 0xff, 0xe2}; std::vector<int> v; for (int x = 0x80; x < 0xc0; x++) v.push_back(x); for (int x : cls) v.push_back(x);
            for (int x = 0; x < 256; x++) for (int y : v) for (int z : v) { in.p[1] = (char)x; in.p[2] = (char)y; in.p[3] = (char)z; check(); if (gBad >= 5) return; } }
        if (gBad >= 5) return;
    }
    // 3. random four-byte sequences
    for (int i = 0; i < 100000 && gBad < 5; i++) { Exact<char> in(4); uint32_t q = (uint32_t)r.next(); in.p[0] = (char)(0xF0 | (q & 7)); in.p[1] = (char)(q >> 8); in.p[2] = (char)(q >> 16); in.p[3] = (char)(q >> 24); for (int k = 1; k < 4; k++) if (r.chance(0.6)) in.p[k] = (char)(0x80 | (in.p[k] & 0x3f));
        uint32_t v = in.p[0] & 7; bool cont = true; for (int k = 1; k < 4; k++) { cont = cont && (in.p[k] & 0xC0) == 0x80; v = v * 64 + (in.p[k] & 0x3f); } uint32_t want = cont && v >= 0x10000 && v < 0x110000 ? v : 0xFFFFFFFF, d = decodeUtf8(in.p); seqs++; if (want != 0xFFFFFFFF) good++; if (d != want) bad("utf8-decode", "four bytes are decoded as %#x, expected %#x", d, want); }
    count("sequences", seqs); count("sequences.valid", good);
    // 4. whole strings
    for (int i = 0; i < 300 && gBad < 5; i++) {
        std::wstring s; int n = i < 40 ? i : r.range(0, r.chance(0.05) ? 20000 : 300); bool wild = r.chance(0.4);
        while ((int)s.size() < n) { uint32_t c = r.chance(0.3) ? r.below(0x80) : r.chance(0.5) ? r.below(0x10000) : 0x10000 + r.below(0x100000); if (wild && r.chance(0.2)) { s.push_back((wchar_t)(0xD800 + r.below(0x800))); continue; } if (!scalar(c)) continue; if (c >= 0x10000) { s.push_back((wchar_t)(0xD800 + ((c - 0x10000) >> 10))); s.push_back((wchar_t)(0xDC00 + (c & 0x3FF))); } else s.push_back((wchar_t)c); }
        bool wf; std::string want = wideRef(s, wf), got = utf8FromWide(s);
        if (wf && got != want) bad("string-conversion", "a string of %zu UTF-16 units becomes %zu bytes of UTF-8, expected %zu", s.size(), got.size(), want.size());
        if (!validUtf8(got)) bad("string-conversion", "a string of %zu UTF-16 units becomes malformed UTF-8", s.size());
        count("strings"); if (!wf) count("strings.malformed");
    }
}
