// String building and bounded formatting.
#include "unit.h"
#include "StringBuilder.h"
#include "StringUtil.h"
#include "winpty_snprintf.h"
#include <string.h>

namespace {
// Decimal and hexadecimal by hand, with a wider type.
std::string dec(__int128 v) { bool neg = v < 0; if (neg) v = -v; std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); if (neg) s.insert(s.begin(), '-'); return s; }
std::string hexd(unsigned __int128 v, int width) { std::string s; do { s.insert(s.begin(), "0123456789abcdef"[(int)(v % 16)]); v /= 16; } while (v); while ((int)s.size() < width) s.insert(s.begin(), '0'); return s; }
std::string nar(const std::wstring &w) { std::string s; for (auto c : w) s.push_back((char)c); return s; }
std::wstring wid(const std::string &s) { return std::wstring(s.begin(), s.end()); }
template <class I> void num(I v) {
    typedef typename std::make_unsigned<I>::type U; std::string d = dec((__int128)v), h = hexd((U)v, 0), hz = hexd((U)v, sizeof(I) * 2);
    auto a = decOfInt(v); auto b = wdecOfInt(v); auto c = hexOfInt(v); auto e = whexOfInt(v); auto f = hexOfInt<true>(v); auto g = whexOfInt<true>(v);
    struct { std::string got, want; size_t size; const char *what; bool z; } t[] = {{a.str(), d, a.size(), "decOfInt", !a.c_str()[a.size()]}, {nar(b.str()), d, b.size(), "wdecOfInt", !b.c_str()[b.size()]}, {c.str(), h, c.size(), "hexOfInt", !c.c_str()[c.size()]}, {nar(e.str()), h, e.size(), "whexOfInt", !e.c_str()[e.size()]}, {f.str(), hz, f.size(), "hexOfInt<true>", !f.c_str()[f.size()]}, {nar(g.str()), hz, g.size(), "whexOfInt<true>", !g.c_str()[g.size()]}};
    for (auto &x : t) if (x.got != x.want || x.size != x.want.size() || !x.z) bad("integer", "%s of %s (%zu bytes wide) is [%s]%s, expected [%s]", x.what, d.c_str(), sizeof(I), x.got.c_str(), x.z ? "" : " without terminator", x.want.c_str());
    if (a.data() != a.c_str() || strlen(a.c_str()) != a.size()) bad("integer", "decOfInt: inconsistent accessors");
    count("integers");
}
template <class I> void sweep(Rnd &r, uint64_t part) {
    const int bits = sizeof(I) * 8; typedef typename std::make_unsigned<I>::type U;
    if (sizeof(I) == 1) for (int v = 0; v < 256; v++) num((I)v);
    else if (sizeof(I) == 2) for (uint32_t v = part; v < 65536; v += 64) num((I)v);
    for (int b = 0; b < bits; b++) for (int d = -2; d <= 2; d++) num((I)((U)((U)1 << b) + (U)d));
    U p = 1; for (int k = 0; k < 20; k++) { for (int d = -1; d <= 1; d++) { num((I)(U)(p + d)); num((I)(U)(0 - p + d)); } p = (U)(p * 10); }
    for (int k = 0; k < 150; k++) num((I)(U)(r.next() >> r.below(64)));
}
}

template <class C> struct Ref { std::basic_string<C> s; };
template <class C> static void build(Rnd &r) {
    typedef std::basic_string<C> S; auto lit = [](const std::string &x) { return S(x.begin(), x.end()); };
    GStringBuilder<C> b0, b1(r.below(100)); auto &b = r.chance(0.5) ? b0 : b1; S want; int n = r.range(0, 40);
    for (int k = 0; k < n; k++) { uint64_t v = r.next() >> r.below(64); if (r.chance(0.3)) v = (uint64_t)0 - v; static const uint64_t ed[] = {0, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull}; if (r.chance(0.3)) v = ed[r.below(12)];
        switch (r.below(14)) {
        case 0: { C c = (C)r.range(1, 0x7e); b << c; want.push_back(c); break; }
        case 1: { S s(r.range(0, 300), (C)r.range(1, 0x7e)); b << s.c_str(); want += s; break; }
        case 2: { S s(r.range(0, 30), (C)0); for (auto &c : s) c = (C)r.below(200); b << s; want += s; break; }
        case 3: b << (short)v; want += lit(dec((short)v)); break;
        case 4: b << (unsigned short)v; want += lit(dec((unsigned short)v)); break;
        case 5: b << (int)v; want += lit(dec((int)v)); break;
        case 6: b << (unsigned)v; want += lit(dec((unsigned)v)); break;
        case 7: b << (long)v; want += lit(dec((long)v)); break;
        case 8: b << (unsigned long)v; want += lit(dec((unsigned long)v)); break;
        case 9: b << (long long)v; want += lit(dec((long long)v)); break;
        case 10: b << (unsigned long long)v; want += lit(dec((unsigned long long)v)); break;
        case 11: b << (const void *)(uintptr_t)v; want += lit("0x" + hexd((uintptr_t)v, 0)); break;
        case 12: b << ghexOfInt<C>((int)v); want += lit(hexd((unsigned)v, 0)); break;
        default: b << gdecOfInt<C>((long long)v); want += lit(dec((long long)v)); } }
    S cs = b.c_str(), st = b.str(); if (st != want) bad("builder", "a built string of %d parts has %zu characters, expected %zu", n, st.size(), want.size());
    if (cs != S(want.c_str())) bad("builder", "c_str() differs from str()");
    if (r.chance(0.5)) { S mv = b.str_moved(); if (mv != want) bad("builder", "str_moved() differs"); }
    count("built");
}
static void vf(char *o, size_t n, int *ret, const char *fmt, ...) { va_list ap; va_start(ap, fmt); *ret = winpty_vsnprintf(o, n, fmt, ap); va_end(ap); }
template <size_t N> static void fixedSize(const std::string &s) {
    struct { char before[8]; char b[N]; char after[8]; } z; memset(&z, 0x5a, sizeof z); int k = winpty_snprintf(z.b, "%s", s.c_str()); bool fits = s.size() < N;
    if (k != (fits ? (int)s.size() : -1) || std::string(z.b) != s.substr(0, N - 1)) bad("snprintf", "%zu characters in an array of %zu: result %d, text of %zu", s.size(), N, k, strlen(z.b));
    for (int i = 0; i < 8; i++) if (z.before[i] != 0x5a || z.after[i] != 0x5a) bad("snprintf", "wrote outside an array of %zu", N);
    wchar_t w[N]; std::wstring ws = wid(s); Exact<wchar_t> src(ws.size() + 1); memcpy(src.p, ws.c_str(), sizeof(wchar_t) * (ws.size() + 1));
    for (auto &c : w) c = 0x5a5a; winpty_wcsncpy_nul(w, src.p); std::wstring g(w); if (g != ws.substr(0, N - 1)) bad("wcsncpy", "winpty_wcsncpy_nul of %zu characters into %zu gives %zu", ws.size(), N, g.size());
    if (ws.size() < N) for (size_t i = ws.size(); i < N; i++) if (w[i]) bad("wcsncpy", "the rest of the array is not cleared");
    for (auto &c : w) c = 0x5a5a; winpty_wcsncpy(w, src.p); for (size_t i = 0; i < N; i++) if (w[i] != (i < ws.size() ? ws[i] : 0)) { bad("wcsncpy", "winpty_wcsncpy of %zu characters into %zu is wrong at %zu", ws.size(), N, i); break; }
    count("fixed");
}

void unitStrings(uint64_t seed) {
    Rnd r(seed + 99); uint64_t part = seed % 64;
    sweep<signed char>(r, part); sweep<unsigned char>(r, part); sweep<short>(r, part); sweep<unsigned short>(r, part); sweep<int>(r, part); sweep<unsigned>(r, part); sweep<long>(r, part); sweep<unsigned long>(r, part); sweep<long long>(r, part); sweep<unsigned long long>(r, part);
    for (int i = 0; i < 200 && gBad < 5; i++) { build<char>(r); build<wchar_t>(r); }
    for (int i = 0; i < 400 && gBad < 5; i++) {
        size_t size = i < 40 ? i + 1 : r.range(1, 1100); int len = r.chance(0.5) ? (int)size + r.range(-3, 3) : r.range(0, 2200); if (len < 0) len = 0;
        std::string s(len, 'x'); for (auto &c : s) c = (char)r.range(1, 255); std::string want; Exact<char> o(size); memset(o.p, 0x5a, size); int k; std::string kind;
        switch (r.below(4)) { case 0: want = s; k = winpty_snprintf(o.p, size, "%s", s.c_str()); break; case 1: { long long v = (long long)r.next(); want = s + dec(v) + "!"; k = winpty_snprintf(o.p, size, "%s%lld!", s.c_str(), v); break; } case 2: want = s; vf(o.p, size, &k, "%s", s.c_str()); break;
            default: { int v = (int)r.next(); want = dec(v) + ":" + hexd((unsigned)v, 8) + s; k = winpty_snprintf(o.p, size, "%d:%08x%s", v, (unsigned)v, s.c_str()); } }
        bool fits = want.size() < size; size_t z = 0; while (z < size && o.p[z]) z++;
        if (z == size) { bad("snprintf", "no terminator in a buffer of %zu", size); continue; }
        if (k != (fits ? (int)want.size() : -1)) bad("snprintf", "result %d for %zu characters in a buffer of %zu", k, want.size(), size);
        if (std::string(o.p, z) != want.substr(0, size - 1)) bad("snprintf", "%zu characters in a buffer of %zu came out as %zu", want.size(), size, z);
        count("formatted"); if (!fits) count("formatted.cut");
    }
    for (int i = 0; i < 60 && gBad < 5; i++) { std::string s(r.range(0, 70), 'a'); for (auto &c : s) c = (char)r.range(1, 126); fixedSize<1>(s); fixedSize<2>(s); fixedSize<16>(s); fixedSize<32>(s); fixedSize<63>(s); }
    for (int i = 0; i < 200 && gBad < 5; i++) {
        size_t m = r.below(40); Exact<wchar_t> b(m); size_t z = r.chance(0.5) && m ? r.below((uint32_t)m) : m; for (size_t k = 0; k < m; k++) b.p[k] = (wchar_t)(k == z ? 0 : k > z ? r.below(3) : r.range(1, 0xffff));
        size_t g = winpty_wcsnlen(b.p, m); if (g != z) bad("wcsnlen", "%zu for a string of %zu in %zu", g, z, m);
        std::wstring w(b.p, m); std::vector<wchar_t> v = vectorFromString(w), vn = vectorWithNulFromString(w); if (std::wstring(v.begin(), v.end()) != w) bad("vector", "vectorFromString differs"); if (vn.size() != m + 1 || std::wstring(vn.begin(), vn.end() - 1) != w || vn.back()) bad("vector", "vectorWithNulFromString differs");
        std::string n(w.begin(), w.end()); auto nv = vectorWithNulFromString(n); if (nv.size() != m + 1 || std::string(nv.begin(), nv.end() - 1) != n || nv.back()) bad("vector", "vectorWithNulFromString differs"); count("copies");
    }
}
