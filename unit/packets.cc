// Control packets: write a random sequence of values, read it back, and read damaged packets.
#include "unit.h"
#include "Buffer.h"
#include <string.h>
#include <exception>

namespace {
struct Val { int t; int32_t i; int64_t l; std::wstring s; };
Val any(Rnd &r) {
    Val v; v.t = r.below(3); static const int64_t edge[] = {0, 1, -1, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, 0x80, 0xff, 0x100, 0x7fff, 0x10000};
    v.l = r.chance(0.4) ? edge[r.below(12)] : (int64_t)(r.next() >> r.below(63)) * (r.chance(0.5) ? 1 : -1); v.i = (int32_t)v.l;
    if (v.t == 2) { int n = r.chance(0.1) ? r.range(0, 40000) : r.chance(0.3) ? r.below(2) : r.range(0, 80); bool raw = r.chance(0.5); for (int k = 0; k < n; k++) v.s.push_back((wchar_t)(raw ? r.below(0x10000) : r.range(1, 0x7e))); }
    return v;
}
// What the sequence of values must read as, from the format itself: a tag, then the little-endian value or a 64-bit count and the characters.
struct RefReader {
    const std::string &b; size_t o = 0; bool fail = false; explicit RefReader(const std::string &x) : b(x) {}
    uint64_t raw(int n) { if (fail || b.size() - o < (size_t)n) { fail = true; return 0; } uint64_t v = 0; for (int i = n; i-- > 0;) v = v * 256 + (uint8_t)b[o + i]; o += n; return v; }
    bool tag(int t) { uint64_t x = raw(1); if (!fail && x != (uint64_t)t) fail = true; return !fail; }
};
enum { OK, DECODE, OTHER };
}

void unitPackets(uint64_t seed) {
    Rnd r(seed + 77);
    for (int round = 0; round < 60 && gBad < 5; round++) {
        std::vector<Val> vs(r.chance(0.1) ? 0 : r.range(1, r.chance(0.1) ? 200 : 12)); std::string bytes; bool framed = r.chance(0.5);
        WriteBuffer w; if (framed) w.putRawValue<uint64_t>(0);
        for (auto &v : vs) { v = any(r); if (v.t == 0) w.putInt32(v.i); else if (v.t == 1) w.putInt64(v.l); else if (r.chance(0.3) && v.s.find(L'\0') == std::wstring::npos) w.putWString(v.s.c_str()); else if (r.chance(0.5)) w.putWString(v.s.data(), v.s.size()); else w.putWString(v.s); }
        if (framed) { w.replaceRawValue<uint64_t>(0, w.buf().size()); }
        WriteBuffer w2(std::move(w)); if (r.chance(0.3)) { WriteBuffer w3; w3 = std::move(w2); w2 = std::move(w3); }
        bytes.assign(w2.buf().begin(), w2.buf().end());
        { RefReader f(bytes); if (framed && f.raw(8) != bytes.size()) bad("packet-frame", "the stored packet size is not the packet's size");
          for (auto &v : vs) { f.tag(v.t); if (v.t == 0) { if ((int32_t)f.raw(4) != v.i) f.fail = true; } else if (v.t == 1) { if ((int64_t)f.raw(8) != v.l) f.fail = true; } else { if (f.raw(8) != v.s.size()) f.fail = true; for (auto c : v.s) if (f.raw(2) != (uint16_t)c) { f.fail = true; break; } } }
          if (f.fail || f.o != bytes.size()) { bad("packet-format", "a packet of %zu values is not written in the wire format", vs.size()); continue; } }
        { std::vector<char> copy(bytes.begin(), bytes.end()); ReadBuffer rb(std::move(copy)); ReadBuffer rb2(std::move(rb)); int got = 0;
          try { if (framed) { if (rb2.getRawValue<uint64_t>() != bytes.size()) bad("packet-frame", "the size is read back differently"); }
            for (auto &v : vs) { if (v.t == 0) { int32_t x = rb2.getInt32(); if (x != v.i) bad("round-trip", "Int32 %d is read back as %d", v.i, x); } else if (v.t == 1) { int64_t x = rb2.getInt64(); if (x != v.l) bad("round-trip", "Int64 %lld is read back as %lld", (long long)v.l, (long long)x); } else { std::wstring x = rb2.getWString(); if (x != v.s) bad("round-trip", "a string of %zu characters is read back as %zu characters", v.s.size(), x.size()); } got++;
                if (r.chance(0.05) && got < (int)vs.size()) { bool threw = false; try { rb2.assertEof(); } catch (const ReadBuffer::DecodeError &) { threw = true; } if (!threw) bad("eof", "data left over was not reported"); } }
            rb2.assertEof(); count("round.trips"); count("values", vs.size());
          } catch (const std::exception &e) { bad("round-trip", "exception after %d of %zu values", got, vs.size()); } catch (const WinptyException &) { bad("round-trip", "a valid packet was rejected after %d of %zu values", got, vs.size()); } }
        // damaged packets, read with the original or another sequence of types
        for (int d = 0; d < 8 && gBad < 5; d++) {
            std::string m = bytes; int kind = r.below(6);
            if (kind == 0) m.resize(r.below((uint32_t)m.size() + 1)); else if (kind == 1) { for (int k = r.range(1, 4); k--;) if (!m.empty()) m[r.below((uint32_t)m.size())] = (char)r.next(); } else if (kind == 2) { m.insert(r.below((uint32_t)m.size() + 1), std::string(r.range(1, 9), (char)r.below(4))); } else if (kind == 3) { m.assign(r.range(0, 40), 0); for (auto &c : m) c = (char)(r.chance(0.5) ? r.below(4) : r.next()); } else if (kind == 4 && !m.empty()) { size_t p = r.below((uint32_t)m.size()); m.erase(p, r.range(1, 8)); }
            else { // a string that claims any length
                static const uint64_t lens[] = {1, 2, 0x100, 0x1ffff, 0x3fffffffffffffffull, 0xffffffffffffff00ull, 0x8000000000000009ull, 0x7ffffffffffffff0ull, 0x4000000000000000ull, 0x7ffffffffffffffbull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xffffffffffffffffull};
                uint64_t n = lens[r.below(sizeof lens / sizeof *lens)]; m = framed ? std::string(8, 'x') : ""; m += (char)2; for (int k = 0; k < 8; k++) m += (char)(n >> (8 * k)); m += std::string(r.below(20), 'q'); }
            std::vector<int> ts; if (kind == 5) ts.push_back(2); else { for (auto &v : vs) ts.push_back(r.chance(0.9) ? v.t : (int)r.below(3)); if (r.chance(0.3)) ts.push_back(r.below(3)); }
            RefReader f(m); std::vector<Val> want; if (framed) f.raw(8);
            for (int t : ts) { Val v; v.t = t; f.tag(t); if (t == 0) v.i = (int32_t)f.raw(4); else if (t == 1) v.l = (int64_t)f.raw(8); else { uint64_t n = f.raw(8); if (!f.fail && n > (f.b.size() - f.o) / 2) { f.fail = true; } if (!f.fail) for (uint64_t k = 0; k < n; k++) v.s.push_back((wchar_t)f.raw(2)); } if (f.fail) break; want.push_back(v); }
            bool rest = !f.fail && f.o != m.size();
            std::vector<char> copy(m.begin(), m.end()); copy.shrink_to_fit(); ReadBuffer rb(std::move(copy)); int st = OK; size_t got = 0; bool eof = true;
            try { if (framed) rb.getRawValue<uint64_t>(); for (int t : ts) { if (t == 0) { int32_t x = rb.getInt32(); if (got < want.size() && x != want[got].i) bad("damaged", "a value of a damaged packet is read wrongly"); } else if (t == 1) { int64_t x = rb.getInt64(); if (got < want.size() && x != want[got].l) bad("damaged", "a value of a damaged packet is read wrongly"); } else { std::wstring x = rb.getWString(); if (got < want.size() && x != want[got].s) bad("damaged", "a string of a damaged packet is read wrongly"); } got++; }
                try { rb.assertEof(); } catch (const ReadBuffer::DecodeError &) { eof = false; } }
            catch (const ReadBuffer::DecodeError &) { st = DECODE; } catch (...) { st = OTHER; }
            if (f.fail && st == OK) bad("damaged", "a malformed packet of %zu bytes was accepted (%zu values read, %zu are there)", m.size(), got, want.size());
            else if (!f.fail && st != OK) bad("damaged", "a well-formed packet of %zu bytes was rejected after %zu of %zu values", m.size(), got, want.size());
            else if (f.fail && st == OTHER) bad("damaged", "a malformed packet of %zu bytes raised an exception that is not a decoding error", m.size());
            else if (f.fail && got != want.size()) bad("damaged", "a malformed packet was rejected after %zu values, %zu are well formed", got, want.size());
            else if (st == OK && eof == rest) bad("eof", "the end of the packet is %s", rest ? "not checked" : "reported too early");
            count("damaged"); if (f.fail) count("damaged.rejected");
        }
    }
}
