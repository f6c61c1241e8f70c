// The terminal that winpty's output is meant for: an independent emulator used as an oracle.
#pragma once
#include "sim.h"

namespace sim {

struct Pen {                                   // what the SGR parameters currently select
    int fore = -1, back = -1;                  // -1 default, else 0..15
    bool bold = false, inverse = false, conceal = false, underline = false;
    bool operator==(const Pen &o) const { return fore == o.fore && back == o.back && bold == o.bold && inverse == o.inverse && conceal == o.conceal && underline == o.underline; }
    bool operator!=(const Pen &o) const { return !(*this == o); }
    std::string str() const { char b[100]; snprintf(b, sizeof b, "fg%d bg%d%s%s%s%s", fore, back, bold ? " bold" : "", inverse ? " inv" : "", conceal ? " hid" : "", underline ? " ul" : ""); return b; }
};
struct VCell { uint32_t ch = ' '; Pen pen; bool cont = false; };
struct VRow { std::vector<VCell> c; bool touched = false; };

struct Vt {
    int cols = 80, rows = 25;
    bool plain = false, color = true;
    // Lines are numbered from the last full clear; `top` is the first line that is still on the screen.
    std::map<int64_t, VRow> lines; int64_t row = 0, top = 0; int col = 0; bool cursor = true; Pen pen;
    int epoch = 0; int64_t bottom = 0;
    std::set<int> modes; std::vector<std::string> titles; int dsr = 0; uint64_t bytes = 0, glyphs = 0, esc = 0;
    std::vector<std::string> modeLog;
    std::string errors; int nErr = 0;
    std::string buf; std::string text;          // (plain) everything printable, with \r\n
    bool checkClamp = true, checkWrap = true, clamp = true;
    bool keepsObscured = false;                    // mintty, jediterm: what a narrower terminal hides comes back when it is widened
    void resize(int c, int r) { for (auto &kv : lines) { if (!keepsObscured && (int)kv.second.c.size() > c) kv.second.c.resize(c); if (kv.first > bottom) bottom = kv.first; } cols = c; rows = r; if (row - rows + 1 > top) top = row - rows + 1; }
    std::set<std::string> shapes;
    uint64_t clampErrors = 0;
    void err(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
        if (nErr++ < 5) { errors += b; errors += "; "; }
    }
    VRow &line(int64_t r) { return lines[r]; }
    void feed(const std::string &s) { bytes += s.size(); buf += s; size_t i = 0; while (i < buf.size()) { size_t n = step(i); if (!n) break; i += n; } buf.erase(0, i); }
    static int width(uint32_t c) { return (c >= 0x1100 && c < 0x1160) || (c >= 0x3000 && c < 0xA4D0 && c != 0x303F) || (c >= 0xAC00 && c < 0xD7A4) || (c >= 0xF900 && c < 0xFB00) || (c >= 0xFF01 && c < 0xFF61) || c >= 0x10000 ? 2 : 1; }
    void put(uint32_t ch) {
        glyphs++;
        int w = width(ch);
        if (!plain) { if (col + w > cols && checkWrap) err("text runs past the right margin (line %lld, column %d of %d)", (long long)row, col, cols); }
        VRow &l = line(row); l.touched = true;
        if ((int)l.c.size() < col + w) l.c.resize(col + w);
        l.c[col].ch = ch; l.c[col].pen = pen; l.c[col].cont = false;
        if (w == 2) { l.c[col + 1].ch = ch; l.c[col + 1].pen = pen; l.c[col + 1].cont = true; }
        col += w;
    }
    void eraseToEol() {
        if (col >= cols && !plain && checkWrap) { err("erase-to-end-of-line issued past the last column: real terminals erase the last cell (line %lld)", (long long)row); }
        VRow &l = line(row); l.touched = true;
        if ((int)l.c.size() < cols) l.c.resize(cols);
        for (int i = col; i < (int)l.c.size() && i < std::max(cols, col); i++) { l.c[i].ch = ' '; l.c[i].pen = pen; l.c[i].cont = false; }
    }
    void lf() { row++; if (row > bottom) bottom = row; if (row - rows + 1 > top) top = row - rows + 1; }
    void sgr(const std::vector<int> &p) {
        for (size_t i = 0; i < p.size(); i++) {
            int v = p[i];
            if (v == 0) pen = Pen(); else if (v == 1) pen.bold = true; else if (v == 4) pen.underline = true; else if (v == 7) pen.inverse = true; else if (v == 8) pen.conceal = true;
            else if (v >= 30 && v <= 37) pen.fore = v - 30; else if (v >= 90 && v <= 97) pen.fore = v - 90 + 8;
            else if (v >= 40 && v <= 47) pen.back = v - 40; else if (v >= 100 && v <= 107) pen.back = v - 100 + 8;
            else err("unknown SGR parameter %d", v);
        }
    }
    // returns the number of bytes consumed, 0: incomplete
    size_t step(size_t i) {
        unsigned char c = buf[i];
        if (c == 0x1b) {
            if (i + 1 >= buf.size()) return 0;
            char k = buf[i + 1];
            if (k == '[') {
                size_t j = i + 2; bool q = false; if (j < buf.size() && buf[j] == '?') { q = true; j++; }
                std::vector<int> p; int cur = -1; bool any = false;
                for (; j < buf.size(); j++) {
                    char d = buf[j];
                    if (d >= '0' && d <= '9') { cur = (cur < 0 ? 0 : cur) * 10 + (d - '0'); any = true; if (cur > 10000000) cur = 10000000; }
                    else if (d == ';') { p.push_back(cur < 0 ? 0 : cur); cur = -1; any = true; }
                    else break;
                }
                if (j >= buf.size()) { if (j - i > 200) { err("unterminated control sequence"); return 2; } return 0; }
                if (any) p.push_back(cur < 0 ? 0 : cur);
                csi(buf[j], q, p, buf.substr(i + 1, j - i)); esc++;
                return j - i + 1;
            }
            if (k == ']') {
                size_t e = buf.find('\x07', i);
                if (e == std::string::npos) { if (buf.size() - i > 400000) { err("unterminated OSC"); return 2; } return 0; }
                std::string s = buf.substr(i + 2, e - i - 2); esc++;
                if (plain) err("escape sequence in plain output: OSC %s", sim::esc(s).c_str());
                if (s.compare(0, 2, "0;") == 0) titles.push_back(s.substr(2)); else err("unknown OSC %s", sim::esc(s).c_str());
                return e - i + 1;
            }
            err("unknown escape ESC %c", k); return 2;
        }
        if (c == '\r') { col = 0; if (plain) text += '\r'; return 1; }
        if (c == '\n') { lf(); if (plain) text += '\n'; return 1; }
        if (c < 0x20 || c == 0x7f) { err("control character 0x%02x in the output", c); return 1; }
        if (c < 0x80) { put(c); if (plain) text += (char)c; return 1; }
        int n = c >= 0xF0 && c < 0xF5 ? 4 : c >= 0xE0 ? 3 : c >= 0xC2 ? 2 : 0;
        if (n == 0 || c >= 0xF5) { err("invalid UTF-8 lead byte 0x%02x", c); return 1; }
        if (i + n > buf.size()) return 0;
        uint32_t v = n == 4 ? c & 7 : n == 3 ? c & 15 : c & 31;
        for (int k = 1; k < n; k++) { unsigned char d = buf[i + k]; if ((d & 0xC0) != 0x80) { err("invalid UTF-8 continuation"); return 1; } v = v << 6 | (d & 63); }
        if ((n == 3 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) || (n == 4 && (v < 0x10000 || v > 0x10FFFF))) err("invalid UTF-8 encoding of %#x", v);
        if (plain) text += buf.substr(i, n);
        put(v);
        return n;
    }
    void csi(char f, bool q, const std::vector<int> &p, const std::string &raw) {
        int a = p.empty() ? -1 : p[0];
        if (plain && !(f == 'm' && color)) { err("escape sequence in plain output: %s", sim::esc(raw).c_str()); }
        if (q) {
            modeLog.push_back(raw);
            if (f == 'h') { for (int m : p) { if (m == 25) cursor = true; else modes.insert(m); } }
            else if (f == 'l') { for (int m : p) { if (m == 25) cursor = false; else modes.erase(m); } }
            else err("unknown private sequence %s", raw.c_str());
            return;
        }
        switch (f) {
        case 'm': if (!color) err("colour sequence although colours are off"); sgr(p.empty() ? std::vector<int>{0} : p); break;
        case 'K': if (a > 0) err("unexpected CSI %dK", a); else eraseToEol(); break;
        case 'G': { int n = a < 1 ? 1 : a; if (n > cols && checkWrap) err("cursor column %d beyond the last column %d", n, cols); col = n - 1; break; }
        case 'A': { int n = a < 1 ? 1 : a; if (row - n < top && clamp) { clampErrors++; if (checkClamp) err("cursor up by %d from line %lld passes the top of the screen (line %lld)", n, (long long)row, (long long)top); row = top; } else row -= n; break; }
        case 'H': { int r = a < 1 ? 1 : a, c = p.size() > 1 && p[1] > 0 ? p[1] : 1; row = top + r - 1; col = c - 1; break; }
        case 'J': if (a != 2) err("unexpected CSI %dJ", a); else { lines.clear(); epoch++; row -= top; top = 0; bottom = row; } break;
        case 'n': if (a == 6) dsr++; else err("unexpected CSI %dn", a); break;
        default: err("unknown control sequence %s", sim::esc(raw).c_str());
        }
    }
    std::string rowText(int64_t r) {
        auto it = lines.find(r); if (it == lines.end()) return "";
        std::string s; for (auto &c : it->second.c) if (!c.cont) {
            uint32_t v = c.ch; if (v < 0x80) s += (char)v; else { ustr u; if (v >= 0x10000) { u.push_back((char16_t)(0xD800 + ((v - 0x10000) >> 10))); u.push_back((char16_t)(0xDC00 + ((v - 0x10000) & 0x3FF))); } else u.push_back((char16_t)v); s += u8(u); }
        }
        while (!s.empty() && s.back() == ' ') s.pop_back();
        return s;
    }
};

// The documented mapping from console attributes to terminal attributes.
inline Pen penFor(WORD attr, WORD mask) {
    attr &= mask;
    auto rgb = [](int c) { return (c & 4 ? 1 : 0) | (c & 2 ? 2 : 0) | (c & 1 ? 4 : 0) | (c & 8); };
    int fore = rgb(attr & 15), back = rgb((attr >> 4) & 15);
    if (attr & 0x4000) std::swap(fore, back);
    Pen p;
    if (back == 0) { if (fore == 7) {} else if (fore == 15) p.bold = true; else p.fore = fore; }
    else if (back == 15) { p.inverse = true; if (fore != 7 && fore != 0) p.back = fore; }
    else { p.fore = fore; p.back = back; }
    if (fore == back) p.conceal = true;
    if (attr & 0x8000) p.underline = true;
    return p;
}
// A console cell run as terminal text: (code point, cells used)
inline std::pair<uint32_t, int> scalarAt(const CHAR_INFO *c, int n) {
    auto full = [](const CHAR_INFO *d, int m) { return m >= 2 && (d[0].Attributes & 0x100) && (d[1].Attributes & 0x200) && d[0].Char.UnicodeChar == d[1].Char.UnicodeChar; };
    int w1 = full(c, n) ? 2 : 1; uint32_t a = (char16_t)c[0].Char.UnicodeChar;
    if (a >= 0xD800 && a < 0xE000) {
        if (a < 0xDC00 && n > w1) { uint32_t b = (char16_t)c[w1].Char.UnicodeChar; if (b >= 0xDC00 && b < 0xE000) return {0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00), w1 + (full(c + w1, n - w1) ? 2 : 1)}; }
        return {'?', w1};
    }
    static const uint32_t box[] = {0, 0x2554, 0x2557, 0x255A, 0x255D, 0x2551, 0x2550};
    if (a >= 1 && a <= 6) a = box[a]; else if (a == 0x1b) a = '?';
    return {a, w1};
}

} // namespace sim
