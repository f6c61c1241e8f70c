// Shared by the output scenarios: a reference console, a generator of console activity, and the comparison.
#pragma once
#include "../harness.h"

namespace sim {

inline void pickOs(Rng &r, bool allowOld = true) {
    static const int os[][3] = {{10, 0, 1}, {10, 0, 1}, {10, 0, 0}, {6, 3, 0}, {6, 1, 0}, {6, 0, 0}, {5, 1, 0}};
    int k = r.below(allowOld ? 7 : 4);
    g->cfg.osMajor = os[k][0]; g->cfg.osMinor = os[k][1]; g->cfg.newConsole = os[k][2] != 0;
    g->cfg.osBuild = os[k][0] == 10 ? 14393 : 7601;
    if (params.num("seed", 1) % 13 == 5) g->cfg.noRtlGenRandom = true;      // the other random source
    stat(("os." + std::to_string(os[k][0]) + "." + std::to_string(os[k][1]) + (os[k][2] ? "new" : "")).c_str());
}
inline void pickSchedule(Rng &r) {
    static const double ps[] = {0.02, 0.15, 0.4, 0.8};
    g->cfg.pSwitch = ps[r.below(4)]; g->cfg.pPendingIo = r.below(3) * 0.5; g->cfg.pFragment = r.below(3) * 0.4; g->cfg.ioLatencyUs = r.chance(0.3) ? 0 : r.range(1, 3000);
    g->cfg.pStall = r.chance(0.3) ? 0.002 : 0; g->cfg.stallMaxMs = 15;
    g->cfg.tickBase = r.chance(0.15) ? 0xFFFFFFFFu - (uint32_t)r.range(100, 8000) : (uint32_t)r.range(1000, 2000000000);
    g->cfg.tickGran = r.chance(0.5) ? 1 : 16;
}

struct Gen {                                   // text
    Rng &r; UINT cp; bool cjk; bool ascii = false; Gen(Rng &rr, UINT c) : r(rr), cp(c), cjk(c == 932 || c == 936 || c == 949 || c == 950) {}
    char16_t ch() {
        if (ascii || r.chance(0.7)) return (char16_t)r.range(0x21, 0x7e);
        switch (r.below(cjk ? 6 : 4)) {
        case 0: return (char16_t)r.range(0xA1, 0x2FF);
        case 1: return (char16_t)r.range(0x390, 0x3FF);
        case 2: return (char16_t)r.range(0x2500, 0x257F);
        case 3: { static const char16_t v[] = {0x7FF, 0x800, 0xFFFD, 0xE000, 0xFB4F - 0x700, 0xD7FF - 0x2000 + 0x1f00, 0x20AC, 0x00FF}; char16_t c = v[r.below(8)]; return width1(c) ? c : u'#'; }
        default: return (char16_t)r.range(0x4E00, 0x9FA0);
        }
    }
    static bool width1(char16_t c) { return Vt::width(c) == 1 && !(c >= 0xD800 && c < 0xE000); }
    ustr text(int n) {
        ustr s;
        for (int i = 0; i < n; i++) {
            if (r.chance(0.12)) s.push_back(u' ');
            else if (!ascii && !cjk && r.chance(0.02)) { uint32_t v = 0x1F300 + r.below(0x200); v -= 0x10000; s.push_back((char16_t)(0xD800 + (v >> 10))); s.push_back((char16_t)(0xDC00 + (v & 0x3FF))); }
            else s.push_back(ch());
        }
        return s;
    }
};

// What the console must contain if nobody but the child touches it.
struct Ref {
    ScreenBuffer b; std::vector<std::vector<CHAR_INFO>> hist;
    std::shared_ptr<Console> con; std::shared_ptr<ScreenBuffer> real;
    void init(std::shared_ptr<Console> c, std::shared_ptr<ScreenBuffer> from) {
        con = c; real = from; b.con = c; b.w = from->w; b.h = from->h; b.cells = from->cells; b.cx = from->cx; b.cy = from->cy; b.win = from->win; b.attr = from->attr; b.mode = from->mode; b.ci = from->ci;
        hist.clear(); b.hist = &hist; b.scrolled = 0; base = from->scrolled;
    }
    uint64_t base = 0;
    int64_t lineCount() { return (int64_t)hist.size() + b.h; }
    const CHAR_INFO *line(int64_t abs) { if (abs < 0 || abs >= lineCount()) return nullptr; return abs < (int64_t)hist.size() ? hist[(size_t)abs].data() : &b.at(0, (int)(abs - (int64_t)hist.size())); }
    int64_t winTop() { return (int64_t)hist.size() + b.win.Top; }
};

inline std::string cellsText(const CHAR_INFO *c, int w) {
    ustr s; for (int i = 0; i < w;) { auto x = scalarAt(c + i, w - i); uint32_t v = x.first; if (v >= 0x10000) { v -= 0x10000; s.push_back((char16_t)(0xD800 + (v >> 10))); s.push_back((char16_t)(0xDC00 + (v & 0x3FF))); } else s.push_back((char16_t)v); i += x.second; }
    while (!s.empty() && s.back() == u' ') s.pop_back();
    return u8(s);
}
// Compares one terminal line with one console line.  Returns "" or the difference.
inline std::string lineDiff(Vt &vt, int64_t row, const CHAR_INFO *c, int w, WORD mask, bool colors, const CHAR_INFO *above = nullptr) {
    auto it = vt.lines.find(row); VRow empty; bool touched = it != vt.lines.end() && it->second.touched;
    VRow &l = it == vt.lines.end() ? empty : it->second;
    static const VCell blank;
    for (int i = 0; i < w;) {
        auto x = scalarAt(c + i, w - i);
        const VCell &v = i < (int)l.c.size() ? l.c[i] : blank;
        if (v.ch != x.first || v.cont) {
            char b[200]; snprintf(b, sizeof b, "column %d is U+%04X on the terminal%s but U+%04X in the console", i, v.ch, v.cont ? " (second half)" : "", x.first);
            return b;
        }
        bool inherits = !touched && (!above || ((above[w - 1].Attributes ^ c[i].Attributes) & mask & 0xC0FF) == 0);   // a blank row that continues the colour of the row above need not be sent
        if (colors && !touched && !inherits && !l.c.size() && i == 0) { Pen want = penFor(c[i].Attributes, mask); auto bg = want.inverse ? (want.fore == -1 ? 100 : want.fore) : want.back; if (bg != -1 || want.underline) { char b[200]; snprintf(b, sizeof b, "column %d is blank with attributes %#x in the console, but the terminal line was never drawn", i, c[i].Attributes); return b; } }
        if (colors && touched && !(x.first == ' ' && i >= (int)l.c.size() && l.c.size())) {   // (cells uncovered by widening the terminal are the terminal's business)
            Pen want = penFor(c[i].Attributes, mask), have = v.pen;
            auto vis = [](Pen p) { int bg = p.inverse ? (p.fore == -1 ? 100 : p.fore) : p.back; return bg * 2 + p.underline; };
            bool same = x.first == ' ' ? vis(want) == vis(have) : want == have;
            if (!same) {
                char b[300]; snprintf(b, sizeof b, "column %d (U+%04X, attributes %#x) has terminal attributes [%s], expected [%s]", i, x.first, c[i].Attributes, have.str().c_str(), want.str().c_str());
                return b;
            }
        }
        i += x.second;
    }
    for (int i = w; i < (int)l.c.size() && i < vt.cols; i++) if (l.c[i].ch != ' ') { char b[200]; snprintf(b, sizeof b, "column %d is U+%04X on the terminal but lies outside the console line", i, l.c[i].ch); return b; }
    return "";
}
inline WORD maskFor(DWORD mode, UINT cp) {
    bool cjk = cp == 932 || cp == 936 || cp == 949 || cp == 950, grid = mode & 0x10, vtp = mode & 4;
    bool w10 = g->cfg.osMajor >= 10 && g->cfg.newConsole;
    WORD m = 0xFFFF; if (!(cjk || grid || vtp || w10)) m &= ~0x4000; if (!(cjk || grid || vtp)) m &= ~0x8000; return m;
}

struct Compare {
    Session &s; Vt &vt; int lastEpoch = 0; int64_t offset = 0; bool haveOffset = true; uint64_t lines = 0, cellsN = 0; int64_t checkedTo = 0;
    explicit Compare(Session &ss, Vt &v) : s(ss), vt(v) {}
    // base: absolute number of buffer line 0 (lines scrolled off so far).
    void cursor(ScreenBuffer &b, int64_t base, int64_t off, const char *when) {
        bool inWin = b.cy >= b.win.Top && b.cy <= b.win.Bottom && b.cx >= b.win.Left && b.cx <= b.win.Right;
        bool want = b.ci.bVisible && inWin;
        if (vt.plain) return;
        if (want != vt.cursor) violation("cursor", "%s: the terminal cursor is %s but the console cursor is %s", when, vt.cursor ? "visible" : "hidden", want ? "visible" : "hidden");
        else if (want && (vt.row - 0 != base + b.cy - off || vt.col != b.cx)) violation("cursor", "%s: the terminal cursor is at line %lld column %d but the console cursor at line %lld column %d", when, (long long)(vt.row + off), vt.col, (long long)(base + b.cy), b.cx);
        stat("cursor.checks"); if (!want) stat("cursor.hidden");
    }
    void errors(const char *when) { if (vt.nErr) { violation("stream", "%s: %d errors in the output stream: %s", when, vt.nErr, vt.errors.c_str()); vt.nErr = 0; vt.errors.clear(); } }
    // Scrolling mode.  Compares [from, winBottom] in absolute lines.
    void scrolling(Ref &ref, bool wholeHistory, WORD mask, const char *when, bool allowReset) {
        errors(when);
        ScreenBuffer &rb = *ref.real; int64_t base = (int64_t)ref.hist.size();
        if (rb.scrolled - ref.base != ref.hist.size()) { violation("console-damage", "%s: the console scrolled by %llu lines, the reference by %zu", when, (unsigned long long)(rb.scrolled - ref.base), ref.hist.size()); return; }
        if (vt.epoch != lastEpoch) {
            if (!allowReset) { violation("terminal-reset", "%s: the terminal was cleared and redrawn although nothing required it", when); }
            lastEpoch = vt.epoch; offset = base + rb.cy - vt.row; haveOffset = rb.ci.bVisible && vt.cursor;
            if (!haveOffset) offset = base + rb.win.Top - vt.top;
            stat("epochs"); checkedTo = std::max<int64_t>(offset, 0);
        }
        for (int y = rb.win.Top; y <= rb.win.Bottom; y++) for (int x = 0; x < rb.w; x++) if (memcmp(&rb.at(x, y), &ref.b.at(x, y), sizeof(CHAR_INFO)) && (rb.at(x, y).Char.UnicodeChar != ref.b.at(x, y).Char.UnicodeChar || rb.at(x, y).Attributes != ref.b.at(x, y).Attributes)) {
            violation("console-damage", "%s: console cell (%d,%d) inside the visible window differs from what the program wrote: %#x/%#x instead of %#x/%#x", when, x, y, (unsigned)rb.at(x, y).Char.UnicodeChar, rb.at(x, y).Attributes, (unsigned)ref.b.at(x, y).Char.UnicodeChar, ref.b.at(x, y).Attributes); return; }
        int64_t from = wholeHistory ? std::max<int64_t>(0, offset) : base + rb.win.Top, to = base + rb.win.Bottom;
        int w = rb.win.Right - rb.win.Left + 1; w = rb.w;
        for (int64_t a = from; a <= to; a++) {
            const CHAR_INFO *c = ref.line(a);
            const CHAR_INFO *up = a > 0 ? ref.line(a - 1) : nullptr;
            std::string d = lineDiff(vt, a - offset, c, std::min(w, vt.cols), mask, vt.color, up);
            lines++; cellsN += w;
            if (!d.empty()) { violation("screen", "%s: line %lld (window %lld..%lld, terminal line %lld): %s; terminal [%s] console [%s]", when, (long long)a, (long long)(base + rb.win.Top), (long long)to, (long long)(a - offset), d.c_str(), vt.rowText(a - offset).c_str(), cellsText(c, w).c_str()); return; }
        }
        // nothing may have been printed above the first or below the last line
        for (auto &kv : vt.lines) {
            int64_t a = kv.first + offset;
            if (a > to && kv.second.touched && !vt.rowText(kv.first).empty()) { violation("screen", "%s: terminal line %lld below the console window shows [%s]", when, (long long)a, vt.rowText(kv.first).c_str()); break; }
        }
        if (!vt.plain && vt.rows == rb.win.Bottom - rb.win.Top + 1 && vt.top + offset > base + rb.win.Top) violation("screen", "%s: the terminal has scrolled %lld lines too far: console line %lld is no longer on the screen", when, (long long)(vt.top + offset - base - rb.win.Top), (long long)(base + rb.win.Top));
        cursor(rb, base, offset, when);
        stat("compare.lines", lines); lines = 0; stat("compare.screens");
    }
    void direct(ScreenBuffer &rb, int ptyCols, int ptyRows, WORD mask, const char *when) {
        errors(when);
        lastEpoch = vt.epoch; offset = 0;
        int w = std::min(rb.win.Right - rb.win.Left + 1, ptyCols), h = std::min(rb.win.Bottom - rb.win.Top + 1, ptyRows);
        for (int y = 0; y < h; y++) {
            std::string d = lineDiff(vt, y, &rb.at(rb.win.Left, rb.win.Top + y), w, mask, vt.color);
            if (!d.empty()) { violation("screen", "%s (direct mode): window line %d: %s; terminal [%s] console [%s]", when, y, d.c_str(), vt.rowText(y).c_str(), cellsText(&rb.at(rb.win.Left, rb.win.Top + y), w).c_str()); return; }
        }
        if (!vt.plain) {
            bool want = rb.ci.bVisible && rb.cy >= rb.win.Top && rb.cy < rb.win.Top + h && rb.cx >= rb.win.Left && rb.cx < rb.win.Left + w;
            if (want != vt.cursor) violation("cursor", "%s (direct mode): the terminal cursor is %s but should be %s", when, vt.cursor ? "visible" : "hidden", want ? "visible" : "hidden");
            else if (want && (vt.row != rb.cy - rb.win.Top || vt.col != rb.cx - rb.win.Left)) violation("cursor", "%s (direct mode): the terminal cursor is at line %lld column %d, expected %d,%d", when, (long long)vt.row, vt.col, rb.cy - rb.win.Top, rb.cx - rb.win.Left);
            stat("cursor.checks"); if (!want) stat("cursor.hidden");
        }
        stat("compare.lines", h); stat("compare.screens"); stat("compare.direct");
    }
};

} // namespace sim
