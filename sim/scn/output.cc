// Console programs draw in all sorts of ways while the agent scrapes; the terminal must show the same thing.
#include "common.h"
using namespace sim;

namespace {
// One child and its reference copy.  All methods run in the child's thread.
struct Child {
    Ref &ref; Rng r; Gen gen; int burst = 0; bool classic; HANDLE h = nullptr; int ops = 0; bool cls = false;
    Child(Ref &rf, uint64_t seed, UINT cp) : ref(rf), r(seed), gen(r, cp), classic(true) {}
    HANDLE out() { return h ? h : hOut(); }
    void write(const ustr &s) {
        size_t i = 0;
        while (i < s.size()) {
            size_t n = std::min<size_t>(s.size() - i, r.chance(0.2) ? 1 + r.below(10) : 4000);
            ustr part = s.substr(i, n); i += n;
            childWrite(out(), part); ref.b.write(part);
        }
    }
    void attr(WORD a) { SetConsoleTextAttribute(out(), a); ref.b.attr = a; }
    void move(int x, int y) { COORD c; c.X = (SHORT)x; c.Y = (SHORT)y; if (SetConsoleCursorPosition(out(), c)) { ref.b.cx = x; ref.b.cy = y; ref.b.follow(); } }
    void cursorVis(bool v) { CONSOLE_CURSOR_INFO ci = {25, v}; SetConsoleCursorInfo(out(), &ci); ref.b.ci = ci; }
    void fillChar(char16_t ch, int n, int x, int y) {
        COORD c; c.X = (SHORT)x; c.Y = (SHORT)y; DWORD a; FillConsoleOutputCharacterW(out(), ch, n, c, &a);
        ref.b.fillChar(ch, n, x, y);
    }
    void fillAttr(WORD at, int n, int x, int y) {
        COORD c; c.X = (SHORT)x; c.Y = (SHORT)y; DWORD a; FillConsoleOutputAttribute(out(), at, n, c, &a);
        ref.b.fillAttr(at, n, x, y);
    }
    void putCells(int x, int y, int w, int hh, bool fancy) {
        std::vector<CHAR_INFO> v((size_t)w * hh); memset(v.data(), 0, v.size() * sizeof(CHAR_INFO));
        WORD a = wattr();
        for (auto &c : v) { if (r.chance(0.1)) a = wattr(); c.Char.UnicodeChar = gen.cjk ? (char16_t)r.range(0x21, 0x7e) : Gen::width1(gen.ch()) ? (char16_t)r.range(0x20, 0x7e) : u' '; c.Attributes = a; if (fancy && r.chance(0.05)) c.Char.UnicodeChar = r.chance(0.5) ? (char16_t)r.range(1, 6) : r.chance(0.5) ? 0x1b : (char16_t)(0xD800 + r.below(0x800)); }
        if (fancy && w >= 2) for (int k = 0; k < w * hh / 20; k++) {   // double-width characters and surrogate pairs as the console stores them
            int yy = r.below(hh), xx = r.below(w - 1); CHAR_INFO *p = &v[(size_t)yy * w + xx];
            auto plain = [](const CHAR_INFO &c) { return !(c.Attributes & 0x300) && !((char16_t)c.Char.UnicodeChar >= 0xD800 && (char16_t)c.Char.UnicodeChar < 0xE000); };
            if (!plain(p[0]) || !plain(p[1]) || (xx > 0 && !plain(p[-1])) || (xx + 2 < w && !plain(p[2]))) continue;
            if (r.chance(0.15)) { if (p[0].Char.UnicodeChar > 0x20 && p[0].Char.UnicodeChar < 0x7f && p[1].Char.UnicodeChar > 0x20 && p[1].Char.UnicodeChar < 0x7f && p[0].Char.UnicodeChar != p[1].Char.UnicodeChar) { p[1].Attributes = p[0].Attributes; p[0].Attributes |= 0x100; p[1].Attributes |= 0x200; stat("false.halves"); } }
            else if (r.chance(0.5)) { p[0].Char.UnicodeChar = p[1].Char.UnicodeChar = (char16_t)r.range(0x4E00, 0x9FA0); p[1].Attributes = p[0].Attributes; p[0].Attributes |= 0x100; p[1].Attributes |= 0x200; }
            else { uint32_t cp = 0x1F300 + r.below(0x200) - 0x10000; p[0].Char.UnicodeChar = (char16_t)(0xD800 + (cp >> 10)); p[1].Char.UnicodeChar = (char16_t)(0xDC00 + (cp & 0x3FF)); p[1].Attributes = p[0].Attributes; }
        }
        SMALL_RECT rc = {(SHORT)x, (SHORT)y, (SHORT)(x + w - 1), (SHORT)(y + hh - 1)}; COORD sz, z; sz.X = (SHORT)w; sz.Y = (SHORT)hh; z.X = z.Y = 0;
        SMALL_RECT q = rc; WriteConsoleOutputW(out(), v.data(), sz, z, &q);
        q = rc; ref.b.putRect(v.data(), sz, z, &q);
    }
    WORD wattr() {
        switch (r.below(6)) { case 0: return 7; case 1: return (WORD)r.below(16); case 2: return (WORD)r.below(256); case 3: return (WORD)(0xF0 | r.below(16)); case 4: { int c = r.below(16); return (WORD)(c << 4 | c); } default: return (WORD)(r.below(256) | (r.chance(0.3) ? 0x4000 : 0) | (r.chance(0.3) ? 0x8000 : 0)); }
    }
    // the region that can be changed without touching what has scrolled out of view
    int top() { return ref.b.win.Top; } int bottom() { return ref.b.win.Bottom; }
    void step() {
        ScreenBuffer &b = ref.b; ops++;
        switch (r.below(14)) {
        case 0: case 1: case 2: write(gen.text(r.range(0, std::min(b.w, 120))) + (r.chance(0.8) ? u"\r\n" : u"")); break;
        case 3: { int n = r.range(1, 6); ustr s; for (int i = 0; i < n; i++) s += gen.text(r.range(0, b.w)) + u"\r\n"; write(s); break; }
        case 4: { ustr s = gen.text(b.w - (r.chance(0.5) ? 0 : 1)); write(s); break; }                                   // exactly to the margin
        case 5: write(gen.text(r.range(0, b.w * 3))); break;                                                            // wraps
        case 6: { int n = r.range(20, 200); ustr s; for (int i = 0; i < n; i++) { char16_t t[40]; int k = 0; char tmp[40]; snprintf(tmp, sizeof tmp, "line %d of %d", i, n); for (; tmp[k]; k++) t[k] = tmp[k]; s += ustr(t, std::min(k, b.w)) + u"\r\n"; } burst += n; write(s); break; }
        case 7: attr(wattr()); break;
        case 8: if (!gen.cjk) move(r.range(0, b.w - 1), r.range(top(), bottom())); else move(0, r.range(b.cy, bottom())); break;
        case 9: cursorVis(r.chance(0.6)); break;
        case 10: if (!gen.cjk) { int y = r.range(top(), bottom()), x = r.range(0, b.w - 1); fillChar(r.chance(0.5) ? u' ' : Gen::width1(gen.ch()) ? u'*' : u'+', r.range(1, (bottom() - y + 1) * b.w - x), x, y); } break;
        case 11: if (!gen.cjk) { int y = r.range(top(), bottom()), x = r.range(0, b.w - 1); if (r.chance(0.4)) fillAttr(wattr() & ~0x300, r.range(1, bottom() - y + 1) * b.w, 0, y); else fillAttr(wattr() & ~0x300, r.range(1, (bottom() - y + 1) * b.w - x), x, y); } break;
        case 12: if (!gen.cjk) { int y = r.range(top(), bottom()); putCells(0, y, b.w, r.range(1, std::min(bottom() - y + 1, 12)), r.chance(0.7)); } break;
        case 13: if (!gen.cjk) { ustr s = u"\r"; s += gen.text(r.range(0, b.w - 1)); write(s); } else write(u"\t\b."); break;   // progress bar
        }
    }
    void pause() { if (burst > 500) { sleepMs(60); burst = 0; } else if (r.chance(0.3)) sleepMs(r.range(1, 80)); }
};

void outputRun(bool plain, bool deepBuffer) {
    Rng r(params.num("seed", 1) * 31 + 7);
    pickOs(r); pickSchedule(r);
    static const UINT cps[] = {437, 437, 437, 1252, 932, 936, 949, 950};
    conDefaults.cp = cps[r.below(8)]; UINT cp = conDefaults.cp;
    if (params.has("cp")) conDefaults.cp = cp = (UINT)params.num("cp", 437);
    loadLibwinpty();
    Baseline bl = baseline();
    {
        Session s; Puppet pp; SessionOpts o;
        static const int cs[] = {80, 80, 120, 40, 132, 20, 3, 1, 2, 200}, rs[] = {25, 25, 50, 24, 10, 5, 2, 1, 3, 60};
        o.cols = cs[r.below(10)]; o.rows = rs[r.below(10)];
        if (r.chance(0.4)) { o.cols = r.range(1, 220); o.rows = r.range(1, 70); }
        if (cp >= 932 && cp <= 950) o.cols = std::max(o.cols, 2);
        if (!plain && o.cols < 2) o.cols = 2;      // a surrogate pair or wide glyph needs two columns
        if (plain) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        if (r.chance(0.5)) o.flags |= WINPTY_FLAG_COLOR_ESCAPES;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        s.out.pSlow = r.chance(0.3) ? 0.2 : 0; s.out.chunkMax = r.chance(0.5) ? 65536 : r.range(1, 3000);
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        DWORD mode = 3;
        Ref ref; UINT ocp = s.con->ocp;
        bool grid = r.chance(0.4);
        pp.run([&] { if (grid) { mode = r.chance(0.5) ? 0x13 : 7; SetConsoleMode(hOut(), mode); } });
        ref.init(s.con, s.con->primary); ref.b.mode = s.con->primary->mode; ref.b.con = s.con;
        WORD mask = maskFor(mode, ocp);
        Compare cmp(s, s.vt);
        Child c(ref, r.next(), cp);
        int rounds = (int)params.num("rounds", 6);
        if (deepBuffer) { pp.run([&] { c.move(0, r.range(2500, 2999)); }); s.quiesce(); }   // the agent needs one look at the new position before the buffer wraps
        for (int k = 0; k < rounds && !violations; k++) {
            pp.run([&] {
                int n = r.range(1, 25);
                for (int i = 0; i < n; i++) { c.step(); c.pause(); }
            });
            if (!s.quiesce()) { violation("livelock", "output never settles although the console is idle"); break; }
            char w[60]; snprintf(w, sizeof w, "round %d", k);
            cmp.scrolling(ref, true, mask, w, false);
        }
        stat("ops", c.ops); stat("lines.scrolled", ref.winTop()); stat("lines.lost.buffer", ref.hist.size());
        stat("out.bytes", s.out.data.size()); stat("selections", s.con->selections); stat("esc", s.vt.esc);
        stat(("dim." + std::to_string(o.cols / 20) + "x" + std::to_string(o.rows / 10)).c_str()); stat(("cp." + std::to_string(cp)).c_str());
        size_t before = s.out.data.size(); if (before > 1500) stat("nontrivial");
        pp.quit = true;
        if (!waitFor([&] { return s.out.closed; }, 100000)) violation("pipe-never-closed", "conout did not close after the child exited");
        s.feed(); cmp.scrolling(ref, true, mask, "after exit", false);
        s.close();
    }
    checkAgentsGone("end");
    checkBaseline(bl, "end");
}
}
SCENARIO(scroll) { outputRun(false, false); }
SCENARIO(scrolldeep) { outputRun(false, true); }
