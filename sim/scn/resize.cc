// Alternate screen buffers, programs that change the buffer or window themselves, and resizes by the client.
#include "common.h"
using namespace sim;

namespace {
// Full-screen drawing through the console API into whatever buffer is current.
struct Drawer {
    Rng r; Gen gen; HANDLE alt = nullptr; int serial = 0; bool fancy; uint64_t ops = 0; int burst = 0;
    Drawer(uint64_t seed, UINT cp) : r(seed), gen(r, cp), fancy(true) {}
    HANDLE out() { return alt ? alt : hOut(); }
    CONSOLE_SCREEN_BUFFER_INFO info() { CONSOLE_SCREEN_BUFFER_INFO i; memset(&i, 0, sizeof i); GetConsoleScreenBufferInfo(out(), &i); return i; }
    WORD wattr() { switch (r.below(4)) { case 0: return 7; case 1: return (WORD)r.below(16); case 2: return (WORD)r.below(256); default: return (WORD)(r.below(256) | (r.chance(0.2) ? 0x4000 : 0) | (r.chance(0.2) ? 0x8000 : 0)); } }
    void put(int x, int y, const ustr &s) { COORD c; c.X = (SHORT)x; c.Y = (SHORT)y; SetConsoleCursorPosition(out(), c); childWrite(out(), s); }
    void line() { char b[60]; snprintf(b, sizeof b, "#%06d ", serial++); ustr s; for (char *p = b; *p; p++) s.push_back(*p); auto i = info(); s += gen.text(r.range(0, std::min<int>(60, i.dwSize.X))); childWrite(out(), s + u"\r\n"); burst++; }
    void step() {
        auto i = info(); int w = i.dwSize.X, top = i.srWindow.Top, bot = i.srWindow.Bottom; ops++;
        switch (r.below(8)) {
        case 0: case 1: line(); break;
        case 2: put(r.range(0, w - 1), r.range(top, bot), gen.text(r.range(0, 30))); break;
        case 3: SetConsoleTextAttribute(out(), wattr()); break;
        case 4: { COORD c; c.X = (SHORT)r.range(0, w - 1); c.Y = (SHORT)r.range(top, bot); DWORD a; FillConsoleOutputCharacterW(out(), r.chance(0.5) ? L' ' : (wchar_t)('a' + r.below(26)), r.range(1, w * 3), c, &a); break; }
        case 5: { COORD c; c.X = (SHORT)r.range(0, w - 1); c.Y = (SHORT)r.range(top, bot); DWORD a; FillConsoleOutputAttribute(out(), wattr(), r.range(1, w * 2), c, &a); break; }
        case 6: { CONSOLE_CURSOR_INFO ci = {25, r.chance(0.6)}; SetConsoleCursorInfo(out(), &ci); break; }
        case 7: { COORD c; c.X = (SHORT)r.range(0, w - 1); c.Y = (SHORT)r.range(top, bot); SetConsoleCursorPosition(out(), c); break; }
        }
        if (burst > 300) { sleepMs(60); burst = 0; }
    }
    void appendStep() { int n = r.range(1, 12); for (int k = 0; k < n; k++) line(); if (burst > 300) { sleepMs(60); burst = 0; } }
    void useAlt() {
        if (alt) return;
        alt = CreateConsoleScreenBuffer(GENERIC_READ | GENERIC_WRITE, FILE_SHARE_READ | FILE_SHARE_WRITE, nullptr, CONSOLE_TEXTMODE_BUFFER, nullptr);
        if (alt == INVALID_HANDLE_VALUE) { violation("harness-child", "CreateConsoleScreenBuffer failed"); alt = nullptr; return; }
        SetConsoleActiveScreenBuffer(alt);
    }
    void dropAlt() { if (!alt) return; SetConsoleActiveScreenBuffer(hOut()); CloseHandle(alt); alt = nullptr; }
    void shrinkBuffer() {                       // what full-screen programs do: no scrollback
        auto i = info(); COORD sz; sz.X = i.dwSize.X; sz.Y = (SHORT)(i.srWindow.Bottom - i.srWindow.Top + 1);
        SMALL_RECT r0 = {0, 0, (SHORT)(i.srWindow.Right - i.srWindow.Left), (SHORT)(sz.Y - 1)};
        SetConsoleWindowInfo(out(), TRUE, &r0); SetConsoleScreenBufferSize(out(), sz);
    }
    void growBuffer() { auto i = info(); COORD sz; sz.X = i.dwSize.X; sz.Y = (SHORT)r.range(i.dwSize.Y, 500); SetConsoleScreenBufferSize(out(), sz); }
    void moveWindow() {
        auto i = info(); int h = i.srWindow.Bottom - i.srWindow.Top + 1; int t = r.range(0, i.dwSize.Y - h);
        int ww = i.srWindow.Right - i.srWindow.Left + 1, l = r.chance(0.5) ? r.range(0, i.dwSize.X - ww) : i.srWindow.Left;
        SMALL_RECT q = {(SHORT)l, (SHORT)t, (SHORT)(l + ww - 1), (SHORT)(t + h - 1)}; SetConsoleWindowInfo(out(), TRUE, &q);
    }
    void windowSize() {
        auto i = info(); int h = r.range(1, std::min<int>(i.dwSize.Y, 60)), w = r.range(1, i.dwSize.X); int t = r.range(0, i.dwSize.Y - h);
        int l = r.chance(0.5) ? r.range(0, i.dwSize.X - w) : 0;
        SMALL_RECT q = {(SHORT)l, (SHORT)t, (SHORT)(l + w - 1), (SHORT)(t + h - 1)}; SetConsoleWindowInfo(out(), TRUE, &q);
    }
};
bool isDirect(Session &s) { return s.con->active->h != 3000; }

void checkNow(Session &s, Compare &cmp, int64_t clearedAbs, const char *when) {
    auto &b = *s.con->active; DWORD mode = b.mode; WORD mask = maskFor(mode, s.con->ocp);
    if (isDirect(s)) { cmp.direct(b, s.o.cols, s.o.rows, mask, when); return; }
    cmp.errors(when);
    int64_t base = (int64_t)b.scrolled;
    if (s.vt.epoch != cmp.lastEpoch) {
        cmp.lastEpoch = s.vt.epoch;
        cmp.offset = base + b.cy - s.vt.row;
        if (!(b.ci.bVisible && s.vt.cursor)) cmp.offset = INT64_MIN;      // cannot anchor without a cursor
        stat("epochs");
    }
    if (cmp.offset == INT64_MIN) { if (b.ci.bVisible && s.vt.cursor && b.cy >= b.win.Top && b.cy <= b.win.Bottom) cmp.offset = base + b.cy - s.vt.row; else { stat("unanchored"); return; } }
    int n = 0;
    for (int y = b.win.Top; y <= b.win.Bottom; y++) {
        int64_t a = base + y; if (a < clearedAbs) continue;
        std::string d = lineDiff(s.vt, a - cmp.offset, &b.at(0, y), std::min<int>(b.w, s.vt.cols), mask, s.vt.color); n++;
        if (!d.empty()) { violation("screen", "%s (%dx%d): console line %lld (window %lld..%lld, terminal line %lld): %s; terminal [%s] console [%s]", when, s.o.cols, s.o.rows, (long long)a, (long long)(base + b.win.Top), (long long)(base + b.win.Bottom), (long long)(a - cmp.offset), d.c_str(), s.vt.rowText(a - cmp.offset).c_str(), cellsText(&b.at(0, y), b.w).c_str()); return; }
    }
    for (auto &kv : s.vt.lines) { int64_t a = kv.first + cmp.offset; if (a > base + b.win.Bottom && kv.second.touched && !s.vt.rowText(kv.first).empty()) { stat("text.below.window"); break; } }
    cmp.cursor(b, base, cmp.offset, when);
    stat("compare.lines", n); stat("compare.screens");
}
void checkSize(Session &s, const char *when) {
    auto &b = *s.con->active; COORD lg = s.con->largest();
    int wc = std::min<int>(std::min(s.o.cols, 2500), lg.X), wr = std::min<int>(std::min(s.o.rows, 2000), lg.Y);
    int hc = b.win.Right - b.win.Left + 1, hr = b.win.Bottom - b.win.Top + 1;
    if (hc != wc || hr != wr) violation("size", "%s: the console window is %dx%d after the size %dx%d was set (display allows %dx%d)", when, hc, hr, s.o.cols, s.o.rows, lg.X, lg.Y);
    if (s.o.cols >= 40 && s.o.cols <= 2500 && s.o.rows <= 2000 && s.o.cols * 5 <= s.con->screenX && s.o.rows * 10 <= s.con->screenY && g->cfg.osMajor >= 6 && (s.con->ocp == 437 || s.con->ocp == 1252) && (hc != s.o.cols || hr != s.o.rows)) violation("size", "%s: the console window is %dx%d after winpty_set_size(%d, %d): the font (%dx%d) is too large for the display (%dx%d)", when, hc, hr, s.o.cols, s.o.rows, s.con->fontX, s.con->fontY, s.con->screenX, s.con->screenY);
    if (b.w < std::min(s.o.cols, 2500)) violation("size", "%s: the console buffer is only %d columns wide after winpty_set_size(%d, %d)", when, b.w, s.o.cols, s.o.rows);
    stat("size.checks");
}
struct Sizes {
    Rng &r; int c, rr; bool deep = false; explicit Sizes(Rng &x, int c0, int r0) : r(x), c(c0), rr(r0) {}
    void next() {
        if (deep && r.chance(0.4)) { rr = r.range(60, r.chance(0.3) ? 1200 : 400); return; }
        switch (r.below(9)) {
        case 0: c = r.range(1, 5); break; case 1: rr = r.range(1, 4); break;
        case 2: c = r.range(60, 250); rr = r.range(10, 80); break;
        case 3: rr = std::max(1, rr + r.range(-6, 6)); break;
        case 4: c = std::max(1, c + r.range(-10, 10)); break;
        case 5: { static const int cc[] = {80, 132, 500, 2500, 2501, 1, 300}, q[] = {25, 50, 100, 2000, 2001, 1, 400}; if (r.chance(0.3)) { c = cc[r.below(7)]; rr = q[r.below(7)]; } break; }
        case 6: rr = r.range(10, 120); break;
        default: c = r.range(20, 160); rr = r.range(5, 60); break;
        }
    }
};
void displayModel(Rng &r, bool minPx) {
    static const int sx[] = {1920, 1280, 3840, 1024, 20000}, sy[] = {1080, 800, 2160, 768, 20000};
    int k = r.below(5); conDefaults.screenX = sx[k]; conDefaults.screenY = sy[k];
    conDefaults.minPx = minPx && r.chance(0.4) ? r.range(50, g->cfg.osMajor < 6 ? 72 : 120) : 0;      // Windows' own minimum window width is about 120 pixels
}
}

// Programs that switch buffers and move or size the window; no client resizes.
SCENARIO(direct) {
    Rng r(params.num("seed", 1) * 37 + 5);
    pickOs(r); pickSchedule(r);
    static const UINT cps[] = {437, 437, 1252}; conDefaults.cp = cps[r.below(3)];
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; Puppet pp; SessionOpts o; o.cols = r.range(2, 150); o.rows = r.range(2, 60); if (r.chance(0.3)) { o.cols = 80; o.rows = 25; }
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        s.vt.checkClamp = false; s.vt.checkWrap = true; s.vt.clamp = false;
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        Drawer d(r.next(), conDefaults.cp); d.gen.ascii = false; Compare cmp(s, s.vt); int64_t cleared = 0; bool wasDirect = false; bool big = false;
        for (int k = 0; k < 12 && !violations; k++) {
            pp.run([&] {
                int act = r.below(8);
                if (act == 0) d.useAlt(); else if (act == 1) d.dropAlt();
                else if (act == 2 && d.alt) d.shrinkBuffer();
                else if (act == 3 && d.alt && !big) d.growBuffer();
                else if (act == 4 && d.alt) d.moveWindow();
                else if (act == 5 && d.alt) d.windowSize();
                int n = r.range(0, 12); for (int i = 0; i < n; i++) { if (d.alt) d.step(); else d.appendStep(); if (r.chance(0.3)) sleepMs(r.range(1, 60)); }
            });
            if (!s.quiesce()) { violation("livelock", "output never settles although the console is idle"); break; }
            bool dir = isDirect(s); if (dir != wasDirect) stat("mode.switches");
            if (!dir && wasDirect) { auto &b = *s.con->active; cleared = (int64_t)b.scrolled + b.win.Top; }
            wasDirect = dir;
            char w[60]; snprintf(w, sizeof w, "round %d", k); checkNow(s, cmp, cleared, w);
        }
        if (s.out.data.size() > 500) stat("nontrivial"); stat("ops", d.ops);
        pp.run([&] { d.dropAlt(); }); pp.quit = true;
        if (!waitFor([&] { return s.out.closed; }, 100000)) violation("pipe-never-closed", "conout did not close after the child exited");
        s.feed(); s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}

// Client resizes, with an append-only or a full-screen program, waiting for quiet around each resize.
static void resizeRun(bool concurrent, bool full, bool deep = false) {
    Rng r(params.num("seed", 1) * 41 + 3);
    pickOs(r); pickSchedule(r); displayModel(r, !concurrent);
    conDefaults.cp = r.chance(0.8) ? 437 : 1252;
    loadLibwinpty(); Baseline bl = baseline();
    if (r.chance(0.08)) {      // sizes beyond anything the console can have
        static const int huge[] = {2000, 2001, 2500, 2501, 3000, 3001, 32767, 32768, 40000, 65535, 65536, 70000, 0x7fffffff};
        Session s; SessionOpts o; if (r.chance(0.7)) o.rows = huge[r.below(13)]; else o.cols = huge[r.below(13)]; if (r.chance(0.2)) o.cols = o.rows = huge[r.below(13)];
        if (!s.open(o)) { violation("open", "winpty_open with %dx%d failed: %s", o.cols, o.rows, s.openErr.msg.c_str()); return; }
        checkSize(s, "straight after winpty_open"); stat("huge.initial"); s.close();
    }
    {
        Session s; Puppet pp; SessionOpts o; o.cols = r.range(2, 150); o.rows = r.range(2, 60); if (r.chance(0.3)) { o.cols = 80; o.rows = 25; }
        bool keeps = r.chance(0.5) && !concurrent; if (keeps) conDefaults.minPx = 0;      // (such a terminal must have seen the output of one size, at that size, before it takes the next)
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        s.vt.checkClamp = false; s.vt.clamp = false; s.vt.checkWrap = false; s.vt.keepsObscured = keeps;
        checkSize(s, "straight after winpty_open");
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        Drawer d(r.next(), conDefaults.cp); d.gen.ascii = true; Compare cmp(s, s.vt); int64_t cleared = 0; Sizes z(r, o.cols, o.rows);
        bool direct = full && r.chance(0.6);
        if (direct) pp.run([&] { if (r.chance(0.7)) { d.useAlt(); } d.shrinkBuffer(); });
        s.quiesce();
        if (deep) {      // a long-lived session: the buffer is (nearly) full and markers are in use
            z.deep = true;
            pp.run([&] { COORD c; c.X = 0; c.Y = (SHORT)r.range(2500, 2999); SetConsoleCursorPosition(hOut(), c); });
            s.quiesce();
            pp.run([&] { int n = r.range(1, 400); for (int i = 0; i < n; i++) d.line(); });
            s.quiesce();
        }
        for (int k = 0; k < 10 && !violations; k++) {
            auto work = [&] { int n = r.range(0, 10); for (int i = 0; i < n; i++) { if (full) d.step(); else d.appendStep(); if (r.chance(0.3)) sleepMs(r.range(1, 60)); } };
            if (concurrent) pp.post(work); else { pp.run(work); if (!s.quiesce()) { violation("livelock", "output never settles"); break; } }
            if (!concurrent && !isDirect(s)) checkNow(s, cmp, cleared, "before the resize");
            if (violations) break;
            std::map<int64_t, std::string> past; int epoch0 = s.vt.epoch;
            if (!concurrent && !isDirect(s) && s.vt.keepsObscured) { s.feed(); int64_t wt = (int64_t)s.con->active->scrolled + s.con->active->win.Top - cmp.offset; if (cmp.offset != INT64_MIN) for (auto &kv : s.vt.lines) if (kv.first < wt) past[kv.first] = s.vt.rowText(kv.first); }
            int burst = r.chance(0.4) ? r.range(2, 6) : 1;
            for (int b = 0; b < burst; b++) {
                z.next();
                auto &sb = *s.con->active; bool noHistory = isDirect(s) && sb.h == sb.win.Bottom - sb.win.Top + 1; int64_t lineAbs = (int64_t)sb.scrolled + sb.cy; int cx = sb.cx; bool inWin = sb.cy >= sb.win.Top && sb.cy <= sb.win.Bottom;
                std::string lineText; std::vector<std::string> before; int64_t bTop = (int64_t)sb.scrolled + sb.win.Top; int oldH = sb.win.Bottom - sb.win.Top + 1;
                if (!concurrent && !full) for (int y = sb.win.Top; y <= sb.win.Bottom; y++) before.push_back(sb.row(y));
                if (!isDirect(s)) cleared = std::max(cleared, bTop);
                size_t sizeEv = 0; for (auto &e : s.con->inputLog) if (e.EventType == WINDOW_BUFFER_SIZE_EVENT) sizeEv++;
                s.feed(); s.vt.rows = std::min(z.rr, 2000); s.vt.cols = std::max(keeps ? 0 : s.vt.cols, std::min(z.c, 2500)); s.o.cols = z.c; s.o.rows = z.rr;
                ErrRec er;
                if (!s.resize(z.c, z.rr, &er)) { violation("resize-failed", "winpty_set_size(%d, %d) failed: %s", z.c, z.rr, er.msg.c_str()); break; }
                stat("resizes");
                auto &nb = *s.con->active; s.feed(); s.vt.resize(std::max<int>(std::min(z.c, 2500), nb.w), std::min(z.rr, 2000));   // a console buffer can refuse to be as narrow
                if (&nb != &sb && !concurrent) violation("size", "the active screen buffer changed during a resize");
                if (!concurrent) checkSize(s, "straight after winpty_set_size");
                if (!concurrent && noHistory && isDirect(s)) { int hr = nb.win.Bottom - nb.win.Top + 1; if (nb.h != std::min(z.rr, 2000) && nb.h != hr) violation("size", "winpty_set_size(%d, %d): the program's screen buffer had no scrollback and now has %d lines in a window of %d", z.c, z.rr, nb.h, hr); stat("no.history"); }
                if (!concurrent) {
                    size_t ev2 = 0; for (auto &e : s.con->inputLog) if (e.EventType == WINDOW_BUFFER_SIZE_EVENT) ev2++;
                    if (ev2 == sizeEv) violation("size-event", "a resize to %dx%d was not announced to the program", z.c, z.rr);
                    else for (auto it = s.con->inputLog.rbegin(); it != s.con->inputLog.rend(); ++it) if (it->EventType == WINDOW_BUFFER_SIZE_EVENT) {
                        COORD ev = it->Event.WindowBufferSizeEvent.dwSize;
                        if (ev.X != nb.w || ev.Y != nb.h) violation("size-event", "the resize to %dx%d was announced to the program as a buffer of %dx%d; it has %dx%d", z.c, z.rr, ev.X, ev.Y, nb.w, nb.h);
                        break;
                    }
                    if (inWin && !(nb.cy >= nb.win.Top && nb.cy <= nb.win.Bottom)) violation("cursor-lost", "resize to %dx%d: the cursor was in the window before and is outside it after (line %d, window %d..%d)", z.c, z.rr, nb.cy, nb.win.Top, nb.win.Bottom);
                    if (!full) {
                        if ((int64_t)nb.scrolled + nb.cy != lineAbs) violation("cursor-lost", "resize to %dx%d: the cursor moved from line %lld to %lld", z.c, z.rr, (long long)lineAbs, (long long)nb.scrolled + nb.cy);
                        for (size_t i = 0; i < before.size(); i++) {      // visible text stays where it was as far as it fits
                            int64_t a = bTop + (int64_t)i - (int64_t)nb.scrolled; if (a < nb.win.Top || a >= nb.h) continue;
                            std::string now = nb.row((int)a), was = before[i].substr(0, std::min<size_t>(before[i].size(), nb.w)); while (!was.empty() && was.back() == ' ') was.pop_back();
                            if (now != was) { violation("text-lost", "resize to %dx%d: visible console line %lld changed from [%s] to [%s]", z.c, z.rr, (long long)bTop + (long long)i, was.c_str(), now.c_str()); break; }
                            stat("text.kept");
                        }
                    }
                    (void)cx;
                }
                if (concurrent && !isDirect(s)) cleared = std::max<int64_t>(cleared, std::max<int64_t>((int64_t)nb.scrolled + nb.win.Top, (int64_t)nb.scrolled + nb.cy - oldH + 1));
                if (!concurrent && (r.chance(0.5) || s.vt.keepsObscured)) { s.quiesce(); }
            }
            if (violations) break;
            if (concurrent) { if (r.chance(0.5)) continue; waitFor([&] { return pp.idle(); }, 600000); }
            if (!s.quiesce()) { violation("livelock", "output never settles after a resize"); break; }
            if (!full && s.vt.epoch) violation("cleared", "round %d: the terminal was cleared although the program only appended lines and the client resized", k);
            char w[60]; snprintf(w, sizeof w, "round %d", k);
            if (s.vt.epoch == epoch0) for (auto &kv : past) if (s.vt.rowText(kv.first) != kv.second) { violation("text-lost", "%s: line %lld of the terminal's history changed from [%s] to [%s] after a resize", w, (long long)kv.first, kv.second.c_str(), s.vt.rowText(kv.first).c_str()); break; } else stat("history.kept");
            checkNow(s, cmp, cleared, w);
            if (full && !concurrent && d.alt && r.chance(0.2) && !violations) {        // the program leaves its full-screen buffer: the other one has the client's size too
                pp.run([&] { d.dropAlt(); }); s.quiesce();
                if (!isDirect(s)) { checkSize(s, "after the program left its own screen buffer"); auto &pb = *s.con->active; cleared = std::max(cleared, (int64_t)pb.scrolled + pb.win.Top); s.feed(); s.vt.resize(std::max<int>(std::min(s.o.cols, 2500), pb.w), s.vt.rows); checkNow(s, cmp, cleared, "after the program left its own screen buffer"); stat("left.alt"); }
            }
            if (concurrent && !isDirect(s) && !violations) {      // the lines the program wrote during the resizes are all there
                auto &b = *s.con->active; int want = d.serial;
                for (int y = b.cy; y >= b.win.Top && (int64_t)b.scrolled + y >= cleared && b.w >= 9; y--) {
                    std::string t = b.row(y); int k2; if (t.size() < 7 || t[0] != '#' || t.find_first_not_of("0123456789", 1) < 7 || (t.size() > 7 && t[7] != ' ') || sscanf(t.c_str(), "#%d", &k2) != 1) continue;
                    if (k2 != want - 1) { violation("text-lost", "%s: console row %d holds line #%06d, expected #%06d", w, y, k2, want - 1); break; }
                    want = k2; stat("busy.lines");
                }
                if (b.w >= 9 && want == d.serial && d.serial > 0 && (int64_t)b.scrolled + b.cy > cleared + 2) stat("busy.none");
            }
        }
        waitFor([&] { return pp.idle(); }, 600000); s.quiesce();
        if (concurrent && !violations) checkSize(s, "at the end");
        // the console is still usable
        pp.run([&] { d.put(0, d.info().srWindow.Top, u"x"); });
        if (s.out.data.size() > 500) stat("nontrivial"); stat("ops", d.ops); stat("selections", s.con->selections);
        pp.run([&] { d.dropAlt(); }); pp.quit = true;
        if (!waitFor([&] { return s.out.closed; }, 100000)) violation("pipe-never-closed", "conout did not close after the child exited");
        s.feed(); s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
// Plain output of programs that draw, switch buffers and clear: only text and line breaks, and everything on the screen has been sent.
SCENARIO(plaindraw) {
    Rng r(params.num("seed", 1) * 53 + 3);
    pickOs(r); pickSchedule(r);
    static const UINT cps[] = {437, 437, 1252}; conDefaults.cp = cps[r.below(3)];
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; Puppet pp; SessionOpts o; o.cols = r.range(10, 150); o.rows = r.range(2, 60); o.flags |= WINPTY_FLAG_PLAIN_OUTPUT; if (r.chance(0.5)) o.flags |= WINPTY_FLAG_COLOR_ESCAPES; if (r.chance(0.2)) o.flags |= WINPTY_FLAG_CONERR; if (r.chance(0.3)) o.mouseMode = r.below(3);
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        Drawer d(r.next(), conDefaults.cp); d.gen.ascii = r.chance(0.5); Sizes z(r, o.cols, o.rows);
        for (int k = 0; k < 8 && !violations; k++) {
            pp.run([&] {
                int act = r.below(9);      // (with WINPTY_FLAG_CONERR only the program's two original buffers are shown)
                if (act == 0 && !(o.flags & WINPTY_FLAG_CONERR)) d.useAlt(); else if (act == 1) d.dropAlt(); else if (act == 2 && d.alt) d.shrinkBuffer(); else if (act == 3 && d.alt) d.moveWindow();
                else if (act == 4) { auto i = d.info(); COORD q = {0, 0}; DWORD a; FillConsoleOutputCharacterW(d.out(), L' ', (DWORD)i.dwSize.X * i.dwSize.Y, q, &a); FillConsoleOutputAttribute(d.out(), 7, (DWORD)i.dwSize.X * i.dwSize.Y, q, &a); SetConsoleCursorPosition(d.out(), q); stat("cls"); }
                int n = r.range(0, 12); for (int i = 0; i < n; i++) { d.step(); if (r.chance(0.3)) sleepMs(r.range(1, 60)); }
            });
            if (r.chance(0.3)) { z.next(); s.resize(std::min(z.c, 300), std::min(z.rr, 200)); s.o.cols = std::min(z.c, 300); s.o.rows = std::min(z.rr, 200); }
            if (!s.quiesce()) { violation("livelock", "output never settles although the console is idle"); break; }
            s.feed(); char w[60]; snprintf(w, sizeof w, "round %d", k);
            if (s.vt.nErr) violation("stream", "%s: %d errors in the plain output stream: %s", w, s.vt.nErr, s.vt.errors.c_str());
            const std::string &t = s.vt.text; std::set<std::string> lines; size_t p = 0; bool lone = false;
            for (size_t i = 0; i < t.size(); i++) { if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] != '\n') lone = true; if (t[i] == '\n' && (!i || t[i - 1] != '\r')) lone = true; }
            if (lone) violation("plain", "%s: a carriage return or line feed of its own in the plain output", w);
            while (p <= t.size()) { size_t e = t.find("\r\n", p); std::string l = t.substr(p, e == std::string::npos ? e : e - p); while (!l.empty() && l.back() == ' ') l.pop_back(); lines.insert(l); if (e == std::string::npos) break; p = e + 2; }
            auto &b = *s.con->active; int w0 = b.w, h0 = b.win.Bottom - b.win.Top + 1, x0 = 0; if (isDirect(s)) { x0 = b.win.Left; w0 = std::min<int>(b.win.Right - b.win.Left + 1, s.o.cols); h0 = std::min(h0, s.o.rows); }
            for (int y = 0; y < h0 && !violations; y++) { std::string c = cellsText(&b.at(x0, b.win.Top + y), w0); if (!c.empty() && !lines.count(c)) violation("plain", "%s: line %d of the console window [%s] never appeared in the plain output (%zu different lines)", w, y, c.c_str(), lines.size()); stat("plain.rows"); }
        }
        if (s.out.data.size() > 500) stat("nontrivial"); stat("ops", d.ops);
        pp.run([&] { d.dropAlt(); }); pp.quit = true;
        if (!waitFor([&] { return s.out.closed; }, 100000)) violation("pipe-never-closed", "conout did not close after the child exited");
        s.feed(); if (s.vt.nErr && !violations) violation("stream", "after exit: %d errors in the plain output stream: %s", s.vt.nErr, s.vt.errors.c_str());
        s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
SCENARIO(resize) { resizeRun(false, false); }
SCENARIO(resizefull) { resizeRun(false, true); }
SCENARIO(resizebusy) { resizeRun(true, false); }
SCENARIO(resizedeep) { resizeRun(false, false, true); }
SCENARIO(resizedeepbusy) { resizeRun(true, false, true); }
