// Append-only programs: nothing lost, nothing repeated, in every output mode.
#include "common.h"
using namespace sim;

namespace {
// Writes numbered lines; remembers what every console row must finally contain.
ustr shown(ustr s);
struct Appender {
    Rng r; Gen gen; int w; std::vector<ustr> rows; ustr cur; int serial = 0; int burst = 0; int maxBurst = 1200; bool colors = false; bool progress = true, whole = false; HANDLE h = nullptr; char tag;
    Appender(uint64_t seed, UINT cp, int width, char t) : r(seed), gen(r, cp), w(width), tag(t) {}
    void raw(const ustr &s) { childWrite(h, s); }
    // In plain mode a line whose earlier cells change in meaning is repeated, so the halves of a pair are written together there.
    size_t cut(const ustr &s, size_t k) { if (whole && k > 0 && k < s.size() && s[k - 1] >= 0xD800 && s[k - 1] < 0xDC00) k++; return std::min(k, s.size()); }
    // appends text to the current row; wraps like the console
    void emit(const ustr &s) {
        size_t i = 0; while (i < s.size()) { size_t n = cut(s, i + std::min<size_t>(s.size() - i, r.chance(0.15) ? 1 + r.below(7) : 2000)) - i; raw(s.substr(i, n)); if (r.chance(0.02)) sleepMs(r.range(1, 40)); i += n; }
        for (char16_t c : s) { if ((int)cur.size() == w) nl(); cur.push_back(c); if ((int)cur.size() == w) nl(); }
    }
    void nl() { while (!cur.empty() && cur.back() == u' ') cur.pop_back(); rows.push_back(cur); cur.clear(); burst++; }
    void endLine() { raw(u"\r\n"); nl(); }
    void line() {
        char b[40]; snprintf(b, sizeof b, "%c%d.", tag, serial++); ustr s; for (char *p = b; *p; p++) s.push_back(*p);
        switch (r.below(8)) {
        case 0: break;
        case 1: s += gen.text(r.range(0, w * 2)); break;
        case 2: s += ustr(r.below(w + 1), u' '); break;
        case 3: s = ustr(r.below(w + 1), u' ') + s; break;
        case 4: s.clear(); break;
        default: s += gen.text(r.range(0, std::min(w, 40)));
        }
        if (colors && r.chance(0.2)) SetConsoleTextAttribute(h, (WORD)(r.chance(0.3) ? 7 : r.below(256)));
        if (r.chance(0.15)) { size_t k = cut(s, r.below((uint32_t)s.size() + 1)); emit(s.substr(0, k)); sleepMs(r.range(1, 60)); emit(s.substr(k)); } else emit(s);
        if (progress && r.chance(0.05) && (int)cur.size() < w - 1 && !cur.empty()) {   // progress display in place: same length rewritten, ends with the final text
            ustr keep = cur; for (int k = 0; k < 5; k++) { ustr t = u"\r"; for (size_t i = 0; i < keep.size(); i++) t.push_back((char16_t)('0' + r.below(10))); raw(t); sleepMs(r.range(1, 40)); } raw(u"\r" + keep);
        }
        endLine();
        if (burst > maxBurst) { sleepMs(70); burst = 0; }
    }
    std::vector<ustr> all() { std::vector<ustr> v; for (auto &x : rows) v.push_back(shown(x)); ustr c = cur; while (!c.empty() && c.back() == u' ') c.pop_back(); v.push_back(shown(c)); return v; }
};
// What a row of cells can be as text: halves of surrogate pairs that do not belong together are shown as '?'.
ustr shown(ustr s) { for (size_t i = 0; i < s.size(); i++) { bool hi = s[i] >= 0xD800 && s[i] < 0xDC00, lo = s[i] >= 0xDC00 && s[i] < 0xE000; if (hi && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) { i++; continue; } if (hi || lo) s[i] = u'?'; } return s; }
void checkRows(Vt &vt, const std::vector<ustr> &want, const char *when, const char *stream) {
    if (vt.nErr) { violation("stream", "%s: %s: %s", when, stream, vt.errors.c_str()); vt.nErr = 0; vt.errors.clear(); return; }
    if (vt.epoch) { violation("terminal-reset", "%s: %s: the terminal was cleared although the program only appended lines", when, stream); return; }
    for (size_t i = 0; i < want.size(); i++) {
        std::string t = vt.rowText((int64_t)i), c = u8(want[i]);
        if (t != c) { violation("line", "%s: %s: line %zu of %zu is [%s] on the terminal but the program wrote [%s] (next terminal line [%s])", when, stream, i, want.size(), t.c_str(), c.c_str(), vt.rowText((int64_t)i + 1).c_str()); return; }
    }
    for (auto &kv : vt.lines) if (kv.first >= (int64_t)want.size() && !vt.rowText(kv.first).empty()) { violation("line", "%s: %s: the terminal shows an extra line %lld [%s] (the program wrote %zu)", when, stream, (long long)kv.first, vt.rowText(kv.first).c_str(), want.size()); return; }
    stat("lines.checked", want.size()); stat("streams.checked");
}
void checkText(Vt &vt, const std::vector<ustr> &want, const char *when, const char *stream) {
    std::string t; for (size_t i = 0; i < want.size(); i++) { if (i) t += "\r\n"; t += u8(want[i]); }
    std::string have = vt.text;
    if (have != t) {
        size_t i = 0; while (i < t.size() && i < have.size() && t[i] == have[i]) i++;
        violation("text", "%s: %s: plain text differs at byte %zu of %zu: received [%s], expected [%s]", when, stream, i, t.size(), esc(have.substr(i > 20 ? i - 20 : 0, 80)).c_str(), esc(t.substr(i > 20 ? i - 20 : 0, 80)).c_str());
    }
    stat("text.bytes", t.size());
}
void resizeBoth(Session &s, Puppet &pp, int cols, int rows, const char *when) {
    s.quiesce(); s.feed(); ErrRec er; s.vt.cols = std::max(s.vt.cols, cols); s.vtErr.cols = std::max(s.vtErr.cols, cols); s.vt.rows = s.vtErr.rows = rows;
    if (!s.resize(cols, rows, &er)) { violation("resize-failed", "winpty_set_size(%d, %d) failed: %s", cols, rows, er.msg.c_str()); return; }
    s.o.cols = cols; s.o.rows = rows;
    pp.run([&] {
        for (int k = 0; k < 2; k++) {
            CONSOLE_SCREEN_BUFFER_INFO i; memset(&i, 0, sizeof i); COORD lg = s.con->largest();
            if (!GetConsoleScreenBufferInfo(k ? hErr() : hOut(), &i)) { violation("conerr", "GetConsoleScreenBufferInfo failed"); return; }
            int wc = i.srWindow.Right - i.srWindow.Left + 1, wr = i.srWindow.Bottom - i.srWindow.Top + 1;
            if (wc != std::min<int>(cols, lg.X) || wr != std::min<int>(rows, lg.Y)) violation("size", "%s: the window of the program's standard %s is %dx%d after winpty_set_size(%d, %d) succeeded", when, k ? "error" : "output", wc, wr, cols, rows);
            stat("size.checks");
        }
    });
    s.quiesce();
    s.feed(); s.vt.resize(cols, rows); s.vtErr.resize(cols, rows);
}
void appendRun(bool plain, bool conerr, bool deep) {
    Rng r(params.num("seed", 1) * 43 + 11);
    pickOs(r); pickSchedule(r);
    static const UINT cps[] = {437, 437, 1252}; conDefaults.cp = cps[r.below(3)];
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; Puppet pp; SessionOpts o; o.cols = r.range(2, 150); o.rows = r.range(1, 60); if (r.chance(0.4)) { o.cols = 80; o.rows = 25; } if (r.chance(0.05)) o.cols = 1;
        if (plain) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT; if (conerr) o.flags |= WINPTY_FLAG_CONERR; bool color = r.chance(0.5); if (color) o.flags |= WINPTY_FLAG_COLOR_ESCAPES;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        s.out.pSlow = r.chance(0.2) ? 0.1 : 0; s.out.chunkMax = r.chance(0.5) ? 65536 : r.range(1, 3000);
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        Appender a(r.next(), conDefaults.cp, o.cols, 'o'), e(r.next(), conDefaults.cp, o.cols, 'e');
        a.colors = e.colors = r.chance(0.5); a.progress = e.progress = !plain; a.whole = e.whole = plain; a.gen.ascii = e.gen.ascii = o.cols < 4 || r.chance(0.3);
        pp.run([&] { a.h = hOut(); e.h = hErr(); DWORD im = 0; if (!GetConsoleMode(hIn(), &im)) violation("stdin", "the program's standard input is not the console's input"); if (!GetConsoleMode(a.h, &im) || !GetConsoleMode(e.h, &im)) violation("conerr", "the program's standard output or error is not a console screen buffer"); if (conerr && a.h == e.h) violation("conerr", "the program's standard error is its standard output although WINPTY_FLAG_CONERR was given"); });
        if (!conerr) { auto x = s.con; (void)x; }
        int rounds = deep ? 8 : 4;
        for (int k = 0; k < rounds && !violations; k++) {
            pp.run([&] {
                int n = deep ? r.range(100, 1500) : r.range(1, 60);
                for (int i = 0; i < n; i++) { if (conerr && r.chance(0.4)) e.line(); else a.line(); if (r.chance(deep ? 0.003 : 0.1)) sleepMs(r.range(1, 60)); }
                if (r.chance(0.5)) { a.emit(a.gen.text(r.range(0, 30))); }
            });
            if (plain && r.chance(0.3)) { static const char *part[] = {"\x1b", "\x1b[", "\x1b[1", "\x1b""O", "\x1b\x1b", "\xc3", "\x1b[<0;1"}; s.write(part[r.below(7)]); stat("typed.partial"); if (r.chance(0.3)) sleepMs(1600); }     // (a terminal would be asked whether more follows)
            if (!s.quiesce()) { violation("livelock", "output never settles although the console is idle"); break; }
            char w[60]; snprintf(w, sizeof w, "round %d (%dx%d)", k, o.cols, o.rows);
            if (plain) for (auto d : {&s.out.data, &s.errOut.data}) { size_t at = 0; while ((at = d->find('\x1b', at)) != std::string::npos) { size_t e2 = at + 1; if (e2 < d->size() && (*d)[e2] == '[') { e2++; while (e2 < d->size() && (isdigit((unsigned char)(*d)[e2]) || (*d)[e2] == ';')) e2++; } if (!color || (e2 < d->size() && (*d)[e2] != 'm')) { violation("text", "plain output%s contains [%s]", color ? " with colours" : "", esc(d->substr(at, e2 - at + 1)).c_str()); break; } at = e2; } }
            checkRows(s.vt, a.all(), w, "stdout"); if (conerr) checkRows(s.vtErr, e.all(), w, "stderr");
            if (plain && !violations && !s.vt.color) { checkText(s.vt, a.all(), w, "stdout"); if (conerr) checkText(s.vtErr, e.all(), w, "stderr"); }
            if (conerr && !violations && r.chance(0.3)) resizeBoth(s, pp, o.cols, r.range(1, 60), w);      // both screen buffers take the new size
        }
        if (s.out.data.size() > 500) stat("nontrivial"); stat("lines.written", a.serial + e.serial); if (s.con->active->scrolled) stat("wrapped.buffer");
        if (violations && params.has("dump")) fprintf(stderr, "conout: %s\nconerr: %s\n", esc(s.out.data, 1000000).c_str(), esc(s.errOut.data, 1000000).c_str());
        if (plain && !s.vt.color && s.out.data.find('\x1b') != std::string::npos) violation("text", "an escape character in plain output");
        bool reshaped = conerr && !violations && r.chance(0.4);
        if (reshaped) { int n = r.range(1, 3); for (int i = 0; i < n; i++) resizeBoth(s, pp, r.range(1, 200), r.range(1, 80), "at the end"); }
        if (a.w >= 4 && r.chance(0.7) && !reshaped) pp.post([&] { int n = r.range(1, 40); for (int i = 0; i < n; i++) { if (conerr && r.chance(0.4)) e.line(); else a.line(); } });
        pp.quit = true;
        if (!waitFor([&] { return s.out.closed && (!conerr || s.errOut.closed); }, 100000)) violation("pipe-never-closed", "conout did not close after the child exited");
        s.feed(); if (!violations && !reshaped) { checkRows(s.vt, a.all(), "after exit", "stdout"); if (conerr) checkRows(s.vtErr, e.all(), "after exit", "stderr"); }
        s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
}
SCENARIO(append) { appendRun(false, false, false); }
SCENARIO(appenddeep) { appendRun(false, false, true); }
SCENARIO(plain) { appendRun(true, false, false); }
SCENARIO(plaindeep) { appendRun(true, false, true); }
SCENARIO(conerr) { appendRun(false, true, false); }
SCENARIO(conerrplain) { appendRun(true, true, false); }

// CLS and friends: the screen is cleared, the window jumps to the top, the cursor is hidden and shown.
SCENARIO(cls) {
    Rng r(params.num("seed", 1) * 47 + 2);
    pickOs(r); pickSchedule(r);
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; Puppet pp; SessionOpts o; o.cols = r.range(10, 120); o.rows = r.range(1, 50);
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        Gen g2(r, 437); Ref ref; Compare cmp(s, s.vt);
        ref.init(s.con, s.con->primary); ref.b.mode = s.con->primary->mode; ref.b.con = s.con;
        bool deep = r.chance(0.4);
        for (int k = 0; k < 12 && !violations; k++) {
            if (deep && r.chance(0.3)) pp.run([&] {       // far enough down for a sync marker, or past the end of the buffer
                for (int left = r.chance(0.3) ? r.range(2800, 3600) : r.range(250, 900); left > 0;) {
                    int L = r.range(20, 200); ustr t; for (int j = 0; j < L; j++) t += g2.text(r.range(0, std::min(o.cols - 1, 20))) + u"\r\n"; childWrite(hOut(), t); ref.b.write(t); left -= L; sleepMs(r.range(60, 120));
                }
                stat("deep");
            });
            pp.run([&] {
                int n = r.range(0, 4), burst = 0;
                for (int i = 0; i < n; i++) {
                    switch (r.below(5)) {
                    case 0: { int L = r.range(1, 80); ustr t; for (int j = 0; j < L; j++) t += g2.text(r.range(0, o.cols - 1)) + u"\r\n"; childWrite(hOut(), t); ref.b.write(t); burst += L; break; }
                    case 1: { bool v = r.chance(0.5); CONSOLE_CURSOR_INFO ci = {25, v}; SetConsoleCursorInfo(hOut(), &ci); ref.b.ci = ci; break; }
                    case 2: { COORD z; z.X = z.Y = 0; DWORD act; FillConsoleOutputCharacterW(hOut(), L' ', ref.b.w * ref.b.h, z, &act); FillConsoleOutputAttribute(hOut(), 7, ref.b.w * ref.b.h, z, &act); SetConsoleCursorPosition(hOut(), z);
                        ref.b.fillChar(u' ', ref.b.w * ref.b.h, 0, 0); ref.b.fillAttr(7, ref.b.w * ref.b.h, 0, 0); ref.b.cx = ref.b.cy = 0; ref.b.follow(); stat("cls"); burst = 0; break; }
                    case 3: { ustr t = g2.text(r.range(0, 9)); childWrite(hOut(), t); ref.b.write(t); break; }
                    case 4: sleepMs(r.range(1, 60)); break;
                    }
                    if (burst > 300) { sleepMs(70); burst = 0; }
                }
            });
            if (!s.quiesce()) { violation("livelock", "output never settles although the console is idle"); break; }
            char w[60]; snprintf(w, sizeof w, "round %d", k);
            cmp.scrolling(ref, false, maskFor(3, 437), w, true);
        }
        if (s.out.data.size() > 300) stat("nontrivial");
        pp.quit = true; waitFor([&] { return s.out.closed; }, 100000); s.feed(); s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
