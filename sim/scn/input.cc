// Typed input: text, key sequences, terminal replies, hostile bytes.
#include "common.h"
using namespace sim;

namespace {
const DWORD kShift = 0x10, kLCtrl = 8, kLAlt = 2, kRAlt = 1, kEnh = 0x100, kWin = 0x10000000;
struct Stroke { WORD vk; char16_t ch; DWORD st; bool operator==(const Stroke &o) const { return vk == o.vk && ch == o.ch && st == o.st; } };
std::string str(const Stroke &s) { char b[80]; snprintf(b, sizeof b, "vk=%#x ch=%#x state=%#x", s.vk, (unsigned)s.ch, (unsigned)s.st); return b; }
struct Token { std::string bytes; std::vector<Stroke> ex; ustr vt; bool lone = false; int ctrlC = 0; WORD win = 0; const char *kind = ""; };

std::string enc(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
ustr u16(uint32_t c) { ustr s; if (c >= 0x10000) { c -= 0x10000; s.push_back((char16_t)(0xD800 + (c >> 10))); s.push_back((char16_t)(0xDC00 + (c & 0x3FF))); } else s.push_back((char16_t)c); return s; }
// The keyboard layout of the simulated machine (US, plus AltGr-E and AltGr-2).
bool layout(uint32_t c, WORD &vk, DWORD &st) {
    st = 0; vk = 0;
    if (c >= 'a' && c <= 'z') { vk = (WORD)(c - 32); return true; } if (c >= 'A' && c <= 'Z') { vk = (WORD)c; st = kShift; return true; } if (c >= '0' && c <= '9') { vk = (WORD)c; return true; }
    const char *sh = ")!@#$%^&*("; if (c && c < 0x80) if (const char *p = strchr(sh, (int)c)) { vk = (WORD)('0' + (p - sh)); st = kShift; return true; }
    static const char lo[] = ";=,-./`[\\]'", hi[] = ":+<_>?~{|}\""; static const WORD v[] = {0xBA, 0xBB, 0xBC, 0xBD, 0xBE, 0xBF, 0xC0, 0xDB, 0xDC, 0xDD, 0xDE};
    if (c && c < 0x80) { if (const char *p = strchr(lo, (int)c)) { vk = v[p - lo]; return true; } if (const char *p = strchr(hi, (int)c)) { vk = v[p - hi]; st = kShift; return true; } }
    if (c == 32) { vk = VK_SPACE; return true; } if (c == 13) { vk = VK_RETURN; return true; } if (c == 9) { vk = VK_TAB; return true; } if (c == 8) { vk = VK_BACK; return true; } if (c == 27) { vk = VK_ESCAPE; return true; }
    if (c >= 1 && c <= 26) { vk = (WORD)('A' + c - 1); st = kLCtrl; return true; }
    if (c == 0x20AC) { vk = 'E'; st = kLCtrl | kRAlt; return true; } if (c == 0xB2) { vk = '2'; st = kLCtrl | kRAlt; return true; }
    return false;
}
bool enhanced(WORD vk) { switch (vk) { case VK_UP: case VK_DOWN: case VK_LEFT: case VK_RIGHT: case VK_INSERT: case VK_DELETE: case VK_HOME: case VK_END: case VK_PRIOR: case VK_NEXT: return true; } return false; }

struct InGen {
    Rng &r; bool processed = true, vtMode = false;
    explicit InGen(Rng &rr) : r(rr) {}
    Token chr(uint32_t c, bool alt) {
        Token t; t.kind = alt ? "alt-char" : "char"; t.bytes = (alt ? std::string("\x1b") : std::string()) + enc(c);
        if (c == 3 && processed && !alt) { t.ctrlC = 1; t.kind = "ctrl-c"; return t; }
        if (c == 0x7f) { t.ex.push_back({VK_BACK, 8, alt ? kLAlt : 0}); t.vt = alt ? u"\x1b\x7f" : u"\x7f"; return t; }
        WORD vk; DWORD st; layout(c, vk, st); if (alt) st |= kLAlt;
        ustr u = u16(c); bool zero = alt && (st & kLCtrl);
        if (zero) t.ex.push_back({vk, 0, st}); else for (char16_t x : u) t.ex.push_back({vk, x, st});
        if (alt) t.vt = u"\x1b"; if (c == 8 && vk == VK_BACK) { t.vt += u"\x7f"; } else if (c) t.vt += u;
        return t;
    }
    uint32_t anyChar() {
        switch (r.below(12)) {
        case 0: { static const int ctl[] = {1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 21, 23, 26, 28, 29, 30, 31, 0x7f, 3}; return (uint32_t)ctl[r.below(23)]; }
        case 1: return (uint32_t)r.range(0x80, 0x7FF);
        case 2: return (uint32_t)r.range(0x800, 0xD7FF);
        case 3: return (uint32_t)r.range(0xE000, 0xFFFF);
        case 4: return (uint32_t)r.range(0x10000, 0x10FFFF);
        case 5: { static const uint32_t e[] = {0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x20AC, 0xB2, 0x1F600, 0xFEFF}; return e[r.below(17)]; }
        default: return (uint32_t)r.range(0x20, 0x7e);
        }
    }
    Token key(WORD vk, char16_t ch, DWORD mods, const std::string &bytes, bool numericName, const char *name, const char *kind) {
        Token t; t.kind = kind; t.bytes = bytes;
        char16_t dn = ch; bool ctrl = mods & kLCtrl, alt = mods & kLAlt, shift = mods & kShift;
        char16_t text = ch;
        if (ctrl) { if (vk == VK_ADD || vk == VK_DIVIDE || vk == VK_MULTIPLY || vk == VK_SUBTRACT) dn = text = 0; if (vk == VK_RETURN) dn = text = u'\n'; }
        if (ctrl && alt) dn = 0;
        t.ex.push_back({vk, dn, mods | (enhanced(vk) ? kEnh : 0)});
        // re-encoding
        if (!mods && (vk == VK_UP || vk == VK_DOWN || vk == VK_LEFT || vk == VK_RIGHT || vk == VK_HOME || vk == VK_END)) t.win = vk;
        else if (name) {
            int f = (shift ? 1 : 0) | (alt ? 2 : 0) | (ctrl ? 4 : 0);
            t.vt = u"\x1b["; if (numericName) t.vt += A(name); else if (f) t.vt += u'1';
            if (f) { t.vt += u';'; t.vt.push_back((char16_t)('1' + f)); }
            t.vt += numericName ? u"~" : A(name);
        } else if (vk == VK_TAB && shift) t.vt = u"\x1b[Z";
        else if (text) { if (alt) t.vt = u"\x1b"; t.vt.push_back(text); }
        return t;
    }
    Token letterKey() {
        struct L { char id; WORD vk; char16_t ch; bool num; const char *name; };
        static const L nav[] = {{'A', VK_UP, 0, false, "A"}, {'B', VK_DOWN, 0, false, "B"}, {'C', VK_RIGHT, 0, false, "C"}, {'D', VK_LEFT, 0, false, "D"}, {'H', VK_HOME, 0, false, "H"}, {'F', VK_END, 0, false, "F"}};
        static const L pad[] = {{'M', VK_RETURN, '\r', false, nullptr}, {'j', VK_MULTIPLY, '*', false, nullptr}, {'k', VK_ADD, '+', false, nullptr}, {'m', VK_SUBTRACT, '-', false, nullptr}, {'n', VK_DELETE, 0, true, "3"}, {'o', VK_DIVIDE, '/', false, nullptr}, {'p', VK_INSERT, 0, true, "2"}, {'q', VK_END, 0, false, "F"}, {'r', VK_DOWN, 0, false, "B"}, {'s', VK_NEXT, 0, true, "6"}, {'t', VK_LEFT, 0, false, "D"}, {'u', VK_CLEAR, 0, false, "E"}, {'v', VK_RIGHT, 0, false, "C"}, {'w', VK_HOME, 0, false, "H"}, {'x', VK_UP, 0, false, "A"}, {'y', VK_PRIOR, 0, true, "5"}};
        static const L fn[] = {{'P', VK_F1, 0, true, "11"}, {'Q', VK_F2, 0, true, "12"}, {'R', VK_F3, 0, true, "13"}, {'S', VK_F4, 0, true, "14"}};
        bool alt = r.chance(0.25); std::string p = alt ? "\x1b\x1b" : "\x1b"; DWORD am = alt ? kLAlt : 0; int mod = r.range(2, 8);
        DWORD mm = ((mod - 1) & 1 ? kShift : 0) | ((mod - 1) & 2 ? kLAlt : 0) | ((mod - 1) & 4 ? kLCtrl : 0); char md = (char)('0' + mod);
        switch (r.below(9)) {
        case 0: { const L &l = nav[r.below(6)]; return key(l.vk, 0, am, p + "[" + l.id, l.num, l.name, "csi-bare"); }
        case 1: { const L &l = nav[r.below(6)]; return key(l.vk, 0, am | mm, p + "[1;" + md + l.id, l.num, l.name, "csi-1;mod"); }
        case 2: { const L &l = nav[r.below(6)]; return key(l.vk, 0, am | mm, p + "[" + md + l.id, l.num, l.name, "csi-mod"); }
        case 3: { const L &l = nav[r.below(6)]; return key(l.vk, 0, am, p + "O" + l.id, l.num, l.name, "ss3-bare"); }
        case 4: { const L &l = nav[r.below(4)]; bool o = r.chance(0.5); return key(l.vk, 0, am | (o ? kLCtrl : kShift), p + (o ? "O" : "[") + (char)(l.id + 32), l.num, l.name, "rxvt"); }
        case 5: { const L &l = pad[r.below(16)]; bool m = r.chance(0.5); return key(l.vk, l.ch, am | (m ? mm : 0), p + "O" + (m ? std::string(1, md) : std::string()) + l.id, l.num, l.name, "ss3-pad"); }
        case 6: { const L &l = pad[1 + r.below(15)]; bool m = r.chance(0.5); return key(l.vk, l.ch, am | (m ? mm : 0), p + "[" + (m ? std::string("1;") + md : std::string()) + l.id, l.num, l.name, "csi-pad"); }
        case 7: { const L &l = fn[r.below(4)]; int k = r.below(3); if (k == 0) return key(l.vk, 0, 0, std::string("\x1bO") + l.id, l.num, l.name, "ss3-fn"); if (k == 1) return key(l.vk, 0, mm, std::string("\x1bO") + md + l.id, l.num, l.name, "ss3-fn"); return key(l.vk, 0, mm, std::string("\x1bO1;") + md + l.id, l.num, l.name, "ss3-fn"); }
        default: {
            int k = r.below(6);
            if (k == 0) return key(VK_TAB, 9, kShift, "\x1b[Z", false, nullptr, "backtab");
            if (k == 1) { int i = r.range(0, 4); static const char *nm[] = {"11", "12", "13", "14", "15"}; return key((WORD)(VK_F1 + i), 0, am, p + "[[" + (char)('A' + i), true, nm[i], "linux-fn"); }
            if (k == 2) return key(VK_CLEAR, 0, am, p + (r.chance(0.5) ? "[E" : r.chance(0.5) ? "[G" : "OG"), false, "E", "clear");
            if (k == 3) return key(VK_CLEAR, 0, am | mm, p + "[1;" + md + (r.chance(0.5) ? "E" : "G"), false, "E", "clear");
            const L &l = fn[r.pick(std::vector<int>{0, 1, 3})]; return key(l.vk, 0, mm | (alt ? kLAlt : 0), p + "[1;" + md + l.id, l.num, l.name, "csi-fn");
        } }
    }
    Token numericKey() {
        struct N { int n; WORD vk; DWORD st; bool num; const char *name; };
        static const N ns[] = {{1, VK_HOME, 0, false, "H"}, {2, VK_INSERT, 0, true, "2"}, {3, VK_DELETE, 0, true, "3"}, {4, VK_END, 0, false, "F"}, {5, VK_PRIOR, 0, true, "5"}, {6, VK_NEXT, 0, true, "6"}, {7, VK_HOME, 0, false, "H"}, {8, VK_END, 0, false, "F"}, {11, VK_F1, 0, true, "11"}, {12, VK_F2, 0, true, "12"}, {13, VK_F3, 0, true, "13"}, {14, VK_F4, 0, true, "14"}, {15, VK_F5, 0, true, "15"}, {17, VK_F6, 0, true, "17"}, {18, VK_F7, 0, true, "18"}, {19, VK_F8, 0, true, "19"}, {20, VK_F9, 0, true, "20"}, {21, VK_F10, 0, true, "21"}, {23, VK_F11, 0, true, "23"}, {24, VK_F12, 0, true, "24"}, {25, VK_F3, kShift, true, "13"}, {26, VK_F4, kShift, true, "14"}, {28, VK_F5, kShift, true, "15"}, {29, VK_F6, kShift, true, "17"}, {31, VK_F7, kShift, true, "18"}, {32, VK_F8, kShift, true, "19"}, {33, VK_F9, kShift, true, "20"}, {34, VK_F10, kShift, true, "21"}};
        const N &n = ns[r.below(28)]; bool alt = r.chance(0.25); std::string b = alt ? "\x1b\x1b[" : "\x1b["; DWORD st = n.st | (alt ? kLAlt : 0); b += std::to_string(n.n);
        if (r.chance(0.5)) { int mod = r.range(2, 8); b += ";"; b += (char)('0' + mod); st |= ((mod - 1) & 1 ? kShift : 0) | ((mod - 1) & 2 ? kLAlt : 0) | ((mod - 1) & 4 ? kLCtrl : 0); }
        switch (r.below(5)) { case 0: b += "$"; st |= kShift; break; case 1: b += "^"; st |= kLCtrl; break; case 2: b += "@"; st |= kShift | kLCtrl; break; default: b += "~"; }
        return key(n.vk, 0, st, b, n.num, n.name, "numeric");
    }
    Token lone() {
        Token t; t.lone = true; t.kind = "lone";
        switch (r.below(6)) {
        case 0: t.bytes = "\x1b["; t.ex = {{0xDB, '[', kLAlt}}; t.vt = u"\x1b["; break;
        case 1: t.bytes = "\x1bO"; t.ex = {{'O', 'O', kLAlt | kShift}}; t.vt = u"\x1bO"; break;
        case 2: t.bytes = "\x1b\x1b"; t.ex = {{VK_ESCAPE, 27, 0}, {VK_ESCAPE, 27, 0}}; t.vt = u"\x1b\x1b"; break;
        default: t.bytes = "\x1b"; t.ex = {{VK_ESCAPE, 27, 0}}; t.vt = u"\x1b";
        }
        return t;
    }
    Token token(int style) {                    // 0 text, 1 keys, 2 both
        if (style == 0 || (style == 2 && r.chance(0.5))) {
            uint32_t c = anyChar();
            if (style == 2 && r.chance(0.2)) { if (c != '[' && c != 'O' && c != 27 && c != 0x20AC && c != 0xB2) return chr(c, true); }
            return chr(c, false);
        }
        int k = r.below(10); if (k == 0) return lone(); return k < 6 ? letterKey() : numericKey();
    }
};

// Reads the console's input log and checks that keys are balanced.
struct Observed {
    std::shared_ptr<Console> con; size_t pos = 0; bool vtMode = false;
    DWORD held = 0; std::deque<Stroke> pend; std::vector<Stroke> strokes; std::vector<uint64_t> at; ustr vt; std::vector<WORD> win; size_t mouse = 0;
    void take() {
        for (; pos < con->inputLog.size(); pos++) {
            const INPUT_RECORD &ir = con->inputLog[pos];
            if (ir.EventType == WINDOW_BUFFER_SIZE_EVENT) continue;
            if (ir.EventType == MOUSE_EVENT) { mouse++; continue; }
            if (ir.EventType != KEY_EVENT) { violation("event-type", "an input record of type %d", ir.EventType); continue; }
            const KEY_EVENT_RECORD &k = ir.Event.KeyEvent; DWORD st = k.dwControlKeyState;
            if (st & kWin) { if (k.bKeyDown) { win.push_back(k.wVirtualKeyCode); vt.push_back(u'\xF8F0'); vt.push_back(k.wVirtualKeyCode); } continue; }
            if (k.wRepeatCount != 1) violation("key-event", "repeat count %d", k.wRepeatCount);
            DWORD bit = k.wVirtualKeyCode == VK_SHIFT ? kShift : k.wVirtualKeyCode == VK_CONTROL ? kLCtrl : k.wVirtualKeyCode == VK_MENU ? (st & kEnh ? kRAlt : kLAlt) : 0;
            if (bit) {
                if (k.bKeyDown) held |= bit; else held &= ~bit;
                if ((st & 0x1F) != held) violation("modifier-state", "key event vk=%#x %s carries state %#x but %#x is held", k.wVirtualKeyCode, k.bKeyDown ? "down" : "up", (unsigned)st, (unsigned)held);
                continue;
            }
            if (vtMode) { if (k.bKeyDown) { vt.push_back((char16_t)k.uChar.UnicodeChar); if (k.wVirtualKeyCode) violation("escape-input", "a key-down event with virtual key %#x in terminal-escape input mode", k.wVirtualKeyCode); } continue; }
            if ((st & 0x1F) != held) violation("modifier-state", "key event vk=%#x %s carries state %#x but %#x is held", k.wVirtualKeyCode, k.bKeyDown ? "down" : "up", (unsigned)st, (unsigned)held);
            Stroke s = {k.wVirtualKeyCode, (char16_t)k.uChar.UnicodeChar, st};
            if (k.bKeyDown) { pend.push_back(s); strokes.push_back(s); at.push_back(con->inputLogTime[pos]); }
            else {
                if (pend.empty()) { violation("key-balance", "key-up without a key-down: %s", str(s).c_str()); continue; }
                if (pend.front().vk != s.vk || (s.ch && s.ch != pend.front().ch) || ((s.st ^ pend.front().st) & kEnh)) violation("key-balance", "key-up %s after key-down %s", str(s).c_str(), str(pend.front()).c_str());
                if (s.vk == 0 && s.ch == 0) pend.clear(); else pend.pop_front();
            }
        }
    }
    void settled(const char *when) { if (!pend.empty()) violation("key-balance", "%s: a key was pressed but not released: %s", when, str(pend.front()).c_str()); if (held) violation("key-balance", "%s: modifiers %#x are still held", when, (unsigned)held); }
};

struct Typist {
    Session &s; Rng &r; int responsive; size_t seenDsr = 0, answered = 0, scanned = 0; uint64_t dueAt = 0; bool anyReply = false; uint64_t lastReplyAt = 0; int replies = 0; double pSplit; int gapMax;
    Typist(Session &ss, Rng &rr) : s(ss), r(rr) { responsive = r.below(3); pSplit = r.below(3) * 0.4; gapMax = r.chance(0.4) ? 600 : r.chance(0.5) ? 60 : 3; }
    void scan() { for (;;) { size_t p = s.out.data.find("\x1b[6n", scanned); if (p == std::string::npos) { scanned = s.out.data.size() > 3 ? std::max(scanned, s.out.data.size() - 3) : scanned; break; } scanned = p + 4; seenDsr++; dueAt = g->nowUs + (responsive == 1 ? r.range(1000, 700000) : 0); } }
    void raw(const std::string &b, bool split) {
        size_t i = 0;
        while (i < b.size()) {
            size_t n = split ? std::min<size_t>(b.size() - i, 1 + r.below(3)) : b.size() - i;
            s.write(b.substr(i, n)); i += n;
            if (i < b.size()) sleepMs(r.range(0, gapMax)); else if (r.chance(0.1)) sleepMs(r.range(0, 30));
        }
        if (split) stat("split.tokens");
    }
    bool reply() {                              // at a token boundary
        scan();
        if (responsive == 2 || answered >= seenDsr || g->nowUs < dueAt) return false;
        answered++; char b[60]; bool corner = r.chance(0.4); snprintf(b, sizeof b, "\x1b[%d;%dR", corner ? 1 : r.range(1, 60), corner ? r.range(1, 10) : r.range(1, 200));
        raw(b, r.chance(0.3)); replies++; lastReplyAt = g->nowUs; stat("dsr.replies"); return true;
    }
    bool plain = false;
    void type(const Token &t) {
        scan(); size_t seen0 = seenDsr; bool ask = !plain && t.lone && answered >= seenDsr;
        raw(t.bytes, t.bytes.size() > 1 && r.chance(pSplit));
        if (t.lone) {                           // nobody types on before the terminal has answered or the delay is over
            uint64_t t0 = g->nowUs; bool got = false;
            while (g->nowUs - t0 < 1250000) { sleepMs(5); if (reply()) { got = true; break; } }
            if (got) stat("lone.answered"); else stat("lone.timeout");
            if (ask) {
                scan(); stat("queries.checked");
                if (seenDsr == seen0) violation("no-query", "%s was typed with no query outstanding, but the terminal was not asked whether more follows within %lld ms", esc(t.bytes).c_str(), (long long)(g->nowUs - t0) / 1000);
            }
        } else reply();
    }
};

void inputRun(int style, bool vtSometimes) {
    Rng r(params.num("seed", 1) * 53 + style + 7);
    pickOs(r); pickSchedule(r);
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; Puppet pp; SessionOpts o; o.cols = 80; o.rows = 25; if (r.chance(0.2)) o.flags = WINPTY_FLAG_PLAIN_OUTPUT; if (r.chance(0.1)) o.flags |= WINPTY_FLAG_CONERR; o.mouseMode = r.below(3);
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        pp.run([] { SetConsoleCtrlHandler(nullptr, TRUE); });
        Typist ty(s, r); ty.plain = o.flags & WINPTY_FLAG_PLAIN_OUTPUT; InGen gen(r); Observed ob; ob.con = s.con;
        for (int round = 0; round < 5 && !violations; round++) {
            gen.processed = r.chance(0.6); gen.vtMode = vtSometimes && r.chance(0.4);
            pp.run([&] { DWORD m = (s.con->inMode & ~0x201u) | (gen.processed ? 1 : 0) | (gen.vtMode ? 0x200 : 0); SetConsoleMode(hIn(), m); });
            sleepMs(120); ob.take(); ob.strokes.clear(); ob.at.clear(); ob.vt.clear(); ob.win.clear(); ob.vtMode = gen.vtMode; int cc0 = s.con->ctrlC;
            std::vector<Token> toks; int n = r.range(1, 40); if (style == 0 && r.chance(0.1)) n = r.range(500, 4000);
            std::string batch; double pBatch = r.below(3) * 0.45; std::vector<std::pair<size_t, uint64_t>> lones;
            auto flushBatch = [&] { if (!batch.empty()) { bool big = batch.size() > 200; if (big) { size_t i = 0; while (i < batch.size()) { size_t k = std::min<size_t>(batch.size() - i, 1 + r.below(6000)); s.write(batch.substr(i, k)); i += k; if (i < batch.size() && r.chance(0.5)) sleepMs(r.range(0, 40)); } } else ty.raw(batch, r.chance(ty.pSplit)); batch.clear(); ty.reply(); } };
            size_t want = 0;
            for (int i = 0; i < n; i++) {
                Token t = gen.token(style); toks.push_back(t);
                stat((std::string("token.") + t.kind).c_str());
                if (!t.lone && (n > 100 || r.chance(pBatch))) { batch += t.bytes; want += t.ex.size(); continue; }
                flushBatch();
                if (t.lone) lones.push_back({want, g->nowUs});
                want += t.ex.size();
                ty.type(t);
                if (t.lone && !gen.vtMode) {
                    uint64_t due = g->nowUs + 200000; waitFor([&] { ob.take(); return ob.strokes.size() >= want; }, 200);
                    if (ob.strokes.size() < want) violation("escape-delay", "%s was not delivered %lld ms after it was typed (%s)", esc(t.bytes).c_str(), (long long)(due - lones.back().second) / 1000, ty.lastReplyAt >= lones.back().second ? "the terminal had answered the query" : "time-out");
                    stat("lone.checked");
                }
            }
            flushBatch();
            sleepMs(300); for (int i = 0; i < 5; i++) { ty.reply(); sleepMs(250); }
            ob.take(); char when[60]; snprintf(when, sizeof when, "round %d", round); ob.settled(when);
            std::vector<Stroke> ex; ustr vt; int cc = 0; std::string all;
            for (auto &t : toks) { all += t.bytes; cc += t.ctrlC; for (auto &x : t.ex) ex.push_back(x); if (t.win) { vt.push_back(u'\xF8F0'); vt.push_back(t.win); } else vt += t.vt; }
            if (s.con->ctrlC - cc0 != cc) violation("ctrl-c", "%d Ctrl-C characters were typed in %s mode but %d Ctrl-C events were generated", cc, gen.processed ? "processed" : "unprocessed", s.con->ctrlC - cc0);
            if (gen.vtMode) {
                if (ob.vt != vt) { size_t i = 0; while (i < vt.size() && i < ob.vt.size() && vt[i] == ob.vt[i]) i++; violation("escape-input", "%s: re-encoded input differs at unit %zu of %zu: received [%s], expected [%s]; typed [%s]", when, i, vt.size(), esc(u8(ob.vt.substr(i > 8 ? i - 8 : 0, 40))).c_str(), esc(u8(vt.substr(i > 8 ? i - 8 : 0, 40))).c_str(), esc(all, 300).c_str()); }
                stat("vt.units", vt.size());
            } else {
                if (!ob.win.empty()) violation("key", "a key was sent as a window message outside terminal-escape input mode");
                for (size_t i = 0; i < ex.size() || i < ob.strokes.size(); i++) if (i >= ex.size() || i >= ob.strokes.size() || !(ex[i] == ob.strokes[i])) {
                    violation("key", "%s: key %zu of %zu is [%s], expected [%s]; typed [%s]", when, i, ex.size(), i < ob.strokes.size() ? str(ob.strokes[i]).c_str() : "nothing", i < ex.size() ? str(ex[i]).c_str() : "nothing", esc(all, 300).c_str()); break; }
                stat("strokes.checked", ex.size());
            }
            if (ob.mouse && !(s.con->inMode & 0x10)) violation("mouse-off", "mouse events although mouse input is off");
            if (ex.size() >= 5) stat("nontrivial");
        }
        pp.quit = true; waitFor([&] { return s.out.closed; }, 100000); s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
}
SCENARIO(typetext) { inputRun(0, true); }
SCENARIO(typekeys) { inputRun(1, true); }
SCENARIO(typemix) { inputRun(2, true); }

namespace {
std::string garbage(Rng &r) {                  // never valid UTF-8, and never completed by what follows
    switch (r.below(9)) {
    case 0: return std::string(1, (char)r.range(0x80, 0xBF));
    case 1: return std::string(1, (char)r.range(0xF8, 0xFF));
    case 2: return std::string(1, (char)r.range(0xC2, 0xDF));                                                      // truncated
    case 3: { std::string s(1, (char)r.range(0xE1, 0xEC)); if (r.chance(0.5)) s += (char)r.range(0x80, 0xBF); return s; }
    case 4: { std::string s(1, (char)r.range(0xF1, 0xF3)); int n = r.below(3); while (n--) s += (char)r.range(0x80, 0xBF); return s; }
    case 5: return std::string("\xC0") + (char)r.range(0x80, 0xBF);                                               // overlong
    case 6: return std::string("\xE0") + (char)r.range(0x80, 0x9F) + (char)r.range(0x80, 0xBF);
    case 7: return std::string("\xED") + (char)r.range(0xA0, 0xBF) + (char)r.range(0x80, 0xBF);                     // surrogate
    default: return std::string("\xF4") + (char)r.range(0x90, 0xBF) + (char)r.range(0x80, 0xBF) + (char)r.range(0x80, 0xBF);
    }
}
std::string hostileBytes(Rng &r, InGen &gen, size_t want) {
    std::string s; int style = r.below(6);
    while (s.size() < want) {
        switch (style == 5 ? r.below(5) : style) {
        case 0: s += (char)r.below(256); break;
        case 1: { static const char al[] = "\x1b\x1b[<;;0123456789MmRO~^$@ABZ-\x03"; s += al[r.below(sizeof al - 1)]; break; }
        case 2: { std::string t = gen.token(r.below(3)).bytes; if (r.chance(0.4)) t.resize(r.below((uint32_t)t.size() + 1)); if (r.chance(0.2) && !t.empty()) t[r.below((uint32_t)t.size())] = (char)r.below(256); s += t; break; }
        case 3: if (r.chance(0.5)) s += garbage(r); else s += enc(gen.anyChar()); if (r.chance(0.1)) s += "\x1b"; break;
        case 4: { char b[80]; snprintf(b, sizeof b, "\x1b[<%d;%d;%d%c", r.range(0, 300), r.range(-5, 99999), r.range(-5, 9999999), r.chance(0.5) ? 'M' : 'm'); s += b; if (r.chance(0.3)) s.resize(s.size() - r.below(5)); if (r.chance(0.2)) { s += "\x1b[M"; for (int i = 0; i < 3; i++) s += (char)r.below(256); } if (r.chance(0.1)) s += "\x1b[" + std::string(r.range(1, 3000), (char)('0' + r.below(10))); break; }
        }
    }
    // ESC followed by a terminal reply is decided by whether a query is outstanding, so it is kept out of the comparison
    for (size_t p = 0; (p = s.find("\x1b\x1b[", p)) != std::string::npos; p++) s[p] = 'e';
    return s;
}
std::vector<std::string> keyLog(Console &c, size_t from) {
    std::vector<std::string> v;
    for (size_t i = from; i < c.inputLog.size(); i++) if (c.inputLog[i].EventType == KEY_EVENT) { auto &k = c.inputLog[i].Event.KeyEvent; char b[100]; snprintf(b, sizeof b, "%s vk=%#x ch=%#x state=%#x", k.bKeyDown ? "down" : "up", k.wVirtualKeyCode, (unsigned)k.uChar.UnicodeChar, (unsigned)k.dwControlKeyState); v.push_back(b); }
    return v;
}
size_t heapBytes(Process *p) { size_t n = 0; for (auto &x : p->heap) n += x.second; return n; }
void marker(Session &s, Rng &r, const char *when) {
    char b[60]; snprintf(b, sizeof b, "marker-%u\xC3\xA9\r", r.below(1000000)); ustr want;
    for (char *p = b; *p; p++) { if ((unsigned char)*p == 0xC3) { want.push_back(0xE9); p++; } else want.push_back((char16_t)*p); }
    size_t from = s.con->inputLog.size(); s.write(b); sleepMs(300);
    ustr got; for (size_t i = from; i < s.con->inputLog.size(); i++) if (s.con->inputLog[i].EventType == KEY_EVENT && s.con->inputLog[i].Event.KeyEvent.bKeyDown && s.con->inputLog[i].Event.KeyEvent.uChar.UnicodeChar) got.push_back((char16_t)s.con->inputLog[i].Event.KeyEvent.uChar.UnicodeChar);
    if (got != want) violation("wedged", "%s: the text [%s] typed afterwards arrived as [%s]", when, esc(b).c_str(), esc(u8(got)).c_str());
    stat("marker.checked");
}
}
// Text with malformed bytes between the characters.
SCENARIO(typebad) {
    Rng r(params.num("seed", 1) * 59 + 3);
    pickOs(r); pickSchedule(r);
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; Puppet pp; SessionOpts o;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        Typist ty(s, r); InGen gen(r); Observed ob; ob.con = s.con; pp.run([] { SetConsoleCtrlHandler(nullptr, TRUE); });
        for (int round = 0; round < 6 && !violations; round++) {
            ob.take(); ob.strokes.clear(); std::string all; std::vector<Stroke> ex; int n = r.range(1, 60);
            for (int i = 0; i < n; i++) {
                if (r.chance(0.35)) { std::string x = garbage(r); while (!all.empty() && (all.back() & 0x80) && ((unsigned char)x[0] & 0xC0) == 0x80) x = garbage(r); ty.raw(x, r.chance(0.3)); all += x; stat("garbage"); if (r.chance(0.05)) sleepMs(1300); continue; }
                uint32_t c = gen.anyChar(); if (c == 3) c = 'x'; Token t = gen.chr(c, false); ty.raw(t.bytes, r.chance(0.2)); all += t.bytes; for (auto &x : t.ex) ex.push_back(x);
            }
            sleepMs(1400); ob.take(); ob.settled("after malformed input");
            for (size_t i = 0; i < ex.size() || i < ob.strokes.size(); i++) if (i >= ex.size() || i >= ob.strokes.size() || !(ex[i] == ob.strokes[i])) {
                violation("malformed", "round %d: key %zu of %zu is [%s], expected [%s]; typed [%s]", round, i, ex.size(), i < ob.strokes.size() ? str(ob.strokes[i]).c_str() : "nothing", i < ex.size() ? str(ex[i]).c_str() : "nothing", esc(all, 300).c_str()); break; }
            stat("strokes.checked", ex.size()); if (ex.size() > 5) stat("nontrivial");
        }
        pp.quit = true; waitFor([&] { return s.out.closed; }, 100000); s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
// The same arbitrary bytes whole and in pieces give the same events; ordinary text still gets through afterwards.
SCENARIO(hostile) {
    Rng r(params.num("seed", 1) * 61 + 3);
    pickOs(r); pickSchedule(r); g->cfg.pStall = 0;
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s[2]; Puppet pp[2]; InGen gen(r);
        for (int i = 0; i < 2; i++) { SessionOpts o; o.mouseMode = 1; if (!s[i].open(o)) { violation("open", "winpty_open failed: %s", s[i].openErr.msg.c_str()); return; } if (!s[i].spawn(pp[i].program())) { violation("spawn", "winpty_spawn failed: %s", s[i].spawnErr.msg.c_str()); return; } pp[i].run([] { SetConsoleCtrlHandler(nullptr, TRUE); }); }
        for (int round = 0; round < 5 && !violations; round++) {
            DWORD m = (r.chance(0.5) ? 1 : 0) | (r.chance(0.2) ? 0x200 : 0); for (int i = 0; i < 2; i++) pp[i].run([&] { SetConsoleMode(hIn(), 0x1E6 | m); });
            sleepMs(100);
            std::string b = hostileBytes(r, gen, (size_t)(r.chance(0.2) ? r.range(1000, 20000) : r.range(1, 300)));
            size_t f0 = s[0].con->inputLog.size(), f1 = s[1].con->inputLog.size(); int c0 = s[0].con->ctrlC, c1 = s[1].con->ctrlC;
            s[0].write(b); int pieces = 0;
            for (size_t i = 0; i < b.size();) { size_t n = std::min<size_t>(b.size() - i, b.size() > 400 ? 1 + r.below(500) : 1 + r.below(4)); s[1].write(b.substr(i, n)); i += n; pieces++; if (i < b.size() && r.chance(0.4)) sleepMs(r.range(0, r.chance(0.1) ? 700 : 20)); }
            sleepMs(1500);
            auto a = keyLog(*s[0].con, f0), d = keyLog(*s[1].con, f1);
            if (a != d) { size_t i = 0; while (i < a.size() && i < d.size() && a[i] == d[i]) i++; violation("chunking", "round %d: %zu bytes give %zu key events in one piece and %zu in %d pieces; event %zu: [%s] whole, [%s] in pieces; bytes [%s]", round, b.size(), a.size(), d.size(), pieces, i, i < a.size() ? a[i].c_str() : "none", i < d.size() ? d[i].c_str() : "none", esc(b, 300).c_str()); }
            if (s[0].con->ctrlC - c0 != s[1].con->ctrlC - c1) violation("chunking", "round %d: %d Ctrl-C events whole, %d in pieces; bytes [%s]", round, s[0].con->ctrlC - c0, s[1].con->ctrlC - c1, esc(b, 300).c_str());
            for (auto &x : s) { Observed ob; ob.con = x.con; ob.pos = &x == s ? f0 : f1; ob.vtMode = m & 0x200; ob.take(); ob.settled("after hostile input"); }
            stat("hostile.bytes", b.size()); stat("pieces", pieces); stat("events.compared", a.size()); if (a.size() > 10) stat("nontrivial");
            for (int i = 0; i < 2; i++) { pp[i].run([&] { SetConsoleMode(hIn(), 0x1E7); }); } sleepMs(100); for (auto &x : s) marker(x, r, "after hostile input");
        }
        for (int i = 0; i < 2; i++) { if (s[i].agent->exited) violation("agent-death", "the agent stopped: %s", s[i].agent->exitWhy); pp[i].quit = true; waitFor([&] { return s[i].out.closed; }, 100000); s[i].close(); }
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
// A flood of arbitrary bytes, with and without a terminal that answers, mouse input on and off.
SCENARIO(flood) {
    Rng r(params.num("seed", 1) * 67 + 3);
    pickOs(r); pickSchedule(r); g->cfg.pSwitch = 0.05; g->cfg.pStall = 0;
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; Puppet pp; InGen gen(r); SessionOpts o; o.mouseMode = r.below(3); if (r.chance(0.2)) o.flags = WINPTY_FLAG_PLAIN_OUTPUT;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        pp.run([] { SetConsoleCtrlHandler(nullptr, TRUE); });
        size_t peak = 0; bool answers = r.chance(0.5); size_t scanned = 0; size_t size = (size_t)r.range(2000, 60000);
        for (int round = 0; round < 10 && !violations; round++) {
            DWORD m = (r.chance(0.5) ? 1 : 0) | (r.chance(0.2) ? 0x200 : 0) | (r.chance(0.5) ? 0x10 : 0) | (r.chance(0.5) ? 0x40 : 0); pp.run([&] { SetConsoleMode(hIn(), 0x1A6 | m); });
            sleepMs(60); std::string b = hostileBytes(r, gen, size);
            for (size_t i = 0; i < b.size();) { size_t n = std::min<size_t>(b.size() - i, 1 + r.below(9000)); s.write(b.substr(i, n)); i += n; if (r.chance(0.2)) sleepMs(r.range(0, 50)); if (r.chance(0.05)) { s.resize(r.range(1, 120), r.range(1, 60)); }
                if (answers) { size_t p = s.out.data.find("\x1b[6n", scanned); if (p != std::string::npos) { scanned = p + 4; s.write("\x1b[1;1R"); } } }
            sleepMs(2500); pp.run([&] { SetConsoleMode(hIn(), 0x1E7); FlushConsoleInputBuffer(hIn()); }); sleepMs(100);
            marker(s, r, "after a flood"); size_t h = heapBytes(s.agent);
            if (round < 4) peak = std::max(peak, h); else if (h > peak + 300000) violation("memory", "the agent's heap grew from at most %zu to %zu bytes over %d floods of %zu bytes", peak, h, round + 1, size);
            stat("hostile.bytes", b.size()); s.con->inputLog.clear(); s.con->inputLogTime.clear(); stat("nontrivial");
        }
        if (s.agent->exited) violation("agent-death", "the agent stopped: %s", s.agent->exitWhy);
        pp.quit = true; waitFor([&] { return s.out.closed; }, 100000); s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}

namespace {
struct MouseModel {                             // what the terminal reports, as console events
    struct Ev { int x, y; DWORD buttons, keys, flags; };
    DWORD state = 0, dcButton = 0; int dcX = 0, dcY = 0; uint64_t dcAt = 0;
    static std::string str(const Ev &e) { char b[100]; snprintf(b, sizeof b, "mouse (%d,%d) buttons=%#x keys=%#x flags=%#x", e.x, e.y, (unsigned)e.buttons, (unsigned)e.keys, (unsigned)e.flags); return b; }
};
}
SCENARIO(mouse) {
    Rng r(params.num("seed", 1) * 71 + 5);
    pickOs(r); pickSchedule(r); g->cfg.pStall = 0;
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; Puppet pp; SessionOpts o; o.cols = r.range(2, 150); o.rows = r.range(1, 60); o.mouseMode = r.below(3); bool plain = r.chance(0.15); if (plain) o.flags = WINPTY_FLAG_PLAIN_OUTPUT; if (r.chance(0.1)) o.flags |= WINPTY_FLAG_CONERR;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        pp.run([] { SetConsoleCtrlHandler(nullptr, TRUE); });
        sleepMs(100); bool ee = true, mi = s.con->inMode & 0x10, qe = s.con->inMode & 0x40;
        if (qe != (o.mouseMode == WINPTY_MOUSE_MODE_AUTO)) violation("mouse-mode", "QuickEdit is initially %s with mouse mode %d", qe ? "on" : "off", o.mouseMode);
        if (!(s.con->inMode & 0x80)) violation("mouse-mode", "extended flags are initially off");
        Typist ty(s, r); if (ty.gapMax > 60) ty.gapMax = 5; else if (ty.gapMax > 3) ty.gapMax = 8; int gesture = 0, gBtn = 0, gX = 0, gY = 0; MouseModel mm; InGen gen(r); size_t pos = s.con->inputLog.size(); std::string all;
        auto checkModes = [&](const char *when) {
            s.feed(); static const int mouseModes[] = {1000, 1002, 1003, 1005, 1006, 1015, 9};
            bool want = !plain && (o.mouseMode == WINPTY_MOUSE_MODE_FORCE || (o.mouseMode == WINPTY_MOUSE_MODE_AUTO && mi && !qe && ee)); int on = 0; std::string l;
            for (int m : mouseModes) if (s.vt.modes.count(m)) { on++; l += std::to_string(m) + " "; }
            if (want && (!s.vt.modes.count(1000) || !s.vt.modes.count(1006))) violation("mouse-mode", "%s: terminal mouse reporting should be on but only modes [%s] are set (mode %d, MouseInput %d, QuickEdit %d, ExtendedFlags %d)", when, l.c_str(), o.mouseMode, mi, qe, ee);
            if (!want && on) violation("mouse-mode", "%s: terminal mouse reporting should be off but modes [%s] are set (mode %d, MouseInput %d, QuickEdit %d, ExtendedFlags %d)", when, l.c_str(), o.mouseMode, mi, qe, ee);
            stat("modes.checked"); if (want) stat("modes.on");
        };
        for (int round = 0; round < 8 && !violations; round++) {
            if (r.chance(0.7)) { mi = r.chance(0.7); qe = r.chance(0.3); ee = r.chance(0.8); DWORD x = 0x127u | (mi ? 0x10 : 0) | (qe ? 0x40 : 0) | (ee ? 0x80 : 0); pp.run([&] { SetConsoleMode(hIn(), x); }); }
            if (r.chance(0.3)) { int c = r.range(2, 150), h = r.range(1, 60); s.resize(c, h); o.cols = c; o.rows = h; }
            if (r.chance(0.5)) pp.run([&] { int n = r.range(1, 150); ustr t; for (int i = 0; i < n; i++) t += u"line\r\n"; childWrite(hOut(), t); });
            sleepMs(200); if (!s.quiesce()) violation("livelock", "output never settles"); checkModes("after a mode change");
            SMALL_RECT w = s.con->active->win; int ww = w.Right - w.Left + 1, wh = w.Bottom - w.Top + 1; bool deliver = mi && !qe;
            std::vector<std::string> ex, got; std::string all2; int n = r.range(1, 40); int lastX = r.range(0, ww - 1), lastY = r.range(0, wh - 1);
            pos = s.con->inputLog.size();
            for (int i = 0; i < n; i++) {
                if (r.chance(0.15)) { uint32_t c = (uint32_t)r.range(0x61, 0x7a); ty.raw(enc(c), false); all2 += enc(c); ex.push_back("key " + enc(c)); continue; }
                // one report
                int fmt = r.below(3); int x, y; if (r.chance(0.6)) { x = lastX; y = lastY; } else { x = r.range(0, ww - 1); y = r.range(0, wh - 1); }
                if (r.chance(0.1)) { x = r.range(0, fmt == 0 ? 222 : 30000); y = r.range(0, fmt == 0 ? 222 : 30000); } if (fmt && r.chance(0.05)) x = -r.range(1, 50); if (fmt && r.chance(0.05)) y = -r.range(1, 50);
                if (fmt == 0) { x = std::min(x, 222); y = std::min(y, 222); }
                lastX = std::max(0, std::min(x, ww - 1)); lastY = std::max(0, std::min(y, wh - 1));
                if (gesture == 0 && r.chance(0.3)) { gesture = 4; gBtn = r.below(3); }   // press, release, press, release
                int mods = r.chance(0.3) ? r.below(8) << 2 : 0, kind = r.below(10), btn = r.below(3), flags = mods; bool rel = false, none = false;
                if (kind == 0) { btn = r.below(4); flags |= 0x40 | btn; }                                    // wheel
                else if (kind <= 2) { flags |= 0x20 | (r.chance(0.5) && (mm.state) ? (mm.state & 1 ? 0 : mm.state & 4 ? 1 : 2) : 3); if ((flags & 3) == 3) none = true; else btn = flags & 3; }  // motion
                else if (kind <= 5) { if (fmt == 1) { flags |= btn; rel = true; } else { flags |= 3; none = true; } }
                else flags |= btn;
                if (gesture) {
                    bool press = gesture == 4 || gesture == 2; gesture--; flags = mods; none = rel = false; btn = gBtn; if (gesture < 3 && !r.chance(0.1)) { x = gX; y = gY; } gX = x; gY = y;
                    if (press) { if (r.chance(0.1)) btn = r.below(3); flags |= btn; } else if (fmt == 1) { flags |= btn; rel = true; } else { flags |= 3; none = true; }
                    if (fmt == 0 && (x < 0 || y < 0 || x > 222 || y > 222)) { fmt = 2; }
                }
                MouseModel::Ev e = {w.Left + std::max(0, std::min(x, ww - 1)), w.Top + std::max(0, std::min(y, wh - 1)), 0, (DWORD)(((mods & 4) ? kShift : 0) | ((mods & 8) ? kLAlt : 0) | ((mods & 16) ? kLCtrl : 0)), 0}; bool drop = false;
                int gap = r.chance(0.7) ? r.range(0, 60) : r.range(700, 900);
                if (flags & 0x40) { e.flags = 4; if ((flags & 3) == 0) e.buttons = 0x00780000; else if ((flags & 3) == 1) e.buttons = 0xff880000; else drop = true; }
                else {
                    if (flags & 0x20) e.flags = 1;
                    static const DWORD bits[] = {FROM_LEFT_1ST_BUTTON_PRESSED, FROM_LEFT_2ND_BUTTON_PRESSED, RIGHTMOST_BUTTON_PRESSED};
                    if (none) mm.state = 0;
                    else if (rel) { mm.state &= ~bits[btn]; if (mm.dcButton != bits[btn]) mm.dcButton = 0; }
                    else if (!(mm.state & bits[btn])) {
                        mm.state |= bits[btn]; uint64_t age = g->nowUs - mm.dcAt;
                        if (mm.dcButton == bits[btn] && mm.dcX == x && mm.dcY == y && age > 300000 && age < 700000) { sleepMs((int)((710000 - age) / 1000)); age = g->nowUs - mm.dcAt; }
                        if (mm.dcButton == bits[btn] && mm.dcX == x && mm.dcY == y && age <= 300000) { e.flags |= 2; mm.dcButton = 0; stat("double.clicks"); }
                        else { mm.dcButton = bits[btn]; mm.dcX = x; mm.dcY = y; mm.dcAt = g->nowUs; }
                    }
                }
                e.buttons |= mm.state;
                char b[80]; std::string bytes;
                if (fmt == 0) { bytes = "\x1b[M"; bytes += (char)(flags + 32); bytes += (char)(x + 33); bytes += (char)(y + 33); }
                else if (fmt == 1) { snprintf(b, sizeof b, "\x1b[<%d;%d;%d%c", flags, x + 1, y + 1, rel ? 'm' : 'M'); bytes = b; }
                else { snprintf(b, sizeof b, "\x1b[%d;%d;%dM", flags + 32, x + 1, y + 1); bytes = b; }
                ty.raw(bytes, r.chance(ty.pSplit)); ty.reply(); all2 += bytes;
                if (deliver && !drop) ex.push_back(MouseModel::str(e)); stat(fmt == 0 ? "report.x10" : fmt == 1 ? "report.sgr" : "report.urxvt");
                sleepMs(gap);
            }
            sleepMs(400);
            for (; pos < s.con->inputLog.size(); pos++) { auto &ir = s.con->inputLog[pos]; if (ir.EventType == MOUSE_EVENT) { auto &m = ir.Event.MouseEvent; got.push_back(MouseModel::str({m.dwMousePosition.X, m.dwMousePosition.Y, m.dwButtonState, m.dwControlKeyState, m.dwEventFlags})); } else if (ir.EventType == KEY_EVENT && ir.Event.KeyEvent.bKeyDown) got.push_back("key " + enc(ir.Event.KeyEvent.uChar.UnicodeChar)); }
            for (size_t i = 0; i < ex.size() || i < got.size(); i++) if (i >= ex.size() || i >= got.size() || ex[i] != got[i]) { violation("mouse", "round %d (window %d,%d %dx%d): event %zu of %zu is [%s], expected [%s]; typed [%s]", round, w.Left, w.Top, ww, wh, i, ex.size(), i < got.size() ? got[i].c_str() : "nothing", i < ex.size() ? ex[i].c_str() : "nothing", esc(all2, 500).c_str()); break; }
            stat("mouse.checked", ex.size()); if (ex.size() > 5) stat("nontrivial"); checkModes("after input");
            if (deliver && r.chance(0.5)) {   // a report typed right after winpty_set_size returned belongs to the window of the new size
                int c = r.range(2, 150), h = r.range(1, 60); if (r.chance(0.4)) c = ww; if (r.chance(0.4)) h = wh;
                ty.raw("\x1b[<3;1;1M", false); mm.state = 0; mm.dcButton = 0; sleepMs(750); s.feed(); pos = s.con->inputLog.size();
                if (s.resize(c, h)) {
                    o.cols = c; o.rows = h; SMALL_RECT w2 = s.con->active->win; int x = r.chance(0.5) ? c - 1 : r.range(0, c - 1), y = r.chance(0.5) ? h - 1 : r.range(0, h - 1); char b[80];
                    snprintf(b, sizeof b, "\x1b[<0;%d;%dM", x + 1, y + 1); ty.raw(b, false); sleepMs(100);
                    SMALL_RECT w3 = s.con->active->win; std::string gotOne;
                    for (; pos < s.con->inputLog.size(); pos++) { auto &ir = s.con->inputLog[pos]; if (ir.EventType == MOUSE_EVENT) { auto &m = ir.Event.MouseEvent; gotOne += MouseModel::str({m.dwMousePosition.X, m.dwMousePosition.Y, m.dwButtonState, m.dwControlKeyState, m.dwEventFlags}); } }
                    std::string want = MouseModel::str({w2.Left + std::max(0, std::min(x, w2.Right - w2.Left)), w2.Top + std::max(0, std::min(y, w2.Bottom - w2.Top)), 1, 0, 0});
                    if (!memcmp(&w2, &w3, sizeof w2)) { stat("resize.reports"); if (gotOne != want) violation("mouse", "round %d: a click at %d,%d right after resizing %dx%d to %dx%d (window %d,%d) arrived as [%s], expected [%s]", round, x, y, ww, wh, c, h, w2.Left, w2.Top, gotOne.c_str(), want.c_str()); }
                    ty.raw("\x1b[<0;1;1m", false); sleepMs(50);
                }
            }
            ty.raw("\x1b[<3;1;1M", false); mm.state = 0; mm.dcButton = 0; sleepMs(750); pos = s.con->inputLog.size();
            ty.raw("\x1b[<0;1;1M", false); sleepMs(5); ty.raw("\x1b[<1;1;1m", false); sleepMs(5); ty.raw("\x1b[<3;1;1M", false); sleepMs(100); mm.state = 0; mm.dcButton = 0;
        }
        pp.quit = true; if (!waitFor([&] { return s.out.closed; }, 100000)) violation("pipe-never-closed", "conout did not close"); s.feed();
        for (int m : {1000, 1002, 1003, 1005, 1006, 1015, 9}) if (s.vt.modes.count(m)) violation("mouse-mode", "terminal mouse mode %d is still on after the session ended", m);
        s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
