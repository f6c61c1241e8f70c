#include "console.h"

namespace sim {

ConsoleDefaults conDefaults;
static std::vector<std::shared_ptr<Console>> gConsoles;
std::vector<std::shared_ptr<Console>> &allConsoles() { return gConsoles; }
static Process *me() { return g->cur->proc; }

bool isWideChar(char16_t c, UINT cp) {
    if (cp != 932 && cp != 936 && cp != 949 && cp != 950) return false;
    return (c >= 0x1100 && c < 0x1160) || (c >= 0x3000 && c < 0xA4D0 && c != 0x303F) || (c >= 0xAC00 && c < 0xD7A4) || (c >= 0xF900 && c < 0xFB00) || (c >= 0xFF01 && c < 0xFF61);
}

// ---- screen buffers ---------------------------------------------------------------------------------------------
static CHAR_INFO blankCell(WORD a) { CHAR_INFO c; memset(&c, 0, sizeof c); c.Char.UnicodeChar = ' '; c.Attributes = a; return c; }
void ScreenBuffer::alloc(int ww, int hh) { w = ww; h = hh; cells.assign((size_t)w * h, blankCell(attr)); }
void ScreenBuffer::resize(int ww, int hh) {
    int top = cy >= hh ? cy - hh + 1 : 0;
    std::vector<CHAR_INFO> n((size_t)ww * hh, blankCell(attr));
    for (int y = 0; y < hh && y + top < h; y++) for (int x = 0; x < std::min(w, ww); x++) n[(size_t)y * ww + x] = at(x, y + top);
    cells.swap(n); w = ww; h = hh; cy -= top; cx = std::min(cx, w - 1); cy = std::min(cy, h - 1);
    int wh = win.Bottom - win.Top + 1, wwid = win.Right - win.Left + 1;
    int t = std::max(0, std::min(win.Top - top, h - wh)), l = std::max(0, std::min((int)win.Left, w - wwid));
    win.Top = (SHORT)t; win.Bottom = (SHORT)(t + wh - 1); win.Left = (SHORT)l; win.Right = (SHORT)(l + wwid - 1);
}
void ScreenBuffer::scrollUp(int n) {
    for (int i = 0; i < n; i++) {
        if (hist) hist->emplace_back(cells.begin(), cells.begin() + w);
        cells.erase(cells.begin(), cells.begin() + w);
        cells.insert(cells.end(), (size_t)w, blankCell(attr));
        scrolled++;
    }
}
void ScreenBuffer::follow() {
    int wh = win.Bottom - win.Top, ww = win.Right - win.Left;
    if (cy > win.Bottom) { win.Bottom = (SHORT)cy; win.Top = (SHORT)(cy - wh); }
    if (cy < win.Top) { win.Top = (SHORT)cy; win.Bottom = (SHORT)(cy + wh); }
    if (cx > win.Right) { win.Right = (SHORT)cx; win.Left = (SHORT)(cx - ww); }
    if (cx < win.Left) { win.Left = (SHORT)cx; win.Right = (SHORT)(cx + ww); }
}
void ScreenBuffer::newline() { if (++cy >= h) { scrollUp(1); cy = h - 1; } }
void ScreenBuffer::put(char16_t c, bool wide) {
    if (wide && w >= 2) {
        if (cx == w - 1) { at(cx, cy) = blankCell(attr); if (mode & 2) { cx = 0; newline(); } else cx = w - 2; }
        CHAR_INFO l = blankCell(attr); l.Char.UnicodeChar = c; CHAR_INFO t = l; l.Attributes |= 0x100; t.Attributes |= 0x200;
        at(cx, cy) = l; at(cx + 1, cy) = t; cx += 2;
    } else { CHAR_INFO l = blankCell(attr); l.Char.UnicodeChar = c; at(cx, cy) = l; cx++; }
    if (cx >= w) { if (mode & 2) { cx = 0; newline(); } else cx = w - 1; }
}
DWORD ScreenBuffer::fillChar(char16_t c, DWORD n, int x, int y) {
    if (x < 0 || y < 0 || x >= w || y >= h) return 0;
    size_t i = (size_t)y * w + x; DWORD k = 0; for (; k < n && i < cells.size(); k++, i++) { cells[i].Char.UnicodeChar = c; cells[i].Attributes &= ~0x300; }
    fixHalves(y, (int)((i - 1) / w)); return k;
}
DWORD ScreenBuffer::fillAttr(WORD a, DWORD n, int x, int y) {
    if (x < 0 || y < 0 || x >= w || y >= h) return 0;
    size_t i = (size_t)y * w + x; DWORD k = 0; for (; k < n && i < cells.size(); k++, i++) cells[i].Attributes = (WORD)((a & ~0x300) | (cells[i].Attributes & 0x300));
    return k;
}
void ScreenBuffer::putRect(const CHAR_INFO *in, COORD sz, COORD at0, SMALL_RECT *r) {
    SMALL_RECT q = *r; q.Left = std::max<SHORT>(q.Left, 0); q.Top = std::max<SHORT>(q.Top, 0); q.Right = std::min<SHORT>(q.Right, (SHORT)(w - 1)); q.Bottom = std::min<SHORT>(q.Bottom, (SHORT)(h - 1));
    if (q.Right < q.Left || q.Bottom < q.Top) return;
    for (int y = q.Top; y <= q.Bottom; y++) for (int x = q.Left; x <= q.Right; x++) {
        int sx = at0.X + x - r->Left, sy = at0.Y + y - r->Top;
        if (sx < 0 || sy < 0 || sx >= sz.X || sy >= sz.Y) continue;
        CHAR_INFO c = in[(size_t)sy * sz.X + sx]; CHAR_INFO z; memset(&z, 0, sizeof z); z.Char.UnicodeChar = c.Char.UnicodeChar; z.Attributes = c.Attributes; at(x, y) = z;
    }
    fixHalves(q.Top, q.Bottom); *r = q;
}
void ScreenBuffer::fixHalves(int y0, int y1) {
    for (int y = std::max(0, y0); y <= y1 && y < h; y++) {
        CHAR_INFO *c = &at(0, y);
        for (int x = 0; x < w; x++) {
            if (!(c[x].Attributes & 0x300)) continue;
            if ((c[x].Attributes & 0x100) && x + 1 < w && (c[x + 1].Attributes & 0x200) && c[x + 1].Char.UnicodeChar == c[x].Char.UnicodeChar) { x++; continue; }
            // Narrow characters may carry the bits too (a program can store them with WriteConsoleOutput); they do not make the cells one character.
            auto narrow = [&](int i) { return !isWideChar((char16_t)c[i].Char.UnicodeChar, 932); };
            if (narrow(x)) {
                if ((c[x].Attributes & 0x100) && x + 1 < w && (c[x + 1].Attributes & 0x200) && narrow(x + 1)) { x++; continue; }
                c[x].Attributes &= ~0x300; continue;
            }
            c[x].Attributes &= ~0x300; c[x].Char.UnicodeChar = ' ';
        }
    }
}
void ScreenBuffer::write(const ustr &s) {
    int y0 = cy; uint64_t sc0 = scrolled;
    auto c = con.lock(); UINT cp = c ? c->ocp : 437;
    for (size_t i = 0; i < s.size(); i++) {
        char16_t ch = s[i];
        if (mode & 1) {
            if (ch == '\r') { cx = 0; continue; }
            if (ch == '\n') { cx = 0; newline(); continue; }
            if (ch == '\b') { if (cx > 0) cx--; continue; }
            if (ch == '\t') { do put(' ', false); while (cx % 8 && cx != 0); continue; }
            if (ch == 7) continue;
        }
        put(ch, isWideChar(ch, cp));
    }
    fixHalves(scrolled != sc0 ? 0 : y0, cy);
    follow();
}
std::string ScreenBuffer::row(int y) {
    ustr s; for (int x = 0; x < w; x++) if (!(at(x, y).Attributes & 0x200) || x == 0 || at(x, y).Char.UnicodeChar != at(x - 1, y).Char.UnicodeChar) s.push_back((char16_t)at(x, y).Char.UnicodeChar);
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return u8(s);
}
void ScreenBuffer::lastClose() {
    auto c = con.lock();
    if (c && c->active.get() == this && c->primary.get() != this) c->active = c->primary;
}
bool ConIn::signaled() { auto c = con.lock(); return c && !c->input.empty(); }

// ---- console ----------------------------------------------------------------------------------------------------
std::shared_ptr<Console> newConsole() {
    auto c = std::make_shared<Console>();
    c->id = (int)gConsoles.size() + 1;
    c->cp = c->ocp = conDefaults.cp; c->screenX = conDefaults.screenX; c->screenY = conDefaults.screenY; c->minPx = conDefaults.minPx; c->inMode = conDefaults.inMode;
    auto b = std::make_shared<ScreenBuffer>(); b->con = c;
    b->alloc(conDefaults.w, conDefaults.h); b->win = {0, 0, (SHORT)(conDefaults.w - 1), (SHORT)(conDefaults.winH - 1)};
    if (g->cfg.osMajor > 6 || g->cfg.newConsole) b->mode = 3;
    c->primary = c->active = b; c->buffers.push_back(b);
    c->inputObj = std::make_shared<ConIn>(); c->inputObj->con = c;
    c->title = u"C:\\winpty\\winpty-agent.exe";
    gConsoles.push_back(c);
    return c;
}
void Console::attach(Process *p) { procs.push_back(p); p->console = shared_from_this(); }
void Console::detach(Process *p) {
    procs.erase(std::remove(procs.begin(), procs.end(), p), procs.end());
    p->console = nullptr;
    if (procs.empty()) alive = false;
}
void Console::pushInput(const INPUT_RECORD &r) { input.push_back(r); inputLog.push_back(r); inputLogTime.push_back(g->nowUs); }
COORD Console::largest() { COORD r; r.X = (SHORT)std::max(1, std::min(32766, screenX / fontX)); r.Y = (SHORT)std::max(1, std::min(32766, screenY / fontY)); return r; }
void Console::setFont(int x, int y) {
    fontX = std::max(1, x); fontY = std::max(1, y);
    COORD l = largest();
    for (auto &wb : buffers) if (auto b = wb.lock()) {
        if (b->win.Right - b->win.Left + 1 > l.X) b->win.Right = (SHORT)(b->win.Left + l.X - 1);
        if (b->win.Bottom - b->win.Top + 1 > l.Y) { int d = b->cy >= b->win.Top && b->cy <= b->win.Bottom ? std::max(0, b->cy - (b->win.Top + l.Y - 1)) : 0; b->win.Top += d; b->win.Bottom = (SHORT)(b->win.Top + l.Y - 1); }   // keeps the cursor in view
    }
}
void Console::select(bool mark) {
    if (selecting) return;
    selecting = true; selMark = mark; selectSince = g->nowUs; selections++;
    saveX = active->cx; saveY = active->cy;
    if (mark && !g->cfg.newConsole) { active->cx = active->win.Left; active->cy = active->win.Top; }
}
void Console::unselect() {
    if (!selecting) return;
    selecting = false;
    if (selMark && !g->cfg.newConsole) { active->cx = std::min(saveX, active->w - 1); active->cy = std::min(saveY, active->h - 1); }
}
typedef BOOL (*CtrlHandler)(DWORD);
static void ctrlEvent(Process *p, DWORD type, bool alwaysKill) {
    spawnThread(p, "ctrl", [p, type, alwaysKill] {
        auto hs = p->ctrlHandlers; bool handled = false;
        for (size_t i = hs.size(); i-- > 0 && !handled;) handled = ((CtrlHandler)hs[i])(type) != 0;
        if (type == CTRL_C_EVENT && handled) p->ctrlCHandled++;
        if (handled && !alwaysKill) return;
        ApiScope s("ctrl-event");
        killProcess(p, 0xC000013A, type == CTRL_C_EVENT ? "ctrl-c" : "close-event");
        parkForever();
    });
}
void Console::postClose() {
    closeMsgs++;
    if (closing) return;
    closing = true;
    auto self = shared_from_this();
    after(1000 + g->schedRng.below(30000), [self] {
        auto v = self->procs;
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g->schedRng.below((uint32_t)i)]);
        for (auto p : v) if (!p->exited) ctrlEvent(p, CTRL_CLOSE_EVENT, true);
    });
}
static void writeConsole(std::shared_ptr<ScreenBuffer> b, const ustr &s) {
    auto c = b->con.lock();
    if (c && c->selecting) block("WriteConsole(frozen)", [c] { return !c->selecting; }, kForever);
    b->write(s);
}
void conWriteBytes(std::shared_ptr<ScreenBuffer> b, const std::string &s) { writeConsole(b, A(s.c_str())); }

// ---- window stations and desktops ---------------------------------------------------------------------------------
static std::vector<std::weak_ptr<WinSta>> gStations; static std::shared_ptr<WinSta> gWinSta0; static std::shared_ptr<Desktop> gDefault;
static int gStationNo;
std::shared_ptr<Desktop> makeDesktop(std::shared_ptr<WinSta> ws, const ustr &name) {
    for (auto &w : ws->desks) if (auto d = w.lock()) if (lower(d->name) == lower(name)) return d;
    auto d = std::make_shared<Desktop>(); d->name = name; d->ws = ws; d->wsName = ws->name; ws->desks.push_back(d); return d;
}
static void initStations() {
    if (gWinSta0) return;
    gWinSta0 = std::make_shared<WinSta>(); gWinSta0->name = u"WinSta0"; gStations.push_back(gWinSta0); gDefault = makeDesktop(gWinSta0, u"Default");
}
std::shared_ptr<WinSta> makeWinSta() {
    initStations();
    auto w = std::make_shared<WinSta>(); char b[40]; snprintf(b, sizeof b, "Service-0x0-%x$", 0x3e700 + ++gStationNo); w->name = A(b); gStations.push_back(w); return w;
}
void initDesktop(Process *p) { initStations(); if (!p->winsta) p->winsta = gWinSta0; if (!p->desktop) p->desktop = gDefault; }
std::pair<std::shared_ptr<WinSta>, std::shared_ptr<Desktop>> findDesktop(const ustr &full) {
    initStations();
    size_t s = full.find(u'\\'); if (s == ustr::npos) return {};
    for (auto &w : gStations) if (auto ws = w.lock()) if (lower(ws->name) == lower(full.substr(0, s)))
        for (auto &dw : ws->desks) if (auto d = dw.lock()) if (lower(d->name) == lower(full.substr(s + 1))) return {ws, d};
    return {};
}
ustr objName(const ObjP &o) {
    if (o->type == OT::WinSta) return static_cast<WinSta*>(o.get())->name;
    if (o->type == OT::Desktop) return static_cast<Desktop*>(o.get())->name;
    return u"?";
}

// CommandLineToArgvW
std::vector<ustr> parseCommandLine(const ustr &s) {
    std::vector<ustr> v; size_t i = 0; ustr a;
    if (s.empty()) return v;
    if (s[0] == '"') { i = 1; while (i < s.size() && s[i] != '"') a += s[i++]; if (i < s.size()) i++; }
    else while (i < s.size() && s[i] > ' ') a += s[i++];
    v.push_back(a);
    for (;;) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) i++;
        if (i >= s.size()) break;
        a.clear(); bool q = false;
        while (i < s.size() && (q || (s[i] != ' ' && s[i] != '\t'))) {
            size_t n = 0; while (i < s.size() && s[i] == '\\') { n++; i++; }
            if (i < s.size() && s[i] == '"') {
                a.append(n / 2, u'\\');
                if (n % 2) { a += u'"'; i++; }
                else { i++; if (q && i < s.size() && s[i] == '"') { a += u'"'; i++; q = false; /* "" inside quotes closes after a literal quote */ } else q = !q; }
            } else { a.append(n, u'\\'); if (i < s.size() && (q || (s[i] != ' ' && s[i] != '\t'))) a += s[i++]; else if (n == 0) break; }
        }
        v.push_back(a);
    }
    return v;
}

} // namespace sim
using namespace sim;

// ---- Win32 console functions ----------------------------------------------------------------------------------------
static std::shared_ptr<ScreenBuffer> bufOf(HANDLE h, const char *api) {
    ObjP o = me()->get(h);
    if (!o || o->type != OT::ConBuf) {
        setErr(ERROR_INVALID_HANDLE);
        if (me()->strictHandles) violation("bad-handle", "%s called with %s handle %#lx in process %s", api, o ? "a wrong" : "an invalid", (unsigned long)(uintptr_t)h, me()->name.c_str());
        return nullptr;
    }
    auto b = std::static_pointer_cast<ScreenBuffer>(o);
    if (auto c = b->con.lock()) c->calls[api]++;
    return b;
}
static std::shared_ptr<Console> conOf(HANDLE h, const char *api) {
    ObjP o = me()->get(h);
    if (!o || o->type != OT::ConIn) {
        setErr(ERROR_INVALID_HANDLE);
        if (me()->strictHandles) violation("bad-handle", "%s called with %s handle %#lx in process %s", api, o ? "a wrong" : "an invalid", (unsigned long)(uintptr_t)h, me()->name.c_str());
        return nullptr;
    }
    return std::static_pointer_cast<ConIn>(o)->con.lock();
}
#define BUF(api) API(api); auto b = bufOf(h, api); if (!b) return 0; auto con = b->con.lock(); (void)con; if (me()->faultArmed && me()->failName == api && fault(api)) return 0;
#define BAD(e) do { setErr(e); return 0; } while (0)

static void hangCheck(std::shared_ptr<Console> c, const char *what) {
    if (c && g->cfg.newConsole && g->cfg.osMajor >= 10 && c->selecting)
        violation("conhost-hang", "%s while a selection is in progress (this hangs the Windows 10 console)", what);
}
extern "C" {

HANDLE GetStdHandle(DWORD n) { API("GetStdHandle"); int i = n == STD_INPUT_HANDLE ? 0 : n == STD_OUTPUT_HANDLE ? 1 : 2; return me()->std_[i]; }
BOOL SetStdHandle(DWORD n, HANDLE h) { API("SetStdHandle"); int i = n == STD_INPUT_HANDLE ? 0 : n == STD_OUTPUT_HANDLE ? 1 : 2; me()->std_[i] = h; return TRUE; }
HWND GetConsoleWindow() { API("GetConsoleWindow"); return (HWND)(me()->console ? (uintptr_t)(0x10000 + me()->console->id * 16) : 0); }
static std::shared_ptr<Console> conByHwnd(HWND w) { for (auto &c : allConsoles()) if ((uintptr_t)w == (uintptr_t)(0x10000 + c->id * 16)) return c; return nullptr; }

HANDLE CreateConsoleScreenBuffer(DWORD access, DWORD, const SECURITY_ATTRIBUTES *sa, DWORD, void *) {
    API("CreateConsoleScreenBuffer");
    auto c = me()->console; if (!c) { setErr(ERROR_INVALID_HANDLE); return INVALID_HANDLE_VALUE; }
    auto b = std::make_shared<ScreenBuffer>(); b->con = c; b->attr = c->active->attr;
    // new buffers take the size of the window of the active one
    int ww = c->active->win.Right - c->active->win.Left + 1, wh = c->active->win.Bottom - c->active->win.Top + 1;
    b->alloc(ww, wh); b->win = {0, 0, (SHORT)(ww - 1), (SHORT)(wh - 1)};
    c->buffers.push_back(b);
    return me()->add(b, access, "CreateConsoleScreenBuffer", sa && sa->bInheritHandle);
}
BOOL SetConsoleActiveScreenBuffer(HANDLE h) { BUF("SetConsoleActiveScreenBuffer"); con->active = b; return TRUE; }
BOOL GetConsoleScreenBufferInfo(HANDLE h, CONSOLE_SCREEN_BUFFER_INFO *i) {
    BUF("GetConsoleScreenBufferInfo");
    i->dwSize.X = (SHORT)b->w; i->dwSize.Y = (SHORT)b->h; i->dwCursorPosition.X = (SHORT)b->cx; i->dwCursorPosition.Y = (SHORT)b->cy; i->wAttributes = b->attr; i->srWindow = b->win;
    COORD l = con->largest(); i->dwMaximumWindowSize.X = std::min<SHORT>(l.X, (SHORT)b->w); i->dwMaximumWindowSize.Y = std::min<SHORT>(l.Y, (SHORT)b->h);
    return TRUE;
}
COORD GetLargestConsoleWindowSize(HANDLE h) { API("GetLargestConsoleWindowSize"); auto b = bufOf(h, "GetLargestConsoleWindowSize"); COORD z = {0, 0}; if (!b) return z; return b->con.lock()->largest(); }
BOOL SetConsoleScreenBufferSize(HANDLE h, COORD s) {
    BUF("SetConsoleScreenBufferSize");
    if (s.X < 1 || s.Y < 1 || s.X < b->win.Right - b->win.Left + 1 || s.Y < b->win.Bottom - b->win.Top + 1) BAD(ERROR_INVALID_PARAMETER);
    if (con->minPx && s.X * con->fontX < con->minPx) BAD(ERROR_INVALID_PARAMETER);
    hangCheck(con, "SetConsoleScreenBufferSize");
    if (s.X == b->w && s.Y == b->h) return TRUE;
    b->resize(s.X, s.Y);
    if (con->inMode & ENABLE_WINDOW_INPUT) { INPUT_RECORD r = {}; r.EventType = WINDOW_BUFFER_SIZE_EVENT; r.Event.WindowBufferSizeEvent.dwSize = s; con->pushInput(r); }
    return TRUE;
}
BOOL SetConsoleWindowInfo(HANDLE h, BOOL abs, const SMALL_RECT *r0) {
    BUF("SetConsoleWindowInfo");
    SMALL_RECT r = *r0;
    if (!abs) { r.Left += b->win.Left; r.Right += b->win.Right; r.Top += b->win.Top; r.Bottom += b->win.Bottom; }
    COORD l = con->largest();
    if (r.Left < 0 || r.Top < 0 || r.Right < r.Left || r.Bottom < r.Top || r.Right >= b->w || r.Bottom >= b->h || r.Right - r.Left + 1 > l.X || r.Bottom - r.Top + 1 > l.Y) BAD(ERROR_INVALID_PARAMETER);
    b->win = r; return TRUE;
}
BOOL SetConsoleCursorPosition(HANDLE h, COORD p) {
    BUF("SetConsoleCursorPosition");
    if (p.X < 0 || p.Y < 0 || p.X >= b->w || p.Y >= b->h) BAD(ERROR_INVALID_PARAMETER);
    b->cx = p.X; b->cy = p.Y; b->follow(); return TRUE;
}
BOOL SetConsoleTextAttribute(HANDLE h, WORD a) { BUF("SetConsoleTextAttribute"); b->attr = a; return TRUE; }
BOOL GetConsoleCursorInfo(HANDLE h, CONSOLE_CURSOR_INFO *i) { BUF("GetConsoleCursorInfo"); *i = b->ci; return TRUE; }
BOOL SetConsoleCursorInfo(HANDLE h, const CONSOLE_CURSOR_INFO *i) { BUF("SetConsoleCursorInfo"); b->ci = *i; return TRUE; }
BOOL FillConsoleOutputCharacterW(HANDLE h, WCHAR c, DWORD n, COORD p, DWORD *actual) {
    BUF("FillConsoleOutputCharacterW");
    *actual = b->fillChar(c, n, p.X, p.Y); return TRUE;
}
BOOL FillConsoleOutputAttribute(HANDLE h, WORD a, DWORD n, COORD p, DWORD *actual) {
    BUF("FillConsoleOutputAttribute");
    *actual = b->fillAttr(a, n, p.X, p.Y); return TRUE;
}
BOOL ReadConsoleOutputW(HANDLE h, CHAR_INFO *out, COORD sz, COORD at, SMALL_RECT *r) {
    BUF("ReadConsoleOutputW");
    size_t bytes = (size_t)sz.X * sz.Y * sizeof(CHAR_INFO);
    bool win8 = g->cfg.osMajor > 6 || (g->cfg.osMajor == 6 && g->cfg.osMinor >= 2);
    if (!win8 && bytes > 32 * 1024) BAD(ERROR_NOT_ENOUGH_MEMORY);
    if (r->Left < 0 || r->Top < 0 || r->Right >= b->w || r->Bottom >= b->h || r->Right < r->Left || r->Bottom < r->Top) {
        if (g->cfg.osMajor < 10) violation("out-of-range-read", "ReadConsoleOutputW region {%d,%d,%d,%d} lies outside the %dx%d buffer (crashes the caller before Windows 10)", r->Left, r->Top, r->Right, r->Bottom, b->w, b->h);
    }
    SMALL_RECT q = *r; q.Left = std::max<SHORT>(q.Left, 0); q.Top = std::max<SHORT>(q.Top, 0); q.Right = std::min<SHORT>(q.Right, (SHORT)(b->w - 1)); q.Bottom = std::min<SHORT>(q.Bottom, (SHORT)(b->h - 1));
    if (q.Right < q.Left || q.Bottom < q.Top) BAD(ERROR_INVALID_PARAMETER);
    for (int y = q.Top; y <= q.Bottom; y++) for (int x = q.Left; x <= q.Right; x++) {
        int dx = at.X + x - r->Left, dy = at.Y + y - r->Top;
        if (dx < 0 || dy < 0 || dx >= sz.X || dy >= sz.Y) continue;
        out[(size_t)dy * sz.X + dx] = b->at(x, y);
    }
    *r = q; return TRUE;
}
BOOL WriteConsoleOutputW(HANDLE h, const CHAR_INFO *in, COORD sz, COORD at, SMALL_RECT *r) { BUF("WriteConsoleOutputW"); b->putRect(in, sz, at, r); return TRUE; }
BOOL WriteConsoleW(HANDLE h, const void *p, DWORD n, DWORD *actual, void *) {
    BUF("WriteConsoleW");
    ustr s; for (DWORD i = 0; i < n; i++) s.push_back((char16_t)((const WCHAR*)p)[i]);
    writeConsole(b, s);
    if (actual) *actual = n; return TRUE;
}
BOOL ScrollConsoleScreenBufferW(HANDLE h, const SMALL_RECT *r, const SMALL_RECT *, COORD d, const CHAR_INFO *fill) {
    BUF("ScrollConsoleScreenBufferW");
    std::vector<CHAR_INFO> old = b->cells;
    for (int y = r->Top; y <= r->Bottom && y < b->h; y++) for (int x = r->Left; x <= r->Right && x < b->w; x++) b->at(x, y) = *fill;
    for (int y = r->Top; y <= r->Bottom && y < b->h; y++) for (int x = r->Left; x <= r->Right && x < b->w; x++) {
        int tx = d.X + x - r->Left, ty = d.Y + y - r->Top; if (tx < 0 || ty < 0 || tx >= b->w || ty >= b->h) continue;
        b->at(tx, ty) = old[(size_t)y * b->w + x];
    }
    b->fixHalves(0, b->h - 1);
    return TRUE;
}
BOOL GetConsoleMode(HANDLE h, DWORD *m) {
    API("GetConsoleMode"); ObjP o = me()->get(h);
    if (o && o->type == OT::ConIn) { *m = std::static_pointer_cast<ConIn>(o)->con.lock()->inMode; return TRUE; }
    if (o && o->type == OT::ConBuf) { *m = std::static_pointer_cast<ScreenBuffer>(o)->mode; return TRUE; }
    setErr(ERROR_INVALID_HANDLE); return FALSE;
}
BOOL SetConsoleMode(HANDLE h, DWORD m) {
    API("SetConsoleMode"); ObjP o = me()->get(h);
    if (o && o->type == OT::ConIn) { std::static_pointer_cast<ConIn>(o)->con.lock()->inMode = m; return TRUE; }
    if (o && o->type == OT::ConBuf) { std::static_pointer_cast<ScreenBuffer>(o)->mode = m; return TRUE; }
    setErr(ERROR_INVALID_HANDLE); return FALSE;
}
DWORD GetConsoleProcessList(DWORD *out, DWORD n) {
    API("GetConsoleProcessList");
    if (!me()->console || n == 0) { setErr(ERROR_INVALID_PARAMETER); return 0; }
    auto &v = me()->console->procs;
    if (v.size() <= n) { size_t i = 0; for (auto it = v.rbegin(); it != v.rend(); ++it) out[i++] = (DWORD)(*it)->pid; }
    return (DWORD)v.size();
}
DWORD GetConsoleTitleW(WCHAR *buf, DWORD n) {
    API("GetConsoleTitleW");
    auto c = me()->console; if (!c) { setErr(ERROR_INVALID_HANDLE); return 0; }
    const ustr &t = c->title;
    if (g->cfg.osMajor < 6) {                       // XP: truncates, returns the copied length, empty title leaves the buffer alone
        if (t.empty() || n == 0) return 0;
        size_t k = std::min<size_t>(t.size(), n - 1); memcpy(buf, t.data(), k * 2); buf[k] = 0; return (DWORD)k;
    }
    if (g->cfg.osMajor == 6 && g->cfg.osMinor < 2) { // Vista and 7: the size is taken as a byte count
        size_t cap = n / 2;
        if (cap == 0) return (DWORD)t.size();
        size_t k = std::min<size_t>(t.size(), cap - 1); memcpy(buf, t.data(), k * 2); buf[k] = 0; return (DWORD)t.size();
    }
    if (n == 0) return (DWORD)t.size();
    size_t k = std::min<size_t>(t.size(), n - 1); memcpy(buf, t.data(), k * 2); buf[k] = 0; return (DWORD)t.size();
}
BOOL SetConsoleTitleW(const WCHAR *t) { API("SetConsoleTitleW"); if (!me()->console) BAD(ERROR_INVALID_HANDLE); me()->console->title = W((const wchar_t*)t); return TRUE; }
UINT GetConsoleCP() { API("GetConsoleCP"); return me()->console ? me()->console->cp : 0; }
UINT GetConsoleOutputCP() { API("GetConsoleOutputCP"); return me()->console ? me()->console->ocp : 0; }
BOOL SetConsoleCP(UINT c) { API("SetConsoleCP"); me()->console->cp = c; return TRUE; }
BOOL SetConsoleOutputCP(UINT c) { API("SetConsoleOutputCP"); me()->console->ocp = c; return TRUE; }
BOOL WriteConsoleInputW(HANDLE h, const INPUT_RECORD *r, DWORD n, DWORD *actual) {
    API("WriteConsoleInputW"); auto c = conOf(h, "WriteConsoleInputW"); if (!c) return FALSE;
    for (DWORD i = 0; i < n; i++) c->pushInput(r[i]);
    if (actual) *actual = n;
    return TRUE;
}
BOOL ReadConsoleInputW(HANDLE h, INPUT_RECORD *r, DWORD n, DWORD *actual) {
    API("ReadConsoleInputW"); auto c = conOf(h, "ReadConsoleInputW"); if (!c) return FALSE;
    if (c->input.empty()) block("ReadConsoleInput", [c] { return !c->input.empty(); }, kForever);
    DWORD k = 0; while (k < n && !c->input.empty()) { r[k++] = c->input.front(); c->input.pop_front(); }
    *actual = k; return TRUE;
}
BOOL PeekConsoleInputW(HANDLE h, INPUT_RECORD *r, DWORD n, DWORD *actual) {
    API("PeekConsoleInputW"); auto c = conOf(h, "PeekConsoleInputW"); if (!c) return FALSE;
    DWORD k = 0; while (k < n && k < c->input.size()) { r[k] = c->input[k]; k++; } *actual = k; return TRUE;
}
BOOL GetNumberOfConsoleInputEvents(HANDLE h, DWORD *n) { API("GetNumberOfConsoleInputEvents"); auto c = conOf(h, "GetNumberOfConsoleInputEvents"); if (!c) return FALSE; *n = (DWORD)c->input.size(); return TRUE; }
BOOL FlushConsoleInputBuffer(HANDLE h) { API("FlushConsoleInputBuffer"); auto c = conOf(h, "FlushConsoleInputBuffer"); if (!c) return FALSE; c->input.clear(); return TRUE; }
BOOL SetConsoleCtrlHandler(PHANDLER_ROUTINE f, BOOL add) {
    API("SetConsoleCtrlHandler");
    auto p = me();
    if (!f) { p->ignoreCtrlC = add != 0; return TRUE; }
    if (add) { p->ctrlHandlers.push_back((void*)f); return TRUE; }
    auto it = std::find(p->ctrlHandlers.begin(), p->ctrlHandlers.end(), (void*)f); if (it == p->ctrlHandlers.end()) BAD(ERROR_INVALID_PARAMETER);
    p->ctrlHandlers.erase(it); return TRUE;
}
BOOL GenerateConsoleCtrlEvent(DWORD ev, DWORD group) {
    API("GenerateConsoleCtrlEvent"); (void)group;
    auto c = me()->console; if (!c) BAD(ERROR_INVALID_HANDLE);
    if (ev == CTRL_C_EVENT) c->ctrlC++;
    for (auto p : std::vector<Process*>(c->procs)) if (!(ev == CTRL_C_EVENT && p->ignoreCtrlC)) ctrlEvent(p, ev, false);
    return TRUE;
}
LRESULT SendMessageW(HWND w, UINT msg, WPARAM wp, LPARAM lp) {
    API("SendMessageW"); auto c = conByHwnd(w); if (!c || !c->alive) { setErr(ERROR_INVALID_WINDOW_HANDLE); return 0; }
    if (msg == WM_SYSCOMMAND && (wp == 0xFFF5 || wp == 0xFFF2)) c->select(wp == 0xFFF2);
    else if (msg == WM_CHAR && wp == 27) { if (c->selecting) c->unselect(); else { INPUT_RECORD r = {}; r.EventType = KEY_EVENT; r.Event.KeyEvent.bKeyDown = TRUE; r.Event.KeyEvent.wRepeatCount = 1; r.Event.KeyEvent.uChar.UnicodeChar = 27; c->pushInput(r); } }
    else if (msg == WM_KEYDOWN || msg == WM_KEYUP) {
        if (c->selecting) { c->unselect(); return 0; }      // a key press ends the selection and is swallowed
        INPUT_RECORD r = {}; r.EventType = KEY_EVENT; r.Event.KeyEvent.bKeyDown = msg == WM_KEYDOWN; r.Event.KeyEvent.wRepeatCount = 1; r.Event.KeyEvent.wVirtualKeyCode = (WORD)wp; r.Event.KeyEvent.wVirtualScanCode = (WORD)((lp >> 16) & 0xFF);
        r.Event.KeyEvent.dwControlKeyState = 0x10000000;    // marker for the monitors: came through the window
        c->pushInput(r);
    } else if (msg == WM_CLOSE) c->postClose();
    return 0;
}
BOOL PostMessageW(HWND w, UINT msg, WPARAM wp, LPARAM lp) {
    API("PostMessageW"); auto c = conByHwnd(w); if (!c || !c->alive) { setErr(ERROR_INVALID_WINDOW_HANDLE); return FALSE; }
    if (msg == WM_CLOSE) { c->postClose(); return TRUE; }
    after(500, [w, msg, wp, lp] { Thread *t = g->cur; t->depth++; SendMessageW(w, msg, wp, lp); t->depth--; });
    return TRUE;
}
LRESULT SendMessageA(HWND w, UINT m, WPARAM wp, LPARAM lp) { return SendMessageW(w, m, wp, lp); }
BOOL PostMessageA(HWND w, UINT m, WPARAM wp, LPARAM lp) { return PostMessageW(w, m, wp, lp); }
UINT MapVirtualKeyW(UINT vk, UINT) {
    API("MapVirtualKeyW");
    if (vk >= 'A' && vk <= 'Z') return 0x10 + (vk - 'A'); if (vk >= '0' && vk <= '9') return 2 + (vk - '0');
    switch (vk) { case VK_UP: return 0x48; case VK_DOWN: return 0x50; case VK_LEFT: return 0x4B; case VK_RIGHT: return 0x4D; case VK_RETURN: return 0x1C; case VK_ESCAPE: return 1; case VK_SHIFT: return 0x2A; case VK_CONTROL: return 0x1D; case VK_MENU: return 0x38; case VK_BACK: return 0xE; case VK_TAB: return 0xF; }
    return vk & 0x7F;
}
UINT MapVirtualKeyA(UINT vk, UINT t) { return MapVirtualKeyW(vk, t); }
// US keyboard layout, plus two AltGr characters as on German layouts.
SHORT VkKeyScanW(WCHAR c) {
    API("VkKeyScanW");
    if (c >= 'a' && c <= 'z') return (SHORT)(c - 'a' + 'A'); if (c >= 'A' && c <= 'Z') return (SHORT)(0x100 | c); if (c >= '0' && c <= '9') return (SHORT)c;
    static const char sh[] = ")!@#$%^&*("; for (int i = 0; i < 10; i++) if (c == (unsigned char)sh[i]) return (SHORT)(0x100 | ('0' + i));
    static const struct { char lo, hi; int vk; } oem[] = {{';', ':', 0xBA}, {'=', '+', 0xBB}, {',', '<', 0xBC}, {'-', '_', 0xBD}, {'.', '>', 0xBE}, {'/', '?', 0xBF}, {'`', '~', 0xC0}, {'[', '{', 0xDB}, {'\\', '|', 0xDC}, {']', '}', 0xDD}, {'\'', '"', 0xDE}};
    for (auto &o : oem) { if (c == (unsigned char)o.lo) return (SHORT)o.vk; if (c == (unsigned char)o.hi) return (SHORT)(0x100 | o.vk); }
    if (c == ' ') return VK_SPACE; if (c == 13) return VK_RETURN; if (c == 9) return VK_TAB; if (c == 8) return VK_BACK; if (c == 27) return VK_ESCAPE;
    if (c >= 1 && c <= 26) return (SHORT)(0x200 | ('A' + c - 1));
    if (c == 0x20AC) return (SHORT)(0x600 | 'E'); if (c == 0xB2) return (SHORT)(0x600 | '2');
    return -1;
}
SHORT VkKeyScanA(char c) { return VkKeyScanW((unsigned char)c); }
UINT SendInput_(UINT n) { return n; }

// ---- fonts ------------------------------------------------------------------------------------------------------------
struct FontInfo { DWORD n; COORD sz; };
struct FontInfoEx { ULONG cb; DWORD n; COORD sz; UINT fam, weight; WCHAR face[32]; };
static const int kXpFonts[][2] = {{4, 6}, {6, 8}, {8, 8}, {16, 8}, {5, 12}, {7, 12}, {8, 12}, {16, 12}, {12, 16}, {10, 18}};
static BOOL fGetCur(HANDLE h, BOOL, FontInfo *i) { BUF("GetCurrentConsoleFont"); i->n = 0; for (DWORD k = 0; k < 10; k++) if (kXpFonts[k][0] == con->fontX && kXpFonts[k][1] == con->fontY) i->n = k; i->sz.X = (SHORT)con->fontX; i->sz.Y = (SHORT)con->fontY; return TRUE; }
static COORD fGetSize(HANDLE h, DWORD n) { API("GetConsoleFontSize"); (void)h; COORD c = {0, 0}; if (n < 10) { c.X = (SHORT)kXpFonts[n][0]; c.Y = (SHORT)kXpFonts[n][1]; } return c; }
static BOOL fSetXp(HANDLE h, DWORD n) { BUF("SetConsoleFont"); if (n >= 10) BAD(ERROR_INVALID_PARAMETER); hangCheck(con, "SetConsoleFont"); con->setFont(kXpFonts[n][0], kXpFonts[n][1]); return TRUE; }
static DWORD fCount() { return 10; }
static BOOL fGetEx(HANDLE h, BOOL, FontInfoEx *i) { BUF("GetCurrentConsoleFontEx"); if (i->cb != sizeof *i) BAD(ERROR_INVALID_PARAMETER); i->n = 0; i->sz.X = (SHORT)con->fontX; i->sz.Y = (SHORT)con->fontY; i->fam = 0x36; i->weight = 400; memset(i->face, 0, sizeof i->face); memcpy(i->face, con->face.data(), std::min<size_t>(31, con->face.size()) * 2); return TRUE; }
static BOOL fSetEx(HANDLE h, BOOL, FontInfoEx *i) {
    BUF("SetCurrentConsoleFontEx"); if (i->cb != sizeof *i) BAD(ERROR_INVALID_PARAMETER);
    hangCheck(con, "SetCurrentConsoleFontEx");
    int y = i->sz.Y, x = i->sz.X ? i->sz.X : (y == 5 ? 3 : y == 6 ? 4 : y == 8 ? 5 : y == 16 ? 10 : y == 18 ? 11 : (y * 6 + 5) / 10);
    if (con->ocp == 932 || con->ocp == 936 || con->ocp == 949 || con->ocp == 950) x = y / 2;
    con->face = W((const wchar_t*)i->face); con->setFont(x, y); return TRUE;
}

// implemented elsewhere
BOOL GetNamedPipeClientProcessId_impl(HANDLE, ULONG *); BOOLEAN RtlGenRandom_impl(void *, ULONG); BOOL IsWow64Process_impl(HANDLE, BOOL *);
BOOL ConvertStringSidToSidW_impl(LPCWSTR, PSID *); BOOL ConvertSidToStringSidW_impl(PSID, LPWSTR *);
BOOL ConvertSdToString_impl(PSECURITY_DESCRIPTOR, DWORD, SECURITY_INFORMATION, LPWSTR *, PULONG);
static DWORD verSize(LPCWSTR, DWORD *h) { if (h) *h = 0; return 64; }
static BOOL verGet(LPCWSTR, DWORD, DWORD n, void *p) { memset(p, 0, n); return TRUE; }
static BOOL verQuery(const void *, LPCWSTR, void **p, UINT *n) { static VS_FIXEDFILEINFO f; f.dwSignature = 0xFEEF04BD; f.dwFileVersionMS = (DWORD)(g->cfg.osMajor << 16 | g->cfg.osMinor); f.dwFileVersionLS = (DWORD)g->cfg.osBuild << 16; f.dwProductVersionMS = f.dwFileVersionMS; f.dwProductVersionLS = f.dwFileVersionLS; *p = &f; *n = sizeof f; return TRUE; }
}
namespace sim {
FARPROC procLookup(const std::string &mod, const std::string &n) {
    bool vista = g->cfg.osMajor >= 6;
    #define P_(m, name, f, cond) if (mod == m && n == name) return (cond) ? (FARPROC)(f) : (FARPROC)nullptr
    P_("kernel32.dll", "GetNamedPipeClientProcessId", GetNamedPipeClientProcessId_impl, vista);
    P_("kernel32.dll", "IsWow64Process", IsWow64Process_impl, true);
    P_("kernel32.dll", "GetCurrentConsoleFont", fGetCur, true); P_("kernel32.dll", "GetConsoleFontSize", fGetSize, true);
    P_("kernel32.dll", "SetConsoleFont", fSetXp, !vista); P_("kernel32.dll", "GetNumberOfConsoleFonts", fCount, !vista);
    P_("kernel32.dll", "GetCurrentConsoleFontEx", fGetEx, vista); P_("kernel32.dll", "SetCurrentConsoleFontEx", fSetEx, vista);
    P_("advapi32.dll", "SystemFunction036", RtlGenRandom_impl, !g->cfg.noRtlGenRandom);
    P_("advapi32.dll", "ConvertStringSidToSidW", ConvertStringSidToSidW_impl, true); P_("advapi32.dll", "ConvertSidToStringSidW", ConvertSidToStringSidW_impl, true);
    P_("advapi32.dll", "ConvertSecurityDescriptorToStringSecurityDescriptorW", ConvertSdToString_impl, true);
    P_("version.dll", "GetFileVersionInfoSizeW", verSize, true); P_("version.dll", "GetFileVersionInfoW", verGet, true); P_("version.dll", "VerQueryValueW", verQuery, true);
    #undef P_
    return nullptr;
}
}
