// The simulated Windows console, window stations and security descriptors.
#pragma once
#include "sim.h"

namespace sim {

struct Console;
struct ScreenBuffer : Object {
    int w = 80, h = 25; std::vector<CHAR_INFO> cells; int cx = 0, cy = 0; SMALL_RECT win = {0, 0, 79, 24};
    WORD attr = 7; DWORD mode = 3; CONSOLE_CURSOR_INFO ci = {25, TRUE};
    std::weak_ptr<Console> con;
    uint64_t scrolled = 0;                     // lines scrolled off the top
    std::vector<std::vector<CHAR_INFO>> *hist = nullptr;   // (reference copies) lines that scrolled off
    ScreenBuffer() : Object(OT::ConBuf) {}
    CHAR_INFO &at(int x, int y) { return cells[(size_t)y * w + x]; }
    void alloc(int ww, int hh);
    void resize(int ww, int hh);
    void scrollUp(int n);
    void follow();
    void put(char16_t c, bool wide);
    void newline();
    void write(const ustr &s);
    DWORD fillChar(char16_t c, DWORD n, int x, int y); DWORD fillAttr(WORD a, DWORD n, int x, int y);
    void putRect(const CHAR_INFO *in, COORD sz, COORD at, SMALL_RECT *r);
    void fixHalves(int y0, int y1);            // the console never keeps half of a double-width character
    void lastClose() override;
    std::string row(int y);                    // text of a row (UTF-8), right-trimmed
};
struct ConIn : Object {
    std::weak_ptr<Console> con; ConIn() : Object(OT::ConIn) {}
    bool signaled() override;
};
struct Console : std::enable_shared_from_this<Console> {
    int id = 0; std::vector<Process*> procs; bool alive = true;
    std::shared_ptr<ScreenBuffer> active, primary; std::vector<std::weak_ptr<ScreenBuffer>> buffers;
    std::shared_ptr<ConIn> inputObj;
    std::deque<INPUT_RECORD> input; std::vector<INPUT_RECORD> inputLog; std::vector<uint64_t> inputLogTime;
    DWORD inMode = 0x1F7 & ~0x10u; // processed, line, echo, insert, quickedit, extended
    ustr title; UINT cp = 437, ocp = 437;
    int fontX = 8, fontY = 12; ustr face = u"Terminal"; int screenX = 1920, screenY = 1080, minPx = 0;
    bool selecting = false, selMark = false; int saveX = 0, saveY = 0;
    uint64_t selectSince = 0, selections = 0;
    int ctrlC = 0; bool closing = false; int closeMsgs = 0;
    std::shared_ptr<Desktop> desktop;
    std::map<std::string, int> calls;
    void attach(Process *p);
    void detach(Process *p);
    void pushInput(const INPUT_RECORD &r);
    void postClose();
    COORD largest();
    void setFont(int x, int y);
    void select(bool mark); void unselect();
};
struct Desktop : Object { ustr name; std::weak_ptr<WinSta> ws; ustr wsName; Desktop() : Object(OT::Desktop) {} };
struct WinSta : Object { ustr name; std::vector<std::weak_ptr<Desktop>> desks; WinSta() : Object(OT::WinSta) {} };

std::vector<std::shared_ptr<Console>> &allConsoles();
std::shared_ptr<Console> newConsole();
void conWriteBytes(std::shared_ptr<ScreenBuffer>, const std::string &);
void initDesktop(Process *);
std::shared_ptr<WinSta> makeWinSta();
std::shared_ptr<Desktop> makeDesktop(std::shared_ptr<WinSta>, const ustr &name);
std::pair<std::shared_ptr<WinSta>, std::shared_ptr<Desktop>> findDesktop(const ustr &full);
ustr objName(const ObjP &);
std::vector<ustr> parseCommandLine(const ustr &);
FARPROC procLookup(const std::string &mod, const std::string &name);
void secRead(void *sd, PipeInfo &);
bool secCheck(const PipeInfo &, Process *, DWORD access);
// defaults for new consoles
struct ConsoleDefaults { int w = 80, h = 300, winH = 25; UINT cp = 437; int screenX = 3840, screenY = 2160, minPx = 0; DWORD inMode = 0x1E7; bool cursorAtEnd = false; };
extern ConsoleDefaults conDefaults;
bool isWideChar(char16_t c, UINT cp);

} // namespace sim
