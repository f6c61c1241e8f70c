// Scenario support: the winpty API, clients, children, and the standard end-of-run checks.
#pragma once
#include "console.h"
#include "vt.h"
#include "winpty.h"
#include <functional>

namespace sim {

struct Api {
    decltype(&winpty_error_code) error_code; decltype(&winpty_error_msg) error_msg; decltype(&winpty_error_free) error_free;
    decltype(&winpty_config_new) config_new; decltype(&winpty_config_free) config_free; decltype(&winpty_config_set_initial_size) config_set_initial_size;
    decltype(&winpty_config_set_mouse_mode) config_set_mouse_mode; decltype(&winpty_config_set_agent_timeout) config_set_agent_timeout;
    decltype(&winpty_open) open; decltype(&winpty_agent_process) agent_process;
    decltype(&winpty_conin_name) conin_name; decltype(&winpty_conout_name) conout_name; decltype(&winpty_conerr_name) conerr_name;
    decltype(&winpty_spawn_config_new) spawn_config_new; decltype(&winpty_spawn_config_free) spawn_config_free; decltype(&winpty_spawn) spawn;
    decltype(&winpty_set_size) set_size; decltype(&winpty_get_console_process_list) get_console_process_list; decltype(&winpty_free) free;
};
extern Api api;
void loadLibwinpty(); extern void *libHandle; extern std::string gDir;                        // dlopens lib.so; its static initialisation runs as the client process
Program realAgent();                         // a Program that runs the real agent from a fresh copy

struct Param { std::map<std::string, std::string> kv; bool has(const char *k) { return kv.count(k) != 0; } long num(const char *k, long d) { return kv.count(k) ? atol(kv[k].c_str()) : d; } };
extern Param params;

struct ErrRec { bool set = false; DWORD code = 0; std::string msg; };
ErrRec takeErr(winpty_error_ptr_t e);        // reads and frees

// Reads a pipe until the end, on its own thread.
struct Reader {
    HANDLE h = nullptr; std::string data; bool eof = false; DWORD err = 0; Thread *t = nullptr; bool paused = false; int chunkMax = 4096; double pSlow = 0; int slowMs = 30;
    uint64_t lastAt = 0; bool closed = false; std::vector<std::pair<uint64_t, size_t>> arrivals;
    void start(HANDLE handle, const char *name);
};

struct SessionOpts {
    int cols = 80, rows = 25; UINT64 flags = 0; int mouseMode = WINPTY_MOUSE_MODE_AUTO; DWORD timeout = 0;
    bool connect = true;                     // connect conin/conout(/conerr) straight away
};
struct Session {
    SessionOpts o; winpty_t *wp = nullptr; ErrRec openErr;
    HANDLE conin = nullptr; Reader out, errOut; Vt vt, vtErr; size_t fed = 0, fedErr = 0;
    Process *agent = nullptr; std::shared_ptr<Console> con; HANDLE agentHandle = nullptr;
    Process *child = nullptr; HANDLE childProc = nullptr, childThread = nullptr; DWORD cpErr = 0; ErrRec spawnErr;
    bool open(const SessionOpts &o);
    void connectPipes();
    bool spawn(Program prog, UINT64 spawnFlags = WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN, bool wantHandles = false);
    bool resize(int c, int r, ErrRec *e = nullptr);
    void write(const std::string &s);        // conin, blocking
    void feed();                             // hand what has arrived to the emulators
    bool quiesce(int ms = 300);              // waits until nothing more arrives; feeds
    void close();                            // winpty_free, close pipes
};
HANDLE connectPipe(LPCWSTR name, DWORD access, DWORD flags = 0);

// Console handles of the running (child) process.
inline HANDLE hOut() { return GetStdHandle(STD_OUTPUT_HANDLE); }
inline HANDLE hIn() { return GetStdHandle(STD_INPUT_HANDLE); }
inline HANDLE hErr() { return GetStdHandle(STD_ERROR_HANDLE); }
void childWrite(HANDLE h, const ustr &s);

// A child that runs commands sent by the scenario, one at a time.
struct Puppet {
    std::deque<std::function<void()>> q; bool done = false; bool quit = false; int code = 0; int pendingCmds = 0; bool started = false; Process *p = nullptr;
    Program program();
    void run(std::function<void()> f);       // executes f in the child process, waits until it finished
    void post(std::function<void()> f);      // does not wait
    bool idle() { return q.empty() && pendingCmds == 0; }
};

struct Baseline { std::map<std::string, long> m; };
Baseline baseline();                         // resources of the client process now
void checkBaseline(const Baseline &b, const char *what, bool heap = false);   // heap: only after a warm-up (process-lifetime caches)
void checkAgentsGone(const char *what, int waitMs = 40000);   // all agent processes exited without assertion failures, consoles closed
void checkNoAgentAbort();
int agentCount(bool live);

void startDebugServer(int how, uint64_t seed);   // \\.\pipe\DebugServer: 0 absent, 1 the real one, 2 slow, 3 unreliable
typedef void (*ScenarioFn)();
struct ScenarioReg { ScenarioReg(const char *name, ScenarioFn f); };
#define SCENARIO(id) static void scn_##id(); static ScenarioReg reg_##id(#id, scn_##id); static void scn_##id()
inline void stat(const char *n, uint64_t v = 1) { Quiet q; g->st.n[n] += v; }
inline void statMax(const char *n, uint64_t v) { Quiet q; auto &x = g->st.n[n]; if (v > x) x = v; }

} // namespace sim
