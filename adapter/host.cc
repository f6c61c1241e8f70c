// What the Unix adapter runs on: Windows pipe handles, libwinpty and Cygwin's calls, replaced by sockets to the driver.
// Every call reports to the driver; reads, writes, waits and thread starts are delayed, cut short and interrupted at random.
// Not instrumented, and without locks of its own, so that it adds no ordering between the adapter's threads.
#include <windows.h>
#include <sys/socket.h>
#include <sys/cygwin.h>
#include <sys/syscall.h>
#include <winpty.h>
#include <string>
#include <vector>
#include <atomic>

enum { FD_CONIN = 40, FD_CONOUT = 41, FD_CONERR = 42, FD_LOG = 43 };
static uint64_t gSeed;
static double gEintr = 0.05;
static double gNoise;                   // probability of an injected delay
static std::atomic<uint32_t> gThreads{0};
static thread_local uint64_t tRnd = 0;
static uint64_t rnd() {
    if (!tRnd) tRnd = (gSeed + 77) * 0x9E3779B97F4A7C15ull ^ (gThreads++ * 0xD1B54A32D192ED03ull + 0x1234567);
    tRnd ^= tRnd << 13; tRnd ^= tRnd >> 7; tRnd ^= tRnd << 17;
    return (tRnd * 0x2545F4914F6CDD1Dull) >> 32;
}
static bool chance(double p) { return rnd() % 1000000 < p * 1000000; }
static void noise() {
    int e = errno;
    if (chance(gNoise)) { struct timespec t = {0, (long)(rnd() % (chance(0.1) ? 3000000 : 200000))}; syscall(SYS_nanosleep, &t, NULL); }
    else if (chance(gNoise)) syscall(SYS_sched_yield);
    errno = e;
}
static void say(const std::string &s) { int e = errno; while (syscall(SYS_sendto, FD_LOG, s.data(), s.size(), MSG_NOSIGNAL, 0, 0) < 0 && errno == EINTR) {} errno = e; }
static void bad(const char *what) { say(std::string("viol ") + what); }
static std::string env(const char *n, const char *d) { const char *v = getenv(n); return v ? v : d; }

// ---- wide characters (16 bits)
static void put8(std::string &o, uint32_t c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
static std::string narrow(const wchar_t *w) {
    std::string o;
    for (; *w; w++) {
        uint32_t c = (uint16_t)*w;
        if (c >= 0xD800 && c < 0xDC00 && (uint16_t)w[1] >= 0xDC00 && (uint16_t)w[1] < 0xE000) { c = 0x10000 + ((c & 0x3FF) << 10) + ((uint16_t)w[1] & 0x3FF); w++; }
        put8(o, c);
    }
    return o;
}
extern "C" size_t host_wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
extern "C" size_t host_mbstowcs(wchar_t *to, const char *from, size_t n) {
    size_t k = 0;
    const unsigned char *p = (const unsigned char *)from;
    while (true) {
        uint32_t c = *p; int more = 0;
        if (c >= 0xF0) { c &= 7; more = 3; } else if (c >= 0xE0) { c &= 15; more = 2; } else if (c >= 0xC0) { c &= 31; more = 1; } else if (c >= 0x80) { errno = EILSEQ; return -1; }
        p++;
        while (more--) { if ((*p & 0xC0) != 0x80) { errno = EILSEQ; return -1; } c = c << 6 | (*p++ & 63); }
        uint16_t u[2]; int m = 1;
        if (c >= 0x10000) { u[0] = 0xD800 + ((c - 0x10000) >> 10); u[1] = 0xDC00 + ((c - 0x10000) & 0x3FF); m = 2; } else u[0] = c;
        for (int i = 0; i < m; i++) { if (to) { if (k >= n) return k; to[k] = u[i]; } if (!c) return k; k++; }
    }
}
extern "C" size_t host_wcstombs(char *to, const wchar_t *from, size_t n) {
    std::string s = narrow(from);
    if (!to) return s.size();
    for (size_t i = 0; i < n; i++) { to[i] = i < s.size() ? s[i] : 0; if (i == s.size()) return i; }
    return n;
}

// ---- pipe handles
struct Pipe { int fd; std::atomic<bool> open; std::atomic<bool> used; const char *name; };
static Pipe gIn = {FD_CONIN, {false}, {false}, "conin"}, gOut = {FD_CONOUT, {false}, {false}, "conout"}, gErr = {FD_CONERR, {false}, {false}, "conerr"};
static char gProc;
static std::atomic<int> gProcState{0};          // 1: handed out, 2: closed
static std::atomic<bool> gFreed{false};
static __thread DWORD tErr;
static Pipe *pipeOf(HANDLE h) { return h == &gIn || h == &gOut || h == &gErr ? (Pipe *)h : nullptr; }
extern "C" {
DWORD WINAPI GetLastError(void) { return tErr; }
void WINAPI SetLastError(DWORD e) { tErr = e; }
void WINAPI Sleep(DWORD ms) { usleep(ms * 1000); }
DWORD WINAPI GetTickCount(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
DWORD WINAPI GetCurrentProcessId(void) { return getpid(); }
DWORD WINAPI GetCurrentThreadId(void) { return syscall(SYS_gettid); }
HANDLE WINAPI CreateFileW(LPCWSTR name, DWORD access, DWORD, LPSECURITY_ATTRIBUTES, DWORD disp, DWORD flags, HANDLE) {
    std::string n = narrow(name);
    for (Pipe *p : {&gIn, &gOut, &gErr}) if (n == std::string("\\\\.\\pipe\\") + p->name) {
        if (p->open || p->used) { bad("a pipe was opened twice"); }
        if (access != (p == &gIn ? GENERIC_WRITE : GENERIC_READ)) bad("a pipe was opened with the wrong access");
        if (disp != OPEN_EXISTING) bad("a pipe was opened with the wrong disposition");
        if (flags & FILE_FLAG_OVERLAPPED) bad("a pipe was opened for overlapped transfers");
        p->open = true;
        return p;
    }
    bad("an unknown pipe was opened");
    return INVALID_HANDLE_VALUE;
}
WINBOOL WINAPI CloseHandle(HANDLE h) {
    if (h == &gProc) { if (gProcState != 1) bad("the process handle was closed twice"); gProcState = 2; say("closed process"); return TRUE; }
    Pipe *p = pipeOf(h);
    if (!p || !p->open) { bad("a handle that is not open was closed"); tErr = ERROR_INVALID_HANDLE; return FALSE; }
    if (p->used) bad("a pipe was closed while a transfer on it was under way");
    p->open = false;
    say(std::string("closed ") + p->name);
    return TRUE;
}
WINBOOL WINAPI WriteFile(HANDLE h, LPCVOID data, DWORD n, LPDWORD done, LPOVERLAPPED) {
    Pipe *p = pipeOf(h);
    *done = 0;
    if (p != &gIn || !p->open) { bad("WriteFile on a handle that is not the open input pipe"); tErr = ERROR_INVALID_HANDLE; return FALSE; }
    p->used = true;
    noise();
    const char *d = (const char *)data;
    while (*done < n) {
        ssize_t k = send(p->fd, d + *done, n - *done, MSG_NOSIGNAL);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) { p->used = false; tErr = chance(0.5) ? ERROR_BROKEN_PIPE : ERROR_NO_DATA; say("broken conin"); return FALSE; }
        *done += k;
    }
    noise();
    p->used = false;
    return TRUE;
}
WINBOOL WINAPI ReadFile(HANDLE h, LPVOID data, DWORD n, LPDWORD done, LPOVERLAPPED) {
    Pipe *p = pipeOf(h);
    *done = 0;
    if (!p || p == &gIn || !p->open) { bad("ReadFile on a handle that is not an open output pipe"); tErr = ERROR_INVALID_HANDLE; return FALSE; }
    p->used = true;
    noise();
    size_t want = n;
    if (chance(0.3)) want = 1 + rnd() % n;
    ssize_t k;          // (a call that the thread sanitizer knows, or it would hold back signals while the thread waits here)
    do k = recv(p->fd, data, want, 0); while (k < 0 && errno == EINTR);
    noise();
    p->used = false;
    if (k <= 0) { tErr = chance(0.8) ? ERROR_BROKEN_PIPE : ERROR_PIPE_NOT_CONNECTED; return FALSE; }
    *done = k;
    return TRUE;
}
WINBOOL WINAPI GetExitCodeProcess(HANDLE h, LPDWORD code) {
    if (h != &gProc || gProcState != 1) { bad("GetExitCodeProcess on a handle that is not the child's"); return FALSE; }
    *code = atoi(env("AD_EXIT", "0").c_str());
    return TRUE;
}
WINBOOL WINAPI SetEnvironmentVariableW(LPCWSTR name, LPCWSTR value) {
    say("env " + narrow(name) + (value ? "=" + narrow(value) : std::string()));
    return TRUE;
}
DWORD WINAPI FormatMessageW(DWORD flags, LPCVOID, DWORD, DWORD, LPWSTR buf, DWORD, va_list *) {
    std::string m = env("AD_MESSAGE", "");
    if (m.empty()) { tErr = ERROR_MR_MID_NOT_FOUND; return 0; }
    std::vector<wchar_t> w(m.size() + 1);
    size_t n = host_mbstowcs(w.data(), m.c_str(), w.size());
    wchar_t *p = (wchar_t *)malloc((n + 1) * sizeof(wchar_t));
    memcpy(p, w.data(), (n + 1) * sizeof(wchar_t));
    *(wchar_t **)buf = p;
    return n;
}
HLOCAL WINAPI LocalFree(HLOCAL p) { free(p); return NULL; }

// ---- Cygwin
ssize_t cygwin_conv_path(cygwin_conv_path_t, const void *from, void *to, size_t size) {
    std::string f = (const char *)from;
    std::string r = !f.empty() && f[0] == '/' ? "C:/cyg" + f : f;
    if (size == 0) return r.size() + 1;
    if (size < r.size() + 1) { errno = ENOSPC; return -1; }
    memcpy(to, r.c_str(), r.size() + 1);
    return 0;
}
int cygwin_conv_to_win32_path(const char *from, char *to) { return cygwin_conv_path(0, from, to, 1 << 20); }
unsigned long cygwin_internal(int op, ...) { say(op == CW_SYNC_WINENV ? "syncenv" : "cygwin_internal"); return 0; }

// ---- libwinpty
struct winpty_error_s { winpty_result_t code; std::vector<wchar_t> msg; };
struct winpty_config_s { UINT64 flags; int cols = 80, rows = 25, mouse = WINPTY_MOUSE_MODE_AUTO; bool freed = false; };
struct winpty_s { int x; };
struct winpty_spawn_config_s { UINT64 flags; std::string app, cmd, cwd; bool hasApp, hasCmd, freed = false; };
static winpty_t gPty;
static winpty_error_ptr_t mkErr(int code, std::string m) {
    winpty_error_t *e = new winpty_error_t; e->code = code; e->msg.resize(m.size() + 1);
    size_t n = host_mbstowcs(e->msg.data(), m.c_str(), e->msg.size()); e->msg.resize(n + 1); return e;
}
winpty_result_t winpty_error_code(winpty_error_ptr_t e) { return e ? e->code : 0; }
LPCWSTR winpty_error_msg(winpty_error_ptr_t e) { return e ? e->msg.data() : L"Success"; }
void winpty_error_free(winpty_error_ptr_t e) { delete e; }
winpty_config_t *winpty_config_new(UINT64 flags, winpty_error_ptr_t *err) { if (err) *err = NULL; winpty_config_t *c = new winpty_config_t; c->flags = flags; return c; }
void winpty_config_free(winpty_config_t *c) { delete c; }
void winpty_config_set_initial_size(winpty_config_t *c, int cols, int rows) {
    if (cols <= 0 || rows <= 0) bad(("the initial size passed to the library is " + std::to_string(cols) + "x" + std::to_string(rows)).c_str());
    c->cols = cols; c->rows = rows;
}
void winpty_config_set_mouse_mode(winpty_config_t *c, int m) { c->mouse = m; }
void winpty_config_set_agent_timeout(winpty_config_t *, DWORD) {}
winpty_t *winpty_open(const winpty_config_t *c, winpty_error_ptr_t *err) {
    char b[200]; snprintf(b, sizeof b, "open %d %d %llu %d", c->cols, c->rows, (unsigned long long)c->flags, c->mouse);
    say(b);
    if (err) *err = NULL;
    noise();
    std::string fail = env("AD_OPENFAIL", "");
    if (!fail.empty()) { if (err) *err = mkErr(WINPTY_ERROR_AGENT_CREATION_FAILED, fail); return NULL; }
    return &gPty;
}
LPCWSTR winpty_conin_name(winpty_t *wp) { return L"\\\\.\\pipe\\conin"; }
LPCWSTR winpty_conout_name(winpty_t *wp) { return L"\\\\.\\pipe\\conout"; }
LPCWSTR winpty_conerr_name(winpty_t *wp) { return env("AD_CONERR", "") == "1" ? L"\\\\.\\pipe\\conerr" : NULL; }
HANDLE winpty_agent_process(winpty_t *wp) { return &gPty; }
winpty_spawn_config_t *winpty_spawn_config_new(UINT64 flags, LPCWSTR app, LPCWSTR cmd, LPCWSTR cwd, LPCWSTR envp, winpty_error_ptr_t *err) {
    if (err) *err = NULL;
    winpty_spawn_config_t *c = new winpty_spawn_config_t;
    c->flags = flags; c->hasApp = app; c->hasCmd = cmd;
    if (app) c->app = narrow(app);
    if (cmd) c->cmd = narrow(cmd);
    if (cwd || envp) bad("the adapter passes a directory or an environment");
    return c;
}
void winpty_spawn_config_free(winpty_spawn_config_t *c) { delete c; }
BOOL winpty_spawn(winpty_t *wp, const winpty_spawn_config_t *c, HANDLE *proc, HANDLE *thread, DWORD *createError, winpty_error_ptr_t *err) {
    if (wp != &gPty || gFreed) bad("winpty_spawn on a session that is not open");
    if (!gIn.open || !gOut.open) bad("the child was started before the pipes were opened");
    say("spawn " + std::to_string(c->flags) + " " + (c->hasApp ? "A" : "-") + " " + c->cmd);
    if (err) *err = NULL;
    if (createError) *createError = 0;
    if (proc) *proc = NULL;
    if (thread) *thread = NULL;
    noise();
    std::string fail = env("AD_SPAWNFAIL", "");
    if (!fail.empty()) {
        bool create = fail == "create";
        if (create && createError) *createError = atoi(env("AD_CREATEERROR", "2").c_str());
        if (err) *err = mkErr(create ? WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED : WINPTY_ERROR_LOST_CONNECTION, create ? "CreateProcess failed" : fail);
        return FALSE;
    }
    if (proc) { *proc = &gProc; gProcState = 1; }
    return TRUE;
}
BOOL winpty_set_size(winpty_t *wp, int cols, int rows, winpty_error_ptr_t *err) {
    if (wp != &gPty || gFreed) bad("winpty_set_size on a session that is not open");
    if (cols <= 0 || rows <= 0) bad(("winpty_set_size with the size " + std::to_string(cols) + "x" + std::to_string(rows)).c_str());
    if (err) *err = NULL;
    noise();
    say("size " + std::to_string(cols) + " " + std::to_string(rows));
    noise();
    return TRUE;
}
int winpty_get_console_process_list(winpty_t *, int *, const int, winpty_error_ptr_t *err) { if (err) *err = NULL; return 0; }
void winpty_free(winpty_t *wp) {
    if (wp != &gPty || gFreed.exchange(true)) bad("winpty_free on a session that is not open");
    say("free");
    noise();
    // The agent's ends of the pipes go away; what is already in an output pipe can still be read.
    shutdown(FD_CONIN, SHUT_WR);
    shutdown(FD_CONOUT, SHUT_RD);
    shutdown(FD_CONERR, SHUT_RD);
}

// ---- system calls of the adapter
ssize_t __real_read(int fd, void *buf, size_t n);
ssize_t __real_write(int fd, const void *buf, size_t n);
int __real_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg);
char *__real_realpath(const char *p, char *out);
int __real_access(const char *p, int mode);
static bool blocking(int fd) { return !(syscall(SYS_fcntl, fd, F_GETFL) & O_NONBLOCK); }
ssize_t __wrap_read(int fd, void *buf, size_t n) {
    noise();
    if (blocking(fd) && n) {
        if (chance(gEintr)) { errno = EINTR; return -1; }
        if (chance(0.2)) n = 1 + rnd() % n;
    }
    ssize_t k = __real_read(fd, buf, n);
    noise();
    return k;
}
ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    noise();
    if (blocking(fd) && n) {
        if (chance(gEintr)) { errno = EINTR; return -1; }
        if (chance(0.2)) n = 1 + rnd() % n;
    }
    ssize_t k = __real_write(fd, buf, n);
    noise();
    return k;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    noise();
    if (chance(gEintr)) { errno = EINTR; return -1; }
    int k = __real_select(n, r, w, e, t);
    noise();
    return k;
}
struct Start { void *(*f)(void *); void *arg; };
static void *starter(void *p) { Start s = *(Start *)p; delete (Start *)p; noise(); return s.f(s.arg); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    int k = __real_pthread_create(t, a, starter, new Start{f, arg});
    noise();
    return k;
}
// Cygwin finds foo.exe under the name foo.
char *__wrap_realpath(const char *p, char *out) {
    char *r = __real_realpath(p, out);
    if (r) return r;
    char tmp[PATH_MAX];
    if (!__real_realpath((std::string(p) + ".exe").c_str(), tmp)) return NULL;
    tmp[strlen(tmp) - 4] = 0;
    if (!out) return strdup(tmp);
    strcpy(out, tmp);
    return out;
}
int __wrap_access(const char *p, int mode) {
    int r = __real_access(p, mode);
    if (r == 0 || errno != ENOENT) return r;
    return __real_access((std::string(p) + ".exe").c_str(), mode);
}
// TSan variant: the flags shared by the threads are volatile on purpose.
void __tsan_volatile_read1(void *) {} void __tsan_volatile_read2(void *) {} void __tsan_volatile_read4(void *) {} void __tsan_volatile_read8(void *) {} void __tsan_volatile_read16(void *) {}
void __tsan_volatile_write1(void *) {} void __tsan_volatile_write2(void *) {} void __tsan_volatile_write4(void *) {} void __tsan_volatile_write8(void *) {} void __tsan_volatile_write16(void *) {}
}
bool isTracingEnabled() { return true; }
bool hasDebugFlag(const char *) { return false; }
void trace(const char *format, ...) {
    char b[2000]; va_list ap; va_start(ap, format); int n = vsnprintf(b, sizeof b, format, ap); va_end(ap);
    (void)n;
    say(std::string("trace ") + b);
}
void assertTrace(const char *file, int line, const char *cond) { say(std::string("viol assertion failed: ") + cond); }
void dumpVersionToStdout() { printf("winpty version 0.0\n"); }

int adapter_main(int argc, char *argv[]);
int main(int argc, char *argv[]) {
    gSeed = strtoull(env("AD_SEED", "1").c_str(), 0, 10);
    gNoise = atof(env("AD_NOISE", "0").c_str());
    gEintr = atof(env("AD_EINTR", "0.05").c_str());
    if (env("AD_NOHUP", "") == "1") signal(SIGHUP, SIG_IGN);
    int r = adapter_main(argc, argv);
    say("return " + std::to_string(r));
    return r;
}
