#include "harness.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>

extern "C" size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *) { sim::Quiet q; std::string m((const char*)p, a * b); if (!m.empty() && m.back() == '\n') m.pop_back(); sim::g->debugMessages.push_back(m); return b; }
extern "C" int __wrap_fflush(FILE *) { return 0; }
namespace sim {

Api api; Param params;
std::string gDir;
static int gAgentCopies;

void *libHandle;
void loadLibwinpty() {
    Thread *t = g->cur; t->noYield++;
    void *h = dlopen((gDir + "/lib.so").c_str(), RTLD_NOW | RTLD_LOCAL);
    t->noYield--;
    if (!h) { note("HARNESS dlopen lib.so: %s", dlerror()); finish(2); }
    libHandle = h;
    bool ok = true;
#define L(n) { void *f = dlsym(h, "winpty_" #n); if (!f) { note("HARNESS missing winpty_" #n); ok = false; } *(void**)&api.n = f; }
    L(error_code) L(error_msg) L(error_free) L(config_new) L(config_free) L(config_set_initial_size) L(config_set_mouse_mode) L(config_set_agent_timeout)
    L(open) L(agent_process) L(conin_name) L(conout_name) L(conerr_name) L(spawn_config_new) L(spawn_config_free) L(spawn) L(set_size) L(get_console_process_list) L(free)
#undef L
    if (!ok) finish(2);
}
Program realAgent() {
    return [](Process &p) -> int {
        int k = gAgentCopies++;
        p.name = "agent" + std::to_string(k);
        Thread *t = g->cur; t->noYield++;
        char path[600]; snprintf(path, sizeof path, "%s/agent%d.so", gDir.c_str(), k);
        if (k >= 6) { // a private copy: every agent needs its own globals
            int in = open((gDir + "/agent0.so").c_str(), O_RDONLY), out = memfd_create("agent", 0); std::vector<char> buf(1 << 20); ssize_t n;
            while ((n = read(in, buf.data(), buf.size())) > 0) if (write(out, buf.data(), n) != n) break;
            ::close(in); snprintf(path, sizeof path, "/proc/self/fd/%d", out);
        }
        void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        t->noYield--;
        if (!h) { note("HARNESS dlopen: %s", dlerror()); finish(2); }
        p.module = h;
        typedef int (*Main)(); Main m = (Main)dlsym(h, "_Z10agent_mainv"); if (!m) m = (Main)dlsym(h, "agent_main");
        if (!m) { note("HARNESS agent main not found"); finish(2); }
        return m();
    };
}

void startDebugServer(int how, uint64_t seed) {
    if (how == 0) return;
    auto up = std::make_shared<bool>(false);
    Process *p = createProcess("debugserver", nullptr); p->owner = g->client->owner; initDesktop(p);
    spawnThread(p, "main", [=] {
        if (how == 1) {
            Thread *t = g->cur; t->noYield++; void *h = dlopen((gDir + "/dbg.so").c_str(), RTLD_NOW | RTLD_LOCAL); t->noYield--;
            if (!h) { note("HARNESS dlopen: %s", dlerror()); finish(2); }
            p->module = h; typedef int (*Main)(int, char **); Main m = (Main)dlsym(h, "_Z8dbg_mainiPPc"); if (!m) { note("HARNESS no debug server"); finish(2); }
            static char a0[] = "winpty-debugserver"; static char *av[] = {a0, nullptr}; *up = true; m(1, av);
        } else {
            Rng r(seed * 3 + how); ustr n = u"\\\\.\\pipe\\DebugServer";
            for (;;) {
                HANDLE h = CreateNamedPipeW((LPCWSTR)n.c_str(), PIPE_ACCESS_DUPLEX | FILE_FLAG_FIRST_PIPE_INSTANCE, PIPE_TYPE_MESSAGE | PIPE_READMODE_MESSAGE, 1, 4096, 4096, 0, nullptr); *up = true;
                if (h == INVALID_HANDLE_VALUE) { sleepMs(3); continue; }
                for (;;) {
                    if (!ConnectNamedPipe(h, nullptr) && GetLastError() != ERROR_PIPE_CONNECTED) { DisconnectNamedPipe(h); continue; }
                    int act = how == 2 ? 0 : r.below(7); char b[4096]; DWORD k = 0;
                    if (act == 1) { DisconnectNamedPipe(h); continue; }
                    if (act == 2) break;                                  // goes away for a while
                    if (how == 2) sleepMs(r.range(0, 6)); else if (act == 3) sleepMs(r.range(0, 20));
                    if (ReadFile(h, b, sizeof b, &k, nullptr)) { Quiet q; g->debugMessages.push_back(std::string(b, k)); }
                    if (act == 4) { DisconnectNamedPipe(h); continue; }
                    if (how == 2) sleepMs(r.range(0, 6));
                    std::string reply = act == 5 ? std::string(r.range(17, 4000), 'x') : act == 6 ? "" : "OK"; if (!reply.empty()) WriteFile(h, reply.data(), (DWORD)reply.size(), &k, nullptr);
                    DisconnectNamedPipe(h);
                }
                CloseHandle(h); if (r.chance(0.7)) sleepMs(r.range(0, 300));
            }
        }
    });
    waitFor([up] { return *up; }, 5000); sleepMs(1);
}
ErrRec takeErr(winpty_error_ptr_t e) {
    ErrRec r; if (!e) return r;
    r.set = true; r.code = api.error_code(e);
    LPCWSTR m = api.error_msg(e);
    if (!m) violation("error-object", "winpty_error_msg returned NULL"); else r.msg = u8(W((const wchar_t*)m));
    api.error_free(e);
    return r;
}
HANDLE connectPipe(LPCWSTR name, DWORD access, DWORD flags) { return CreateFileW(name, access, 0, nullptr, OPEN_EXISTING, flags, nullptr); }

void Reader::start(HANDLE handle, const char *name) {
    h = handle;
    t = spawnThread(g->client, name, [this] {
        std::vector<char> b(65536);
        for (;;) {
            if (paused) waitFor([this] { return !paused; }, 3600000);
            if (pSlow > 0 && g->rng.chance(pSlow)) sleepMs(g->rng.range(1, slowMs));
            DWORD n = 0;
            if (!ReadFile(h, b.data(), (DWORD)g->rng.range(1, chunkMax), &n, nullptr)) { err = GetLastError(); eof = err == ERROR_BROKEN_PIPE; break; }
            data.append(b.data(), n); lastAt = g->nowUs; arrivals.push_back({g->nowUs, data.size()});
        }
        closed = true;
    });
}
bool Session::open(const SessionOpts &oo) {
    o = oo;
    winpty_error_ptr_t e = nullptr;
    auto cfg = api.config_new(o.flags, &e);
    if (!cfg) { openErr = takeErr(e); return false; }
    api.config_set_initial_size(cfg, o.cols, o.rows); api.config_set_mouse_mode(cfg, o.mouseMode);
    if (o.timeout) api.config_set_agent_timeout(cfg, o.timeout);
    size_t n0 = g->procs.size();
    wp = api.open(cfg, &e);
    api.config_free(cfg);
    if (!wp) { openErr = takeErr(e); if (!openErr.set) violation("api-contract", "winpty_open failed without an error object"); return false; }
    if (e) violation("api-contract", "winpty_open succeeded but set an error object");
    agentHandle = api.agent_process(wp);
    for (size_t i = n0; i < g->procs.size(); i++) { auto ob = g->client->get(agentHandle); if (ob && ob == g->procs[i]->obj) agent = g->procs[i]; }
    if (!agent) violation("api-contract", "winpty_agent_process is not a handle of the agent process");
    else con = agent->console;
    vt.cols = o.cols; vt.rows = o.rows; vt.plain = (o.flags & WINPTY_FLAG_PLAIN_OUTPUT) != 0; vt.color = !vt.plain || (o.flags & WINPTY_FLAG_COLOR_ESCAPES);
    vtErr.cols = o.cols; vtErr.rows = o.rows; vtErr.plain = vt.plain; vtErr.color = vt.color;
    if (o.connect) connectPipes();
    return true;
}
void Session::connectPipes() {
    conin = connectPipe(api.conin_name(wp), GENERIC_WRITE);
    HANDLE h = connectPipe(api.conout_name(wp), GENERIC_READ);
    if (conin == INVALID_HANDLE_VALUE || h == INVALID_HANDLE_VALUE) violation("data-pipe", "cannot connect to the data pipes (error %u)", (unsigned)GetLastError());
    else out.start(h, "conout-reader");
    if (o.flags & WINPTY_FLAG_CONERR) {
        LPCWSTR n = api.conerr_name(wp);
        if (!n) { violation("data-pipe", "no conerr pipe name although WINPTY_FLAG_CONERR was given"); return; }
        h = connectPipe(n, GENERIC_READ);
        if (h == INVALID_HANDLE_VALUE) violation("data-pipe", "cannot connect to the conerr pipe"); else errOut.start(h, "conerr-reader");
    } else if (api.conerr_name(wp)) violation("data-pipe", "conerr pipe name although WINPTY_FLAG_CONERR was not given");
}
bool Session::spawn(Program prog, UINT64 fl, bool want) {
    g->programs[u"child.exe"] = prog;
    winpty_error_ptr_t e = nullptr;
    auto sc = api.spawn_config_new(fl, (LPCWSTR)u"C:\\bin\\child.exe", nullptr, nullptr, nullptr, &e);
    if (!sc) { spawnErr = takeErr(e); return false; }
    size_t n0 = g->createLog.size();
    BOOL ok = api.spawn(wp, sc, want ? &childProc : nullptr, want ? &childThread : nullptr, &cpErr, &e);
    api.spawn_config_free(sc);
    if (!ok) { spawnErr = takeErr(e); return false; }
    if (e) violation("api-contract", "winpty_spawn succeeded but set an error object");
    for (size_t i = n0; i < g->createLog.size(); i++) if (g->createLog[i].ok) for (auto p : g->procs) if (p->pid == g->createLog[i].pid) child = p;
    return true;
}
bool Session::resize(int c, int r, ErrRec *er) {
    winpty_error_ptr_t e = nullptr;
    BOOL ok = api.set_size(wp, c, r, &e);
    ErrRec x = takeErr(e);
    if (ok && x.set) violation("api-contract", "winpty_set_size succeeded but set an error object");
    if (!ok && !x.set) violation("api-contract", "winpty_set_size failed without an error object");
    if (er) *er = x;
    return ok;
}
void Session::write(const std::string &s) {
    DWORD n = 0;
    if (!WriteFile(conin, s.data(), (DWORD)s.size(), &n, nullptr) || n != s.size()) violation("data-pipe", "writing %zu bytes to the conin pipe failed: error %u", s.size(), (unsigned)GetLastError());
}
void Session::feed() {
    vt.feed(out.data.substr(fed)); fed = out.data.size();
    vtErr.feed(errOut.data.substr(fedErr)); fedErr = errOut.data.size();
}
bool Session::quiesce(int ms) {
    for (int i = 0; i < 200; i++) {
        size_t a = out.data.size(), b = errOut.data.size();
        sleepMs(ms);
        if (out.data.size() == a && errOut.data.size() == b) { feed(); return true; }
    }
    feed(); return false;
}
void Session::close() {
    if (wp) api.free(wp); wp = nullptr;
    if (conin && conin != INVALID_HANDLE_VALUE) CloseHandle(conin); conin = nullptr;
    for (auto r : {&out, &errOut}) if (r->t) {
        if (!waitFor([r] { return r->closed; }, 120000)) violation("pipe-never-closed", "an output pipe was still open 120 s after winpty_free");
        joinThread(r->t); CloseHandle(r->h); r->t = nullptr;
    }
    if (childProc) CloseHandle(childProc); if (childThread) CloseHandle(childThread); childProc = childThread = nullptr;
}
void childWrite(HANDLE h, const ustr &s) { DWORD n = 0; if (!s.empty()) WriteConsoleW(h, s.data(), (DWORD)s.size(), &n, nullptr); }

Program Puppet::program() {
    return [this](Process &pr) -> int {
        p = &pr; started = true;
        for (;;) {
            waitFor([this] { return !q.empty() || quit; }, 3600000 * 10);
            if (q.empty() && quit) break;
            if (q.empty()) continue;
            auto f = q.front(); q.pop_front(); pendingCmds++;
            f();
            pendingCmds--;
        }
        done = true;
        return code;
    };
}
void Puppet::post(std::function<void()> f) { ApiScope s("puppet"); q.push_back(f); }
void Puppet::run(std::function<void()> f) {
    bool fin = false;
    post([&fin, f] { f(); fin = true; });
    if (!waitFor([&fin, this] { return fin || (p && p->exited); }, 600000)) violation("child-stuck", "a console program made no progress for 600 s (console left frozen?)");
    if (!fin && p && p->exited) violation("child-died", "the child process died unexpectedly: %s code %#x", p->exitWhy, (unsigned)p->exitCode);
}

Baseline baseline() { Baseline b; b.m = g->client->ledgerCounts(); return b; }
void checkBaseline(const Baseline &b, const char *what, bool heap) {
    auto now = g->client->ledgerCounts();
    for (auto &kv : now) { if (kv.first == "heap" && !heap) continue; auto it = b.m.find(kv.first); long was = it == b.m.end() ? 0 : it->second; if (kv.second != was)
        violation("client-leak", "%s: %s went from %ld to %ld: %s", what, kv.first.c_str(), was, kv.second, g->client->ledger().substr(0, 600).c_str()); }
}
int agentCount(bool live) { int n = 0; for (auto p : g->procs) if (p->name.compare(0, 5, "agent") == 0 || lower(p->exe).find(u"winpty-agent") != ustr::npos) if (!live || !p->exited) n++; return n; }
void checkNoAgentAbort() {
    for (auto p : g->procs) if (p->exited && !strcmp(p->exitWhy, "abort")) violation("agent-abort", "%s stopped at a failed assertion or abort()", p->name.c_str());
}
void checkAgentsGone(const char *what, int ms) {
    if (!waitFor([] { return agentCount(true) == 0; }, ms)) violation("agent-orphan", "%s: an agent process is still running %d s later", what, ms / 1000);
    checkNoAgentAbort();
    for (auto &c : allConsoles()) if (c->alive && agentCount(true) == 0) {
        bool any = false; for (auto p : c->procs) if (!p->exited) any = true;
        if (any) waitFor([c] { return !c->alive; }, 2000);
        if (c->alive) { std::string who; for (auto p : c->procs) who += " " + p->name + (p->exited ? "(exited)" : ""); violation("child-orphan", "%s: processes are still attached to the console after the agent has gone:%s", what, who.c_str()); }
    }
}

static std::map<std::string, ScenarioFn> &regs() { static std::map<std::string, ScenarioFn> m; return m; }
ScenarioReg::ScenarioReg(const char *n, ScenarioFn f) { regs()[n] = f; }

} // namespace sim
using namespace sim;

int main(int argc, char **argv) {
    // harness DIR SCENARIO FIRSTSEED COUNT [k=v ...]
    if (argc < 2) return 2;
    gDir = argv[1];
    if (argc < 5) { for (auto &kv : regs()) printf("%s\n", kv.first.c_str()); return 0; }
    std::string name = argv[2]; uint64_t first = strtoull(argv[3], 0, 10), cnt = strtoull(argv[4], 0, 10);
    for (int i = 5; i < argc; i++) { std::string s = argv[i]; size_t e = s.find('='); if (e != std::string::npos) params.kv[s.substr(0, e)] = s.substr(e + 1); }
    auto it = regs().find(name); if (it == regs().end()) { printf("HARNESS unknown scenario %s\n", name.c_str()); return 2; }
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int cpu = (int)params.num("cpu", 60);
    bool slow = false;
    for (uint64_t s = first; s < first + cnt; s++) {
        if (slow || (params.has("stop") && !access(params.kv["stop"].c_str(), F_OK))) break;
        printf("BEGIN %s %llu\n", name.c_str(), (unsigned long long)s); fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            Config c; params.kv["seed"] = std::to_string(s);
            initWorld(s, c);
            struct itimerval tv = {{0, 0}, {cpu, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
            g->programs[u"winpty-agent.exe"] = realAgent();
            if (params.has("trace")) { g->client->env["WINPTY_DEBUG"] = "trace"; startDebugServer((int)(s % 4), s); }
            it->second();
            if (params.has("trace")) sim::stat("debug.messages", g->debugMessages.size());
            finish(violations ? 1 : 0);
        }
        if (pid < 0) { printf("HARNESS fork failed\n"); return 2; }
        int st = 0; long waited = 0; bool killed = false;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            usleep(waited < 200 ? 1000 : 5000); waited += waited < 200 ? 1 : 5;
            if (waited > cpu * 4000L) { kill(pid, SIGKILL); killed = true; }
        }
        if (killed || (WIFEXITED(st) && WEXITSTATUS(st) == 5)) slow = true;
        if (killed) printf("END %llu TIMEOUT\n", (unsigned long long)s);
        else if (WIFEXITED(st)) printf("END %llu EXIT %d\n", (unsigned long long)s, WEXITSTATUS(st));
        else printf("END %llu SIGNAL %d\n", (unsigned long long)s, WTERMSIG(st));
        fflush(stdout);
    }
    return 0;
}
