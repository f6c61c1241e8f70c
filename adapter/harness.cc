// Drives the real Unix adapter (built from /repo with host.cc) over pseudo-terminals and judges what comes out at both ends.
//   harness DIR SCENARIO FIRSTSEED COUNT [k=v...]
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pty.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using std::string; using std::vector;
static string gDir, gScratch, gScenario;
static std::map<string, uint64_t> gStats;
static uint64_t gHash;
static int gViol;
static bool gSlow, gNudge;     // gNudge: the thread sanitizer holds back signals, so they are repeated
struct Rnd { uint64_t s; explicit Rnd(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) % n) : 0; } int range(int a, int b) { return a + (int)below(b - a + 1); } bool chance(double p) { return below(1000000) < p * 1000000; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; } };
static void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static void viol(const char *key, const char *fmt, ...) {
    char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *p = b; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
    if (gViol++ < 10) printf("VIOL %s %s\n", key, b);
}
static void count(const char *k, uint64_t n = 1) { gStats[k] += n; }
static void mix(uint64_t v) { gHash = (gHash ^ v) * 0x100000001B3ull; gHash ^= gHash >> 29; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static uint8_t pattern(uint64_t seed, uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull + seed; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x >> 40; }
static string quoteBytes(const string &s, size_t max = 200) { string o; char b[8]; for (unsigned char c : s.substr(0, max)) { if (c >= 32 && c < 127) o += c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }

// ---- one run of the adapter
struct Opts {
    vector<string> argv;            // without the program name
    bool tty = true, errTty = false, nohup = false, conerr = false, ctty = true;
    int cols = 80, rows = 25;
    std::map<string, string> env;
    string cwd;
    double noise = 0.05;
    std::function<void(termios &)> modes;
};
struct Proc {
    Opts o; pid_t pid = -1; int master = -1, slave = -1, errMaster = -1, errSlave = -1, outR = -1, errR = -1, inW = -1;
    int conin = -1, conout = -1, conerr = -1, log = -1; bool exited = false; int status = 0; termios before, errBefore;
    vector<string> events; string out, err, coninData; vector<std::pair<int, int>> sizes; bool opened = false, spawned = false, freed = false; string cmd; uint64_t spawnFlags = 0; bool hasApp = false, openedSize = false;
    uint64_t cfgFlags = 0; int mouse = 0, cols0 = 0, rows0 = 0, mismatchIn = 0; std::map<string, string> winEnv; std::set<string> unset; bool brokenIn = false, synced = false;
    ~Proc() { if (pid > 0 && !exited) { kill(pid, SIGKILL); waitpid(pid, 0, 0); } for (int f : {master, slave, errMaster, errSlave, outR, errR, inW, conin, conout, conerr, log}) if (f >= 0) close(f); }
};
static void setNb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); fcntl(fd, F_SETFD, FD_CLOEXEC); }
static void setSize(int fd, int c, int r) { winsize w = {}; w.ws_col = c; w.ws_row = r; ioctl(fd, TIOCSWINSZ, &w); }
static Proc *gCur; static double gLook; static long gSwitches;
static void start(Proc &p, uint64_t seed) {
    gCur = &p; gLook = 0; gSwitches = -1;
    auto fail = [](const char *w) { printf("HARNESS %s: %s\n", w, strerror(errno)); fflush(stdout); exit(2); };
    int in2[2], out2[2], err2[2], log2[2], pin[2] = {-1, -1}, pout[2] = {-1, -1}, perr[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, in2) || socketpair(AF_UNIX, SOCK_STREAM, 0, out2) || socketpair(AF_UNIX, SOCK_STREAM, 0, err2) || socketpair(AF_UNIX, SOCK_SEQPACKET, 0, log2)) fail("socketpair");
    int big = 400000;
    setsockopt(log2[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
    if (p.o.tty) {
        if (openpty(&p.master, &p.slave, 0, 0, 0)) fail("openpty");
        fcntl(p.slave, F_SETFD, FD_CLOEXEC);
        if (p.o.modes) { termios t; tcgetattr(p.slave, &t); p.o.modes(t); tcsetattr(p.slave, TCSANOW, &t); }
        tcgetattr(p.slave, &p.before);
        setSize(p.master, p.o.cols, p.o.rows);
    } else { if (pipe(pin) || pipe(pout)) fail("pipe"); }
    if (p.o.errTty) { if (openpty(&p.errMaster, &p.errSlave, 0, 0, 0)) fail("openpty"); fcntl(p.errSlave, F_SETFD, FD_CLOEXEC); tcgetattr(p.errSlave, &p.errBefore); perr[0] = perr[1] = -1; }
    else if (pipe(perr)) fail("pipe");
    string exe = gDir + "/adapter";
    vector<string> envs;
    std::map<string, string> e = p.o.env;
    e["AD_SEED"] = std::to_string(seed); e["AD_NOISE"] = std::to_string(p.o.noise); e["LANG"] = e["LC_ALL"] = "C.UTF-8";
    if (p.o.conerr) e["AD_CONERR"] = "1";
    if (p.o.nohup) e["AD_NOHUP"] = "1";
    if (!e.count("PATH")) e["PATH"] = "/usr/bin:/bin";
    string logp = ":log_path=" + gScratch + "/san";
    for (const char *v : {"ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"}) e[v] = string(getenv(v) ? getenv(v) : "") + logp;
    for (auto &kv : e) envs.push_back(kv.first + "=" + kv.second);
    vector<char *> av{(char *)"winpty"}, ev;
    for (auto &a : p.o.argv) av.push_back((char *)a.c_str());
    av.push_back(0);
    for (auto &a : envs) ev.push_back((char *)a.c_str());
    ev.push_back(0);
    fflush(stdout);
    p.pid = fork();
    if (p.pid < 0) fail("fork");
    if (p.pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setsid();
        if (p.o.tty) { if (p.o.ctty) ioctl(p.slave, TIOCSCTTY, 0); dup2(p.slave, 0); dup2(p.slave, 1); } else { dup2(pin[0], 0); dup2(pout[1], 1); }
        dup2(p.o.errTty ? p.errSlave : perr[1], 2);
        dup2(in2[1], 240); dup2(out2[1], 241); dup2(err2[1], 242); dup2(log2[1], 243);
        dup2(240, 40); dup2(241, 41); dup2(242, 42); dup2(243, 43);
        for (int f = 3; f < 256; f++) if (f < 40 || f > 43) close(f);
        if (!p.o.cwd.empty() && chdir(p.o.cwd.c_str())) _exit(97);
        execve(exe.c_str(), av.data(), ev.data());
        _exit(98);
    }
    close(in2[1]); close(out2[1]); close(err2[1]); close(log2[1]);
    p.conin = in2[0]; p.conout = out2[0]; p.conerr = err2[0]; p.log = log2[0];
    if (!p.o.tty) { close(pin[0]); close(pout[1]); p.inW = pin[1]; p.outR = pout[0]; setNb(p.inW); setNb(p.outR); } else { setNb(p.master); }
    if (!p.o.errTty) { close(perr[1]); p.errR = perr[0]; setNb(p.errR); } else setNb(p.errMaster);
    for (int f : {p.conin, p.conout, p.conerr, p.log}) setNb(f);
    count("runs");
}
static void onEvent(Proc &p, const string &e) {
    p.events.push_back(e);
    for (char c : e.substr(0, 40)) mix(c);
    if (!e.compare(0, 5, "viol ")) { viol("adapter-misuse", "%s", e.c_str() + 5); return; }
    if (!e.compare(0, 5, "open ")) { unsigned long long f; sscanf(e.c_str(), "open %d %d %llu %d", &p.cols0, &p.rows0, &f, &p.mouse); p.cfgFlags = f; p.opened = true; p.sizes.push_back({p.cols0, p.rows0}); }
    if (!e.compare(0, 6, "spawn ")) {
        if (p.spawned) viol("adapter-spawn", "the child was started twice");
        p.spawned = true;
        size_t a = e.find(' ', 6);
        p.spawnFlags = strtoull(e.c_str() + 6, 0, 10); p.hasApp = e[a + 1] == 'A'; p.cmd = e.substr(a + 3);
    }
    if (!e.compare(0, 5, "size ")) { int c, r; sscanf(e.c_str(), "size %d %d", &c, &r); p.sizes.push_back({c, r}); count("resizes.passed"); }
    if (e == "free") p.freed = true;
    if (e == "broken conin") p.brokenIn = true;
    if (e == "syncenv") p.synced = true;
    if (!e.compare(0, 4, "env ")) { size_t q = e.find('='); if (q == string::npos) p.unset.insert(e.substr(4)); else p.winEnv[e.substr(4, q - 4)] = e.substr(q + 1); }
}
static void readLog(Proc &p) {
    static vector<char> b(300000);
    while (p.log >= 0) {
        ssize_t k = recv(p.log, b.data(), b.size(), 0);
        if (k > 0) onEvent(p, string(b.data(), k));
        else { if (k == 0) { close(p.log); p.log = -1; } break; }
    }
}
static bool drain(int &fd, string &to, size_t max = 1 << 20) {
    if (fd < 0) return false;
    static vector<char> b(1 << 16);
    ssize_t k = read(fd, b.data(), std::min(max, b.size()));
    if (k > 0) { to.append(b.data(), k); return true; }
    if (k == 0) { close(fd); fd = -1; }
    return false;
}
static void reap(Proc &p) {
    if (p.exited) return;
    int st;
    if (waitpid(p.pid, &st, WNOHANG) == p.pid) { p.exited = true; p.status = st; }
}
static void sanitizer() {
    DIR *d = opendir(gScratch.c_str());
    if (!d) return;
    while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "san.", 4)) {
        string f = gScratch + "/" + e->d_name;
        if (FILE *h = fopen(f.c_str(), "r")) { char l[4000]; while (fgets(l, sizeof l, h)) fputs(l, stdout); fclose(h); }
        unlink(f.c_str());
    }
    closedir(d);
}
// Every thread of the adapter sleeps and none has run since the last look, two seconds ago: nothing but new input could wake it.
static long asleep(int pid) {
    char f[100], l[300]; snprintf(f, sizeof f, "/proc/%d/task", pid); DIR *d = opendir(f); if (!d) return -1;
    long n = 0; bool all = true;
    while (dirent *e = readdir(d)) {
        if (!isdigit(e->d_name[0])) continue;
        snprintf(f, sizeof f, "/proc/%d/task/%.20s/status", pid, e->d_name); FILE *h = fopen(f, "r"); if (!h) { all = false; continue; }
        long v; char c; while (fgets(l, sizeof l, h)) { if (sscanf(l, "State: %c", &c) == 1 && c != 'S') all = false; if (sscanf(l, "voluntary_ctxt_switches: %ld", &v) == 1 || sscanf(l, "nonvoluntary_ctxt_switches: %ld", &v) == 1) n += v; }
        fclose(h);
    }
    closedir(d); return all ? n : -1;
}
static void tick(const char *what, double t0, double limit, bool &stop) {
    if (now() - t0 > 6 && gCur && !gCur->exited && now() - gLook > 2) {
        long n = asleep(gCur->pid); gLook = now();
        if (n >= 0 && n == gSwitches) { stop = true; viol("hang", "every thread of the adapter sleeps for good; the harness is %s", what); return; }
        gSwitches = n;
    }
    if (now() - t0 > limit) { stop = true; gSlow = true; printf("SAMPLE no progress for %.0f s while %s\n", limit, what); }
}
// Everything the adapter wrote, until it has exited.
static bool finish(Proc &p, double limit = 25) {
    double t0 = now(); bool stop = false;
    while (true) {
        readLog(p); reap(p);
        bool any = drain(p.outR, p.out) | drain(p.errR, p.err) | drain(p.conin, p.coninData);
        if (p.master >= 0) any |= drain(p.master, p.out);
        if (p.errMaster >= 0) any |= drain(p.errMaster, p.err);
        if (any) t0 = now();
        if (p.exited && !any) { readLog(p); return true; }
        if (!any) { usleep(500); tick("waiting for the adapter to exit", t0, limit, stop); if (stop) return false; }
    }
}
static bool modesEqual(const termios &a, const termios &b) { return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc); }
static void crashCheck(Proc &p) {
    if (!p.exited) return;
    if (WIFSIGNALED(p.status) && WTERMSIG(p.status) != SIGKILL) viol("adapter-crash", "the adapter was ended by signal %d; it wrote: %s", WTERMSIG(p.status), quoteBytes(p.err, 300).c_str());
    if (WIFEXITED(p.status) && WEXITSTATUS(p.status) >= 97 && WEXITSTATUS(p.status) <= 98 && p.events.empty()) { printf("HARNESS the adapter could not be started\n"); }
}

// ---- programs in the scratch directory
static string touch(const string &path, int mode) { FILE *f = fopen(path.c_str(), "w"); if (f) fclose(f); chmod(path.c_str(), mode); return path; }
static string winPath(string s) { s = "C:/cyg" + s; for (char &c : s) if (c == '/') c = '\\'; return s; }
static void rmTree(const string &d) {
    if (d.compare(0, gScratch.size(), gScratch)) return;
    DIR *h = opendir(d.c_str());
    if (!h) return;
    while (dirent *e = readdir(h)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; struct stat s; if (!lstat(f.c_str(), &s) && S_ISDIR(s.st_mode)) rmTree(f); else unlink(f.c_str()); }
    closedir(h); rmdir(d.c_str());
}

// ---- the standard command-line parsers
static vector<string> split(const string &s, int kind) {    // 0: CommandLineToArgvW, 1: C runtime since 2008, 2: older C runtime
    vector<string> r; size_t i = 0; string a;
    if (i < s.size() && s[i] == '"') { i++; while (i < s.size() && s[i] != '"') a += s[i++]; if (i < s.size()) i++; if (kind) while (i < s.size() && s[i] != ' ' && s[i] != '\t') a += s[i++]; }
    else while (i < s.size() && s[i] != ' ' && s[i] != '\t') a += s[i++];
    r.push_back(a);
    while (true) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) i++;
        if (i >= s.size()) return r;
        a.clear(); bool q = false;
        while (i < s.size()) {
            if (!q && (s[i] == ' ' || s[i] == '\t')) break;
            size_t bs = 0;
            while (i < s.size() && s[i] == '\\') { bs++; i++; }
            if (i < s.size() && s[i] == '"') {
                a.append(bs / 2, '\\');
                if (bs & 1) { a += '"'; i++; }
                else if (q && i + 1 < s.size() && s[i + 1] == '"' && kind < 2) { a += '"'; i += 2; if (kind == 0) q = false; }
                else { q = !q; i++; }
            } else { a.append(bs, '\\'); if (i < s.size() && (q || (s[i] != ' ' && s[i] != '\t'))) a += s[i++]; }
        }
        r.push_back(a);
    }
}
static string anyArg(Rnd &r) {
    static const vector<string> pieces = {"\\", "\\\\", "\"", "\"\"", " ", "\t", "a", "b", "\\\"", "'", "%", "$", "&", "|", "^", "*", "?", "-", "--", "/", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "=", "x y", "\\ ", "C:\\", "\n", "\v", "\x7f", "\x01"};
    string s; int n = r.chance(0.1) ? 0 : r.chance(0.05) ? r.range(50, 400) : r.range(1, 8);
    for (int i = 0; i < n; i++) s += r.chance(0.6) ? r.pick(pieces).c_str() : string(1, (char)r.range(33, 126));
    return s;
}
static void checkCommand(Proc &p, const string &prog, const vector<string> &args) {
    if (!p.spawned) { viol("adapter-spawn", "the child was never started; the adapter wrote: %s", quoteBytes(p.err, 300).c_str()); return; }
    count("commands.checked");
    vector<string> want{winPath(prog)};
    want.insert(want.end(), args.begin(), args.end());
    for (int k = 0; k < 3; k++) {
        vector<string> got = split(p.cmd, k);
        if (got != want) {
            size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
            viol("adapter-arguments", "the command line %s is split into %zu arguments, %zu were given; argument %zu is %s, it should be %s", quoteBytes(p.cmd).c_str(), got.size(), want.size(), i,
                 i < got.size() ? quoteBytes(got[i]).c_str() : "(none)", i < want.size() ? quoteBytes(want[i]).c_str() : "(none)");
            break;
        }
    }
    if (p.hasApp) viol("adapter-spawn", "an application name was passed besides the command line");
    if (!(p.spawnFlags & 1)) viol("adapter-spawn", "the child is started with flags %llu, without the automatic shutdown", (unsigned long long)p.spawnFlags);
}

// ---- arguments, options, PATH, environment
struct Options { vector<string> argv; bool conerr = false, plain = false, color = false, mouse = false; };
static Options anyOptions(Rnd &r, bool tty) {
    Options o;
    if (!tty) o.argv.push_back("-Xallow-non-tty");
    if (r.chance(0.2)) { o.argv.push_back("-Xplain"); o.plain = true; }
    if (r.chance(0.2)) { o.argv.push_back("-Xcolor"); o.color = true; }
    if (r.chance(0.3)) { o.argv.push_back("--mouse"); o.mouse = true; }
    for (size_t i = o.argv.size(); i > 1; i--) std::swap(o.argv[i - 1], o.argv[r.below(i)]);
    return o;
}
static void checkOpen(Proc &p, const Options &o, int cols, int rows) {
    if (!p.opened) { viol("adapter-open", "no session was opened; the adapter wrote: %s", quoteBytes(p.err, 300).c_str()); return; }
    bool c = p.cfgFlags & 1, pl = p.cfgFlags & 2, co = p.cfgFlags & 4, de = p.cfgFlags & 8;
    if (c != o.conerr || pl != o.plain || co != o.color) viol("adapter-options", "configuration flags %llu for options conerr=%d plain=%d color=%d", (unsigned long long)p.cfgFlags, o.conerr, o.plain, o.color);
    if (!de) viol("adapter-options", "configuration flags %llu do not allow the desktop to be created in the adapter's own process", (unsigned long long)p.cfgFlags);
    if (o.mouse != (p.mouse == 2)) viol("adapter-options", "mouse mode %d for --mouse=%d", p.mouse, o.mouse);
    if (cols > 0 && rows > 0 && (p.cols0 != cols || p.rows0 != rows)) viol("adapter-size", "the session is opened with %dx%d, the terminal has %dx%d", p.cols0, p.rows0, cols, rows);
}
static void scnArgs(uint64_t seed) {
    Rnd r(seed);
    Proc p;
    p.o.tty = false; p.o.noise = 0;
    Options opt = anyOptions(r, false);
    opt.conerr = r.chance(0.1); if (opt.conerr) { opt.argv.push_back("-Xconerr"); p.o.conerr = true; }
    string base = gScratch + "/p" + std::to_string(seed);
    mkdir(base.c_str(), 0755);
    // directories on the PATH
    static const vector<string> dirNames = {"bin", "my tools", "x\tz", "d\xc3\xa9", "sub", "a&b"}, progNames = {"foo", "foo.exe", "Tool", "run.bat", "RUN.CMD", "a b", "p.com", "caf\xc3\xa9", "x.y", "prog.exe.", "longer name here"};
    string prog = r.pick(progNames), expect;
    bool viaPath = r.chance(0.5), found = true;
    auto low = [](string s) { for (char &c : s) c = tolower((unsigned char)c); return s; };
    auto ends = [&](const string &s, const char *suf) { string l = low(s); size_t n = strlen(suf); return l.size() >= n && !l.compare(l.size() - n, n, suf); };
    // what a file name stands for: "" if it cannot be started
    auto resolve = [&](const string &dir) -> string {
        string f = dir + "/" + prog;
        struct stat st; bool plain = !stat(f.c_str(), &st), exe = !stat((f + ".exe").c_str(), &st);
        if (!plain && !exe) return "";
        if (!(ends(f, ".bat") || ends(f, ".cmd") || ends(f, ".com") || ends(f, ".exe"))) f += ".exe";
        if (stat(f.c_str(), &st)) { if (stat((f + ".exe").c_str(), &st)) return ""; }
        return st.st_mode & 0111 ? f : "";
    };
    vector<string> dirs;
    int nd = r.range(1, 5);
    for (int i = 0; i < nd; i++) {
        string d = base + "/" + r.pick(dirNames) + std::to_string(i);
        dirs.push_back(d);
        if (r.chance(0.15)) continue;                   // an entry that does not exist
        mkdir(d.c_str(), 0755);
        if (r.chance(0.4)) touch(d + "/" + prog, r.chance(0.7) ? 0755 : 0644);
        if (r.chance(0.4)) touch(d + "/" + prog + ".exe", r.chance(0.8) ? 0755 : 0644);
        if (r.chance(0.3)) touch(d + "/" + prog + "x", 0755);
    }
    vector<string> args;
    int na = r.chance(0.05) ? r.range(50, 300) : r.below(7);
    for (int i = 0; i < na; i++) args.push_back(anyArg(r));
    if (viaPath) {
        string path; bool tail = r.chance(0.3);
        if (r.chance(0.1)) { path = ":"; }
        for (size_t i = 0; i < dirs.size(); i++) { if (i) path += ":"; path += dirs[i]; if (r.chance(0.2)) path += "/"; }
        if (tail) path += ":";
        p.o.cwd = base;
        for (auto &d : dirs) { expect = resolve(d); if (!expect.empty()) break; }
        found = !expect.empty();
        p.o.env["PATH"] = path;
    } else {
        string d = base + "/" + r.pick(dirNames); mkdir(d.c_str(), 0755);
        bool exists = r.chance(0.85), magic = r.chance(0.3);
        if (exists) touch(d + "/" + prog + (magic ? ".exe" : ""), 0755);
        found = exists; expect = d + "/" + prog;
        p.o.cwd = d;
        int how = r.below(4);
        prog = how == 0 ? d + "/" + prog : how == 1 ? "./" + prog : how == 2 ? d + "//" + prog : d + "/./../" + d.substr(base.size() + 1) + "/" + prog;
    }
    p.o.argv = opt.argv;
    bool dashes = r.chance(0.3);
    if (dashes) p.o.argv.push_back("--");
    p.o.argv.push_back(prog);
    p.o.argv.insert(p.o.argv.end(), args.begin(), args.end());
    int code = r.chance(0.3) ? 0 : r.range(0, 255);
    p.o.env["AD_EXIT"] = std::to_string(code);
    if (r.chance(0.7)) p.o.env["TERM"] = "xterm";
    string dbg = r.chance(0.5) ? anyArg(r) : "";
    bool hasDbg = r.chance(0.5);
    if (hasDbg) p.o.env["WINPTY_DEBUG"] = dbg;
    bool show = r.chance(0.2);
    if (show) p.o.env["WINPTY_SHOW_CONSOLE"] = "1";
    start(p, seed);
    // the agent: the child ends at once
    string body; int nb = r.below(300);
    for (int i = 0; i < nb; i++) body += (char)pattern(seed, i);
    if (send(p.conout, body.data(), body.size(), MSG_NOSIGNAL) < 0 && !body.empty() && found) {}
    close(p.conout); p.conout = -1;
    close(p.conerr); p.conerr = -1;
    bool ok = finish(p);
    crashCheck(p);
    if (ok && WIFEXITED(p.status)) {
        checkOpen(p, opt, 0, 0);
        if (p.cols0 != 80 || p.rows0 != 25) viol("adapter-size", "without a terminal the session is opened with %dx%d instead of 80x25", p.cols0, p.rows0);
        if (!found) {
            count("not.found");
            if (p.spawned) viol("adapter-program", "%s was started as %s, there is no such program", quoteBytes(prog).c_str(), quoteBytes(p.cmd).c_str());
            if (WEXITSTATUS(p.status) != 1 || p.err.find(prog) == string::npos) viol("adapter-program", "exit status %d and message %s for the missing program %s", WEXITSTATUS(p.status), quoteBytes(p.err, 300).c_str(), quoteBytes(prog).c_str());
        } else {
            checkCommand(p, expect, args);
            if (WEXITSTATUS(p.status) != code) viol("adapter-exit", "exit status %d, the child's was %d", WEXITSTATUS(p.status), code);
            if (p.out != body) viol("relay-output", "%zu bytes of output arrived, %zu were sent", p.out.size(), body.size());
            if (!p.freed) viol("adapter-end", "the session was not freed");
        }
        if (!p.unset.count("TERM")) viol("adapter-environment", "TERM is still in the Windows environment");
        bool wantDbg = hasDbg && !dbg.empty();
        if (p.winEnv.count("WINPTY_DEBUG") != (wantDbg ? 1 : 0) || (wantDbg && p.winEnv["WINPTY_DEBUG"] != dbg)) viol("adapter-environment", "WINPTY_DEBUG is passed as %s, it was %s", quoteBytes(p.winEnv["WINPTY_DEBUG"]).c_str(), quoteBytes(dbg).c_str());
        if (p.winEnv.count("WINPTY_SHOW_CONSOLE") != (show ? 1 : 0)) viol("adapter-environment", "WINPTY_SHOW_CONSOLE is %s", show ? "lost" : "invented");
        for (size_t i = 0; i < p.sizes.size(); i++) if (i) viol("adapter-size", "a resize to %dx%d without a terminal", p.sizes[i].first, p.sizes[i].second);
        count("environments.checked");
    }
    rmTree(base);
}

// ---- usage errors and failures
static void scnStart(uint64_t seed) {
    Rnd r(seed);
    Proc p;
    string prog = touch(gScratch + "/prog.exe", 0755);
    p.o.tty = r.chance(0.6);
    p.o.noise = r.chance(0.5) ? 0.05 : 0;
    int kind = r.below(9);
    string needle; int want = 1; bool wantSpawn = false;
    static const vector<string> msgs = {"Das Ger\xc3\xa4t", "The system cannot find the file specified.\r\n", "", " ", "\xe4\xb8\xad\xe6\x96\x87.\r\n", "%s%n%d", "\r\n"};
    vector<string> head; if (!p.o.tty) head.push_back("-Xallow-non-tty");
    string shown;
    switch (kind) {
    case 0: p.o.argv = {r.pick(vector<string>{"-x", "--mouse=1", "-Xnone", "-", "---", "-hh", "--helpx"})}; needle = p.o.argv[0]; p.o.argv.push_back(prog); break;
    case 1: p.o.argv = head; if (r.chance(0.5)) p.o.argv.push_back("--"); needle = ""; break;
    case 2: p.o.argv = {r.pick(vector<string>{"-h", "--help"})}; if (r.chance(0.5)) p.o.argv.push_back(prog); want = 0; break;
    case 3: p.o.argv = {"--version"}; if (r.chance(0.5)) p.o.argv.push_back(prog); want = 0; break;
    case 4: p.o.argv = head; p.o.argv.push_back(prog); needle = shown = "no agent \xc3\xa9"; p.o.env["AD_OPENFAIL"] = needle; break;
    case 5: { p.o.argv = head; p.o.argv.push_back(prog); p.o.argv.push_back("an arg"); p.o.env["AD_SPAWNFAIL"] = "create"; int e = r.chance(0.5) ? 2 : r.range(1, 70000); string m = r.pick(msgs); p.o.env["AD_CREATEERROR"] = std::to_string(e); p.o.env["AD_MESSAGE"] = m;
        char b[64]; snprintf(b, sizeof b, "error %#x", e); needle = b; while (!m.empty() && strchr(" \r\n\t", m.back())) m.pop_back(); shown = m; wantSpawn = true; break; }
    case 6: p.o.argv = head; p.o.argv.push_back(prog); p.o.env["AD_SPAWNFAIL"] = needle = shown = "lost the agent"; wantSpawn = true; break;
    case 7: p.o.tty = false; p.o.argv = {prog}; needle = "not a tty"; wantSpawn = true; break;
    case 8: p.o.argv = head; p.o.argv.push_back(r.chance(0.5) ? "no-such-program" : "./no/such"); needle = p.o.argv.back(); break;
    }
    count("failures.checked");
    start(p, seed);
    bool hang = p.o.tty && r.chance(0.3);
    if (hang) for (int i = 0; i < 5; i++) { setSize(p.master, r.range(1, 300), r.range(1, 200)); usleep(r.below(3000)); }
    if (!finish(p)) return;
    crashCheck(p);
    if (!WIFEXITED(p.status)) return;
    int code = WEXITSTATUS(p.status);
    if (code != want) viol("adapter-exit", "exit status %d instead of %d for case %d; output: %s %s", code, want, kind, quoteBytes(p.out, 200).c_str(), quoteBytes(p.err, 300).c_str());
    if (want == 1 && kind != 1 && p.err.find(needle) == string::npos) viol("adapter-message", "the error message %s does not mention %s", quoteBytes(p.err, 300).c_str(), quoteBytes(needle).c_str());
    if (!shown.empty() && p.err.find(shown) == string::npos) viol("adapter-message", "the error message %s does not contain %s", quoteBytes(p.err, 300).c_str(), quoteBytes(shown).c_str());
    if (kind <= 3 && (p.opened || p.spawned)) viol("adapter-usage", "a session was opened although the arguments ask for none (case %d)", kind);
    if ((kind == 1 || kind == 2) && (p.out + p.err).find("Usage") == string::npos) viol("adapter-message", "no usage text: %s", quoteBytes(p.out, 200).c_str());
    if (kind == 3 && p.out.find("winpty version") == string::npos) viol("adapter-message", "no version: %s", quoteBytes(p.out, 200).c_str());
    if (wantSpawn != p.spawned) viol("adapter-spawn", "the child was %sstarted in case %d", p.spawned ? "" : "not ", kind);
    if (p.o.tty) { termios t; tcgetattr(p.slave, &t); if (!modesEqual(t, p.before)) viol("terminal-modes", "the terminal modes are changed after a failed start (case %d)", kind); }
}

// ---- --showkey
static void scnShowKey(uint64_t seed) {
    Rnd r(seed);
    Proc p; p.o.tty = true; p.o.argv = {"--showkey"}; p.o.noise = 0.05; p.o.env["AD_EINTR"] = "0";
    start(p, seed);
    double t0 = now(); bool stop = false;
    termios t;
    while (true) { tcgetattr(p.slave, &t); drain(p.master, p.out); reap(p); if (!(t.c_lflag & ICANON) || p.exited) break; usleep(200); tick("waiting for raw mode", t0, 20, stop); if (stop) return; }
    usleep(2000);       // the switch discards what was typed before it
    string sent; int n = r.range(1, 60);
    for (int i = 0; i < n; i++) { unsigned char c = r.chance(0.5) ? r.range(1, 255) : r.range(32, 126); if (c == 4) c = 5; sent += (char)c; }
    size_t off = 0;
    auto shown = [&] { size_t k = 0, pos = 0; while ((pos = p.out.find(" 0x", pos)) != string::npos) { k++; pos += 3; } return k; };
    t0 = now();
    while (shown() < sent.size() && !stop) {
        if (off < sent.size() && r.chance(0.3)) { size_t k = 1 + r.below(10); k = std::min(k, sent.size() - off); ssize_t w = write(p.master, sent.data() + off, k); if (w > 0) off += w; }
        if (!drain(p.master, p.out)) usleep(300);
        reap(p); if (p.exited) break;
        tick("waiting for the keys to be shown", t0, 20, stop);
    }
    if (stop) return;
    usleep(3000);
    if (write(p.master, "\x04", 1) != 1) {}
    if (!finish(p)) return;
    crashCheck(p);
    vector<int> got; size_t pos = 0;
    while ((pos = p.out.find(" 0x", pos)) != string::npos) { got.push_back(strtol(p.out.c_str() + pos + 1, 0, 16)); pos += 3; }
    sent += '\x04';
    bool same = got.size() == sent.size();
    for (size_t i = 0; same && i < got.size(); i++) same = got[i] == (unsigned char)sent[i];
    if (!same) viol("adapter-showkey", "%zu bytes were shown, %zu typed: %s", got.size(), sent.size(), quoteBytes(p.out, 400).c_str());
    if (p.exited && p.status != 0) viol("adapter-exit", "--showkey ends with status %d", p.status);
    tcgetattr(p.slave, &t);
    if (!modesEqual(t, p.before)) viol("terminal-modes", "the terminal modes are not restored by --showkey");
    count("keys.shown", got.size());
}

// ---- relaying
struct Flow {           // one direction
    uint64_t seed, total, sent = 0, got = 0; bool bad = false; double until = 0; int maxW, maxR; double pStall; string name; double last;
    uint8_t at(uint64_t i) const { return pattern(seed, i); }
};
static void take(Flow &f, const char *b, size_t n, bool anyAfter = false) {
    for (size_t i = 0; i < n && !f.bad; i++) {
        uint8_t want = f.at(f.got + i);
        if (f.got + i >= f.sent || (uint8_t)b[i] != want) {
            f.bad = true;
            viol(("relay-" + f.name).c_str(), "byte %llu of %llu is 0x%02x instead of 0x%02x (%llu had been sent); what follows: %s", (unsigned long long)(f.got + i), (unsigned long long)f.total, (uint8_t)b[i], want, (unsigned long long)f.sent,
                 quoteBytes(string(b + i, std::min<size_t>(n - i, 40))).c_str());
        }
    }
    f.got += n; f.last = now(); mix(n * 31 + f.name[0]);
    count(("bytes." + f.name).c_str(), n);
}
static void scnRelay(uint64_t seed, bool tty, bool conerr) {
    Rnd r(seed);
    Proc p;
    string prog = touch(gScratch + "/prog.exe", 0755);
    p.o.tty = tty; p.o.conerr = conerr; p.o.errTty = conerr && tty;
    p.o.noise = r.chance(0.3) ? 0 : r.chance(0.5) ? 0.02 : 0.15;
    int end = r.below(tty ? 3 : 2);             // 0: the child exits, 1: the input pipe breaks / the input ends, 2: the terminal is closed
    p.o.nohup = end == 2;
    Options opt = anyOptions(r, tty);
    if (conerr) { opt.argv.push_back("-Xconerr"); opt.conerr = true; if (!tty) {} }
    p.o.argv = opt.argv; p.o.argv.push_back(prog); p.o.argv.push_back("x y");
    bool zero = tty && r.chance(0.1);
    p.o.cols = zero ? 0 : r.range(1, 300); p.o.rows = zero && r.chance(0.7) ? 0 : r.range(1, 100);
    if (tty) p.o.modes = [&](termios &t) {
        for (tcflag_t f : {(tcflag_t)ICRNL, (tcflag_t)IXON, (tcflag_t)ISTRIP, (tcflag_t)INPCK, (tcflag_t)BRKINT}) { if (r.chance(0.3)) t.c_iflag ^= f; }
        for (tcflag_t f : {(tcflag_t)ECHO, (tcflag_t)ICANON, (tcflag_t)ISIG, (tcflag_t)IEXTEN, (tcflag_t)ECHOE}) { if (r.chance(0.2)) t.c_lflag ^= f; }
        if (r.chance(0.3)) t.c_oflag ^= ONLCR;
        if (r.chance(0.2)) t.c_cflag = (t.c_cflag & ~CSIZE) | CS7 | PARENB;
        t.c_lflag |= ICANON; t.c_oflag |= OPOST;        // so that the switch can be seen
        if (r.chance(0.3)) { t.c_cc[VMIN] = r.below(5); t.c_cc[VTIME] = r.below(3); }
    };
    int code = r.below(256);
    p.o.env["AD_EXIT"] = std::to_string(code);
    if (r.chance(0.4)) p.o.env["AD_EINTR"] = "0";
    std::pair<int, int> cur = {p.o.cols, p.o.rows};
    std::set<std::pair<int, int>> known;
    if (cur.first > 0 && cur.second > 0) known.insert(cur); else cur = {0, 0};
    bool sawZero = p.o.cols <= 0 || p.o.rows <= 0;
    std::pair<int, int> before;
    auto resize = [&] {
        int c = r.range(1, 300), w = r.range(1, 120);
        if (r.chance(0.2)) c = cur.first; else if (r.chance(0.2)) w = cur.second;      // one of the two, and back again
        if (r.chance(0.3) && before.first) { c = before.first; w = before.second; }
        before = cur;
        if (r.chance(0.05)) { c = 0; if (r.chance(0.5)) w = 0; }
        if (r.chance(0.05)) c = r.range(1, 65535);
        setSize(p.master, c, w); count("resizes.made"); mix(c * 1000 + w);
        if (c > 0 && w > 0) known.insert({c, w}); else sawZero = true;
        cur = {c, w};
    };
    start(p, seed);
    // until the terminal has been switched to raw mode
    double t0 = now(); bool stop = false, early = tty && r.chance(0.5), sawOpen = false;
    while (tty) {
        readLog(p); reap(p);
        if (p.exited) break;
        if (early && p.opened && !sawOpen) { sawOpen = true; int n = r.range(1, 4); for (int i = 0; i < n; i++) resize(); count("resizes.early"); }
        else if (early && r.chance(0.1)) resize();
        termios t; tcgetattr(p.slave, &t);
        bool ready = !(t.c_lflag & ICANON) && !(t.c_oflag & OPOST);
        if (ready && conerr) { tcgetattr(p.errSlave, &t); ready = !(t.c_oflag & OPOST); }
        if (ready) break;
        usleep(300);
        tick("waiting for raw mode", t0, 25, stop);
        if (stop) return;
    }
    if (tty) usleep(1500);
    for (t0 = now(); !tty && !p.spawned;) {
        readLog(p); reap(p);
        if (p.exited) break;
        usleep(300);
        tick("waiting for the child to be started", t0, 25, stop);
        if (stop) return;
    }
    auto size = [&] { return r.chance(0.2) ? r.below(10) : r.chance(0.6) ? r.below(20000) : r.below(300000); };
    Flow in{seed * 7 + 1, size(), 0, 0}, out{seed * 7 + 2, size(), 0, 0}, er{seed * 7 + 3, conerr ? size() : 0, 0, 0};
    in.name = "input"; out.name = "output"; er.name = "error";
    for (Flow *f : {&in, &out, &er}) { f->maxW = r.chance(0.3) ? r.range(1, 40) : r.range(1, 9000); f->maxR = r.chance(0.3) ? r.range(1, 40) : r.range(1, 9000); f->pStall = r.chance(0.5) ? 0 : 0.02; f->last = now(); }
    for (Flow *f : {&in, &out, &er}) if (f->maxW < 100 || f->maxR < 100) f->total = std::min<uint64_t>(f->total, 6000);
    // one direction may be blocked altogether until the others are through
    int blocked = r.chance(0.3) ? (int)r.below(2) : -1;
    static vector<char> buf(1 << 16);
    bool silent = early && r.chance(0.5);        // nothing after the start wakes the main thread
    int sigs = silent ? 0 : r.below(30), toResize = tty && !silent ? (int)r.below(12) : 0;
    double started = now();
    auto step = [&](Flow &f, int wfd, int rfd, bool sock, bool holdRead) {
        bool any = false;
        double t = now();
        if (f.until > t) return false;
        if (f.pStall && r.chance(f.pStall)) { f.until = t + r.below(4000) / 1e6; return false; }
        if (wfd >= 0 && f.sent < f.total) {
            size_t n = std::min<uint64_t>(f.total - f.sent, 1 + r.below(f.maxW));
            for (size_t i = 0; i < n; i++) buf[i] = f.at(f.sent + i);
            ssize_t k = sock ? send(wfd, buf.data(), n, MSG_NOSIGNAL) : write(wfd, buf.data(), n);
            if (k > 0) { f.sent += k; any = true; }
        }
        if (rfd >= 0 && !holdRead) {
            ssize_t k = read(rfd, buf.data(), 1 + r.below(f.maxR));
            if (k > 0) { take(f, buf.data(), k); any = true; }
        }
        return any;
    };
    while (true) {
        readLog(p); reap(p);
        if (p.exited) { viol("adapter-end", "the adapter ended by itself (status 0x%x) after %llu of %llu input and %llu of %llu output bytes; it wrote: %s", p.status, (unsigned long long)in.got, (unsigned long long)in.total, (unsigned long long)out.got, (unsigned long long)out.total, quoteBytes(p.err, 300).c_str()); crashCheck(p); return; }
        bool outDone = out.got >= out.total && er.got >= er.total, inDone = in.got >= in.total;
        bool holdIn = blocked == 0 && !outDone, holdOut = blocked == 1 && !inDone;
        if ((holdIn && in.sent > 20000) || (holdOut && out.sent > 20000)) count("blocked.direction");
        bool any = step(in, tty ? p.master : p.inW, p.conin, false, holdIn);
        any |= step(out, p.conout, tty ? p.master : p.outR, true, holdOut);
        if (conerr) any |= step(er, p.conerr, tty ? p.errMaster : p.errR, true, false);
        if (toResize && r.chance(0.02)) { toResize--; resize(); any = true; }
        if (sigs && r.chance(0.05)) { sigs--; kill(p.pid, SIGWINCH); count("signals"); }
        if (inDone && outDone && !toResize) break;
        if (any) { t0 = now(); continue; }
        if (inDone && outDone) { toResize--; resize(); }
        usleep(r.below(300));
        char w[200]; snprintf(w, sizeof w, "relaying (input %llu/%llu/%llu, output %llu/%llu/%llu, error %llu/%llu)", (unsigned long long)in.got, (unsigned long long)in.sent, (unsigned long long)in.total, (unsigned long long)out.got, (unsigned long long)out.sent, (unsigned long long)out.total, (unsigned long long)er.got, (unsigned long long)er.total);
        tick(w, std::max(t0, started), 20, stop);
        if (stop) return;
    }
    // the last size must arrive
    if (tty) {
        t0 = now();
        if (!silent && r.chance(0.5)) resize();
        while (cur.first > 0 && cur.second > 0 && !(p.sizes.size() && p.sizes.back() == cur)) {
            readLog(p); reap(p);
            if (p.exited) break;
            usleep(300);
            if (gNudge && r.chance(0.005)) kill(p.pid, SIGWINCH);
            char w[200]; snprintf(w, sizeof w, "waiting for the size %dx%d to be passed on; the last one is %dx%d of %zu", cur.first, cur.second, p.sizes.empty() ? 0 : p.sizes.back().first, p.sizes.empty() ? 0 : p.sizes.back().second, p.sizes.size());
            tick(w, t0, 15, stop);
            if (stop) return;
        }
        count("sizes.settled");
        for (size_t i = 0; i < p.sizes.size(); i++) if (!known.count(p.sizes[i]) && !(i == 0 && sawZero)) viol("adapter-size", "the size %dx%d passed to the library was never the terminal's", p.sizes[i].first, p.sizes[i].second);
    }
    if (p.freed) viol("adapter-end", "the session was freed while everything was connected");
    checkOpen(p, opt, 0, 0);
    checkCommand(p, prog, {"x y"});
    // the end
    uint64_t extra = r.chance(0.5) ? r.below(60000) : r.below(100);
    if (end == 0) {
        // the child writes its last words; everything must still reach the terminal
        out.total += extra; if (conerr && r.chance(0.5)) er.total += r.below(30000);
        t0 = now();
        while (out.sent < out.total || er.sent < er.total) {
            bool any = step(out, p.conout, tty ? p.master : p.outR, true, false);
            if (conerr) any |= step(er, p.conerr, tty ? p.errMaster : p.errR, true, false);
            readLog(p);
            if (any) t0 = now(); else { usleep(200); tick("sending the last output", t0, 20, stop); if (stop) return; }
        }
        close(p.conout); p.conout = -1; close(p.conerr); p.conerr = -1;
        int storm = r.below(10);
        for (int i = 0; i < storm; i++) { kill(p.pid, SIGWINCH); usleep(r.below(200)); }
    } else if (end == 1 && tty) {
        shutdown(p.conin, SHUT_RDWR); close(p.conin); p.conin = -1;
        usleep(r.below(3000));
        if (write(p.master, "z", 1) != 1) {}
    } else if (end == 1) {
        close(p.inW); p.inW = -1;
    } else {
        close(p.master); p.master = -1;
    }
    // wait for the exit
    t0 = now();
    while (true) {
        readLog(p); reap(p);
        bool any = false;
        int rf = tty ? p.master : p.outR, ef = tty ? p.errMaster : p.errR;
        ssize_t k;
        if (rf >= 0 && (k = read(rf, buf.data(), buf.size())) > 0) { take(out, buf.data(), k); any = true; }
        if (conerr && end != 2 && ef >= 0 && (k = read(ef, buf.data(), buf.size())) > 0) { take(er, buf.data(), k); any = true; }
        if (p.conin >= 0 && (k = read(p.conin, buf.data(), buf.size())) > 0) { take(in, buf.data(), k); any = true; }
        if (!p.o.errTty) if (!(conerr && !tty)) any |= drain(p.errR, p.err);
        if (any) { t0 = now(); continue; }
        if (p.exited) break;
        usleep(300);
        char w[100]; snprintf(w, sizeof w, "waiting for the adapter to end (way %d)", end);
        tick(w, t0, 20, stop);
        if (stop) return;
    }
    readLog(p);
    crashCheck(p);
    if (!WIFEXITED(p.status)) return;
    count(end == 0 ? "ends.child" : end == 1 ? "ends.input" : "ends.terminal");
    if (end == 0 && (out.got != out.total || er.got != er.total)) viol("relay-output", "%llu of %llu output and %llu of %llu error bytes had arrived when the adapter ended", (unsigned long long)out.got, (unsigned long long)out.total, (unsigned long long)er.got, (unsigned long long)er.total);
    int want = end == 2 ? -1 : code;
    if (want >= 0 && WEXITSTATUS(p.status) != want) viol("adapter-exit", "exit status %d, the child's was %d (way %d); it wrote: %s", WEXITSTATUS(p.status), want, end, quoteBytes(p.err, 300).c_str());
    if (!p.freed) viol("adapter-end", "the session was not freed");
    for (const char *n : {"closed conin", "closed conout", "closed process"}) { bool has = false; for (auto &e : p.events) has |= e == n; if (!has && end != 2) viol("adapter-end", "at the end: no event '%s'", n); }
    if (tty && end != 2) {
        termios t; tcgetattr(p.slave, &t);
        if (!modesEqual(t, p.before)) viol("terminal-modes", "the terminal modes are not restored at the end");
        if (p.o.errTty) { tcgetattr(p.errSlave, &t); if (!modesEqual(t, p.errBefore)) viol("terminal-modes", "the modes of the error terminal are not restored"); }
        count("modes.restored");
    }
    if (p.coninData.size()) {}
    for (auto &s : p.sizes) if (s.first <= 0 || s.second <= 0) viol("adapter-size", "a size of %dx%d was passed", s.first, s.second);
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    signal(SIGPIPE, SIG_IGN);
    setvbuf(stdout, 0, _IOLBF, 0);
    gDir = argv[1]; gScenario = argv[2];
    uint64_t first = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10);
    for (int i = 5; i < argc; i++) if (!strcmp(argv[i], "tsan=1")) gNudge = true;
    char tmp[] = "/tmp/vr-adapter-XXXXXX";
    if (!mkdtemp(tmp)) { printf("HARNESS mkdtemp\n"); return 2; }
    gScratch = tmp;
    string stop;
    for (int i = 5; i < argc; i++) if (!strncmp(argv[i], "stop=", 5)) stop = argv[i] + 5;
    for (uint64_t s = first; s < first + n; s++) {
        if (!stop.empty() && !access(stop.c_str(), F_OK)) break;
        gStats.clear(); gHash = 0; gViol = 0; gSlow = false;
        printf("BEGIN %s %llu\n", gScenario.c_str(), (unsigned long long)s);
        if (gScenario == "adargs") scnArgs(s);
        else if (gScenario == "adstart") scnStart(s);
        else if (gScenario == "adkeys") scnShowKey(s);
        else if (gScenario == "adrelay") scnRelay(s, true, false);
        else if (gScenario == "adrelayerr") scnRelay(s, true, true);
        else if (gScenario == "adpipes") scnRelay(s, false, s % 3 == 0);
        else { printf("HARNESS unknown scenario\n"); return 2; }
        sanitizer();
        if (gHash) gStats["native.hash"] = 1;
        for (auto &kv : gStats) printf("STAT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
        printf("HASH %016llx\n", (unsigned long long)gHash);
        if (gSlow && !gViol) printf("END %llu TIMEOUT\n", (unsigned long long)s); else printf("END %llu EXIT %d\n", (unsigned long long)s, gViol ? 1 : 0);
        fflush(stdout);
        if (gSlow && !gViol) break;
    }
    rmTree(gScratch);
    return 0;
}
