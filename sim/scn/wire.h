// The control pipe's wire format, written independently of the code under test, and agents played by the scenario.
#pragma once
#include "common.h"

namespace sim {

struct Wire {                                  // builds a packet
    std::string s;
    Wire &i32(int32_t v) { s.push_back(0); s.append((char*)&v, 4); return *this; }
    Wire &i64(int64_t v) { s.push_back(1); s.append((char*)&v, 8); return *this; }
    Wire &str(const ustr &u) { s.push_back(2); uint64_t n = u.size(); s.append((char*)&n, 8); s.append((char*)u.data(), u.size() * 2); return *this; }
    std::string packet() const { uint64_t n = s.size() + 8; return std::string((char*)&n, 8) + s; }
};
struct Unwire {                                // takes one apart; ok goes false at the first thing wrong
    std::string s; size_t o = 0; bool ok = true;
    explicit Unwire(const std::string &x) : s(x) {}
    bool take(void *p, size_t n) { if (!ok || s.size() - o < n) { ok = false; return false; } memcpy(p, s.data() + o, n); o += n; return true; }
    bool tag(int t) { char c; if (!take(&c, 1) || c != t) ok = false; return ok; }
    int32_t i32() { int32_t v = 0; if (tag(0)) take(&v, 4); return ok ? v : 0; }
    int64_t i64() { int64_t v = 0; if (tag(1)) take(&v, 8); return ok ? v : 0; }
    ustr str() { uint64_t n = 0; ustr u; if (tag(2) && take(&n, 8)) { if (n > (s.size() - o) / 2) { ok = false; return u; } u.assign((const char16_t*)nullptr, (size_t)0); u.resize(n); if (n) take(&u[0], n * 2); } return u; }
    bool end() { if (o != s.size()) ok = false; return ok; }
};

struct Request { int type = -1; UINT64 flags = 0; int wantP = 0, wantT = 0; ustr app, cmd, cwd, env, desktop; int cols = 0, rows = 0; bool ok = false; uint64_t at = 0; };
inline Request parseRequest(const std::string &payload) {
    Request q; Unwire u(payload); q.type = u.i32();
    if (q.type == 0) { q.flags = (UINT64)u.i64(); q.wantP = u.i32(); q.wantT = u.i32(); q.app = u.str(); q.cmd = u.str(); q.cwd = u.str(); q.env = u.str(); q.desktop = u.str(); }
    else if (q.type == 1) { q.cols = u.i32(); q.rows = u.i32(); }
    else if (q.type != 2) u.ok = false;
    q.ok = u.end(); q.at = g->nowUs;
    return q;
}
// Cuts a byte stream into packets.
struct Packets { std::string buf; std::vector<std::string> all; bool bad = false;
    void add(const std::string &d) { buf += d; for (;;) { uint64_t n; if (buf.size() < 8) return; memcpy(&n, buf.data(), 8); if (n < 8 || n > (1u << 28)) { bad = true; return; } if (buf.size() < n) return; all.push_back(buf.substr(8, n - 8)); buf.erase(0, n); } } };

// An agent process written by the scenario.  `serve` runs in the agent process after it has connected.
struct FakeAgent {
    HANDLE pipe = nullptr; Packets in; std::string pendingIn; uint64_t lastActive = 0; std::vector<ustr> argv; bool desktopAgent = false;
    bool connect() {
        argv = parseCommandLine(g->cur->proc->cmdline);
        if (argv.size() < 2) { violation("agent-cmdline", "the agent was started without a control pipe name"); return false; }
        desktopAgent = argv.size() > 2 && argv[2] == u"--create-desktop";
        pipe = CreateFileW(P(argv[1]), GENERIC_READ | GENERIC_WRITE, 0, nullptr, OPEN_EXISTING, 0, nullptr);
        lastActive = g->nowUs;
        return pipe != INVALID_HANDLE_VALUE;
    }
    bool read(std::string &payload) {          // one request; false when the pipe broke
        size_t k = in.all.size();
        while (in.all.size() == k) { char b[4096]; DWORD n = 0; if (!ReadFile(pipe, b, sizeof b, &n, nullptr)) return false; in.add(std::string(b, n)); if (in.bad) { violation("request-format", "the library sent a packet with an impossible size"); return false; } }
        payload = in.all.back(); lastActive = g->nowUs;
        return true;
    }
    bool send(const std::string &d, Rng &r, bool fragment, int gapMs = 0) {
        size_t o = 0;
        while (o < d.size()) { size_t n = fragment ? 1 + r.below((uint32_t)std::min<size_t>(d.size() - o, 40)) : d.size() - o; DWORD a = 0; if (!WriteFile(pipe, d.data() + o, (DWORD)std::min(n, d.size() - o), &a, nullptr)) return false; o += std::min(n, d.size() - o); lastActive = g->nowUs; if (gapMs && o < d.size()) sleepMs(r.range(0, gapMs)); }
        lastActive = g->nowUs;
        return true;
    }
};

} // namespace sim
