// The API called with every form of argument, its outputs checked; and agents that answer as the scenario likes.
#pragma once
#include "wire.h"
using namespace sim;

namespace {
winpty_error_ptr_t kJunkErr = (winpty_error_ptr_t)0xDEADBEEF0ull;
HANDLE kJunkH = (HANDLE)0xABCDEF0ull;

struct Outcome { bool ok = false; ErrRec e; uint64_t t0 = 0, t1 = 0; HANDLE p = nullptr, t = nullptr; DWORD cp = 0; int n = 0; std::vector<int> list; bool hadErr = true; };
// Error objects: checked in full, then freed.
void judge(const char *what, Outcome &o, bool wantErr, winpty_error_ptr_t e) {
    o.t1 = g->nowUs; o.hadErr = wantErr;
    if (!wantErr) return;
    if (e == kJunkErr) { violation("api-contract", "%s %s but left the caller's error pointer as it was", what, o.ok ? "succeeded" : "failed"); return; }
    if (o.ok && e) { violation("api-contract", "%s succeeded but set an error object", what); return; }
    if (!o.ok && !e) { violation("api-contract", "%s failed without an error object", what); return; }
    if (e) {
        o.e = takeErr(e); stat("errors.checked");
        if (o.e.code == 0) violation("api-contract", "%s failed with an error object whose code is WINPTY_ERROR_SUCCESS", what);
        if (o.e.code > 8) violation("api-contract", "%s failed with the undocumented error code %u", what, (unsigned)o.e.code);
        if (o.e.msg.empty()) violation("api-contract", "%s failed with an empty message", what);
    }
}
struct Cfg { UINT64 flags = 0; int cols = 80, rows = 25, mouse = 1; DWORD timeout = 30000; bool setSize = true; };
winpty_t *doOpen(const Cfg &c, bool wantErr, Outcome &o) {
    winpty_error_ptr_t e = kJunkErr;
    auto cfg = api.config_new(c.flags, wantErr ? &e : nullptr);
    if (!cfg) { judge("winpty_config_new", o, wantErr, e); return nullptr; }
    if (wantErr && e) violation("api-contract", "winpty_config_new succeeded but set an error object");
    if (c.setSize) api.config_set_initial_size(cfg, c.cols, c.rows);
    api.config_set_mouse_mode(cfg, c.mouse); api.config_set_agent_timeout(cfg, c.timeout);
    e = kJunkErr; o = Outcome(); o.t0 = g->nowUs;
    winpty_t *wp = api.open(cfg, wantErr ? &e : nullptr);
    o.ok = wp != nullptr; judge("winpty_open", o, wantErr, e);
    api.config_free(cfg);
    return wp;
}
struct SpawnArgs { UINT64 flags = 1; bool hasApp = true, hasCmd = false, hasCwd = false, hasEnv = false; ustr app = u"C:\\bin\\child.exe", cmd, cwd, env; bool wantP = false, wantT = false, wantCp = true, wantErr = true; };
Outcome doSpawn(winpty_t *wp, const SpawnArgs &a) {
    Outcome o; winpty_error_ptr_t e = kJunkErr;
    winpty_spawn_config_t *sc;
    { ustr app = a.app, cmd = a.cmd, cwd = a.cwd, env = a.env;      // the strings need not outlive this call
      sc = api.spawn_config_new(a.flags, a.hasApp ? P(app) : nullptr, a.hasCmd ? P(cmd) : nullptr, a.hasCwd ? P(cwd) : nullptr, a.hasEnv ? P(env) : nullptr, a.wantErr ? &e : nullptr);
      if (sc && a.wantErr && e) violation("api-contract", "winpty_spawn_config_new succeeded but set an error object");
      if (!sc) { judge("winpty_spawn_config_new", o, a.wantErr, e); return o; }
      for (auto s : {&app, &cmd, &cwd, &env}) for (auto &c : *s) c = u'!'; }
    HANDLE p = kJunkH, t = kJunkH; DWORD cp = 0x7777;
    e = kJunkErr; o.t0 = g->nowUs;
    BOOL ok = api.spawn(wp, sc, a.wantP ? &p : nullptr, a.wantT ? &t : nullptr, a.wantCp ? &cp : nullptr, a.wantErr ? &e : nullptr);
    o.ok = ok != FALSE;
    judge("winpty_spawn", o, a.wantErr, e);
    api.spawn_config_free(sc);
    if (a.wantP) { if (p == kJunkH) violation("api-contract", "winpty_spawn (%s) left *process_handle as it was", ok ? "ok" : "failed"); else if (!ok && p) violation("api-contract", "winpty_spawn failed but set a process handle"); else o.p = p; }
    if (a.wantT) { if (t == kJunkH) violation("api-contract", "winpty_spawn (%s) left *thread_handle as it was", ok ? "ok" : "failed"); else if (!ok && t) violation("api-contract", "winpty_spawn failed but set a thread handle"); else o.t = t; }
    if (a.wantCp) { o.cp = cp; if (cp == 0x7777) violation("api-contract", "winpty_spawn (%s) left *create_process_error as it was", ok ? "ok" : "failed");
        if (ok && cp) violation("api-contract", "winpty_spawn succeeded but set create_process_error to %u", (unsigned)cp);
        if (!ok && a.wantErr && (o.e.code == WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED) != (cp != 0)) violation("api-contract", "winpty_spawn failed with code %u and create_process_error %u", (unsigned)o.e.code, (unsigned)cp); }
    stat("api.calls");
    return o;
}
Outcome doSize(winpty_t *wp, int c, int r, bool wantErr) {
    Outcome o; winpty_error_ptr_t e = kJunkErr; o.t0 = g->nowUs;
    o.ok = api.set_size(wp, c, r, wantErr ? &e : nullptr) != FALSE; judge("winpty_set_size", o, wantErr, e); stat("api.calls"); return o;
}
Outcome doList(winpty_t *wp, int cap, bool wantErr) {
    Outcome o; winpty_error_ptr_t e = kJunkErr; std::vector<int> v(cap + 4, (int)0xA5A5A5A5); o.t0 = g->nowUs;
    o.n = api.get_console_process_list(wp, v.data() + 2, cap, wantErr ? &e : nullptr); o.ok = wantErr ? e == nullptr : o.n > 0;
    judge("winpty_get_console_process_list", o, wantErr, e); stat("api.calls");
    if (wantErr && !o.ok && o.n != 0) violation("api-contract", "winpty_get_console_process_list set an error but returned %d", o.n);
    if (o.ok && o.n < 0) violation("api-contract", "winpty_get_console_process_list succeeded and returned %d", o.n);
    int limit = o.ok && o.n <= cap ? std::max(0, o.n) : o.ok ? 0 : cap;
    for (int i = 0; i < cap + 4; i++) if (v[i] != (int)0xA5A5A5A5 && (i < 2 || i >= 2 + limit)) { violation("api-contract", "winpty_get_console_process_list(capacity %d) = %d wrote element %d of the caller's array", cap, o.n, i - 2); break; }
    for (int i = 0; i < limit; i++) o.list.push_back(v[i + 2]);
    return o;
}
void miscNull() {
    // documented as always safe
    if (api.error_code(nullptr) != 0) violation("api-contract", "winpty_error_code(NULL) is not WINPTY_ERROR_SUCCESS");
    LPCWSTR m = api.error_msg(nullptr); if (!m || !*m) violation("api-contract", "winpty_error_msg(NULL) is empty");
    api.error_free(nullptr); api.config_free(nullptr); api.spawn_config_free(nullptr); api.free(nullptr);
}
size_t procHandles(Process *p) { size_t n = 0; for (auto &kv : p->handles) if (kv.second.obj->type == OT::Process || kv.second.obj->type == OT::Thread) n++; return n; }
UINT64 anyFlags(Rng &r) { return (r.chance(0.3) ? 1 : 0) | (r.chance(0.3) ? 2 : 0) | (r.chance(0.3) ? 4 : 0) | (r.chance(0.3) ? 8 : 0); }
ustr anyText(Rng &r, int n) { ustr s; for (int i = 0; i < n; i++) s.push_back(r.chance(0.8) ? (char16_t)r.range(0x20, 0x7e) : (char16_t)r.range(1, 0xFFFF)); return s; }

// ---- agents that answer as the scenario likes -----------------------------------------------------------------
enum After { Stay, Exit };
struct Fake {
    Rng r; std::string stream; After after = Stay; bool gone = false; uint64_t lastActive = 0; uint64_t goneAt = 0; int phase = 0;
    std::vector<std::string> plan; size_t next = 0; std::vector<After> then; bool fragment = false; int gap = 0;
    std::vector<Request> reqs; Process *proc = nullptr; std::vector<HANDLE> mine; std::vector<int64_t> handleValues;
    Fake(uint64_t s) : r(s) {}
};
std::string validOpen(const ustr &a, const ustr &b, bool hasErr, const ustr &c) { Wire w; w.str(a).str(b); if (hasErr) w.str(c); return w.packet(); }
std::string fixSize(std::string s) { uint64_t n = s.size(); if (n >= 8) memcpy(&s[0], &n, 8); return s; }
std::string mutate(Rng &r, std::string s) {
    switch (r.below(10)) {
    case 0: { size_t i = 8 + r.below((uint32_t)std::max<size_t>(1, s.size() - 8)); if (i < s.size()) s[i] = (char)r.below(256); return s; }
    case 1: return fixSize(s.substr(0, 8 + r.below((uint32_t)(s.size() - 7))));
    case 2: { int k = r.range(1, 30); for (int i = 0; i < k; i++) s.push_back((char)r.below(4)); return fixSize(s); }
    case 3: { uint64_t n = r.below(8); memcpy(&s[0], &n, 8); return s; }
    case 4: { uint64_t n = s.size() + r.range(1, 5000); memcpy(&s[0], &n, 8); return s; }
    case 5: { static const uint64_t big[] = {1ull << 63, ~0ull, ~0ull - 7, 1ull << 40, 1ull << 33, 0x7fffffffffffffffull, 0x100000008ull}; uint64_t n = big[r.below(7)]; memcpy(&s[0], &n, 8); return s; }
    case 6: return fixSize(s + s.substr(8));
    case 7: { if (s.size() > 17) { uint64_t n = r.chance(0.5) ? ~0ull >> r.below(40) : r.next(); for (size_t i = 8; i + 9 <= s.size(); i++) if (s[i] == 2) { memcpy(&s[i + 1], &n, 8); break; } } return s; }
    case 8: return s.substr(0, r.below((uint32_t)s.size() + 1));
    default: { Wire w; int k = r.below(5); for (int i = 0; i < k; i++) switch (r.below(3)) { case 0: w.i32((int)r.next()); break; case 1: w.i64((int64_t)r.next()); break; default: w.str(anyText(r, r.below(6))); } return w.packet(); }
    }
}
// What the caller must see: 0 ok, 1 malformed, 2 short (the reply never becomes complete)
int takePacket(std::string &stream, std::string &payload) {
    uint64_t n; if (stream.size() < 8) return 2;
    memcpy(&n, stream.data(), 8);
    if (n < 8) return 1;
    if (n - 8 > (1u << 28)) return 1;
    if (stream.size() < n) return 2;
    payload = stream.substr(8, n - 8); stream.erase(0, n); return 0;
}
void serve(Fake &f, bool desktop) {
    FakeAgent a;
    if (!a.connect()) return;
    if (a.desktopAgent != desktop) violation("agent-cmdline", "unexpected agent arguments");
    size_t i = 0;
    auto reply = [&](const std::string &s, After th) { f.stream += s; a.send(s, f.r, f.fragment, f.gap); f.lastActive = g->nowUs; return th == Stay; };
    bool stay = reply(f.plan[0], f.then[0]); i = 1;
    while (stay) {
        std::string p; if (!a.read(p)) break;
        f.lastActive = g->nowUs;
        f.reqs.push_back(parseRequest(p));
        if (!f.reqs.back().ok) violation("request-format", "the library sent a request that does not parse (%zu bytes)", p.size());
        if (i >= f.plan.size()) continue;                     // silent from here on
        stay = reply(f.plan[i], f.then[i]); i++;
    }
    f.gone = true; f.goneAt = g->nowUs;
}
}
