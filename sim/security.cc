// SIDs, ACLs, security descriptors and tokens of the simulated system.
#include "console.h"
#include <aclapi.h>

namespace sim {
static Process *me() { return g->cur->proc; }
extern "C" void *LocalAlloc_impl(size_t n, UINT f);

static std::string sidStr(PSID p) {
    SID *s = (SID*)p; if (!s || s->SubAuthorityCount > 15) return "?";
    uint64_t a = 0; for (int i = 0; i < 6; i++) a = a << 8 | s->IdentifierAuthority.Value[i];
    char b[64]; snprintf(b, sizeof b, "S-%d-%llu", s->Revision, (unsigned long long)a); std::string r = b;
    for (int i = 0; i < s->SubAuthorityCount; i++) { snprintf(b, sizeof b, "-%u", (unsigned)s->SubAuthority[i]); r += b; }
    return r;
}
static std::string sidBytes(const std::string &str) {
    std::vector<uint64_t> v; const char *p = str.c_str() + 2; char *e;
    for (;;) { v.push_back(strtoull(p, &e, 10)); if (*e != '-') break; p = e + 1; }
    std::string r; r += (char)v[0]; r += (char)(v.size() - 2);
    for (int i = 5; i >= 0; i--) r += (char)(v[1] >> (8 * i));
    for (size_t i = 2; i < v.size(); i++) { uint32_t x = (uint32_t)v[i]; r.append((char*)&x, 4); }
    return r;
}
static size_t sidLen(PSID p) { return 8 + 4 * (size_t)((SID*)p)->SubAuthorityCount; }

static const uint32_t kSdMagic = 0x5D5D0001;
struct FakeSd { BYTE rev, sbz; WORD control; uint32_t magic; PACL dacl; BYTE hasDacl; };   // fits SECURITY_DESCRIPTOR_MIN_LENGTH (40)

static void readAcl(PACL a, std::vector<std::pair<std::string, DWORD>> &out) {
    if (!a) return;
    char *p = (char*)(a + 1);
    for (int i = 0; i < a->AceCount; i++) {
        ACCESS_ALLOWED_ACE *e = (ACCESS_ALLOWED_ACE*)p;
        out.push_back({(e->Header.AceType == 0 ? "" : "deny:") + sidStr((PSID)&e->SidStart), e->Mask});
        p += e->Header.AceSize;
    }
}
void secRead(void *sd, PipeInfo &i) {
    FakeSd *s = (FakeSd*)sd;
    if (s->magic != kSdMagic) { violation("bad-sd", "security descriptor passed to CreateNamedPipe was not initialised"); return; }
    i.hasDacl = s->hasDacl && s->dacl; i.dacl.clear(); i.nullDacl = s->hasDacl && !s->dacl;
    if (s->hasDacl) readAcl(s->dacl, i.dacl);
}
bool secCheck(const PipeInfo &i, Process *p, DWORD access) {
    if (!i.hasSd) return p->owner == "S-1-5-21-1000" || p->owner == "S-1-5-18";
    if (!i.hasDacl) return i.nullDacl;
    DWORD want = 0;
    if (access & GENERIC_READ) want |= 0x1; if (access & GENERIC_WRITE) want |= 0x2;
    DWORD have = 0;
    for (auto &e : i.dacl) {
        DWORD m = e.second; if (m & GENERIC_ALL) m |= 0x1F01FF; if (m & GENERIC_READ) m |= 1; if (m & GENERIC_WRITE) m |= 2;
        if (e.first == p->owner || e.first == "S-1-1-0") have |= m;
    }
    return (have & want) == want;
}
} // namespace sim
using namespace sim;
extern "C" {
struct TokenObj : Object { TokenObj() : Object(OT::Token) {} };
BOOL OpenThreadToken(HANDLE, DWORD, BOOL, HANDLE *) { API("OpenThreadToken"); if (fault("OpenThreadToken")) return FALSE; setErr(ERROR_NO_TOKEN); return FALSE; }
BOOL OpenProcessToken(HANDLE, DWORD acc, HANDLE *out) { API("OpenProcessToken"); if (fault("OpenProcessToken")) return FALSE; *out = me()->add(std::make_shared<TokenObj>(), acc, "OpenProcessToken"); return TRUE; }
BOOL GetTokenInformation(HANDLE h, TOKEN_INFORMATION_CLASS cls, void *buf, DWORD len, DWORD *actual) {
    API("GetTokenInformation");
    ObjP o = me()->get(h);
    if (!o || o->type != OT::Token) { violation("bad-handle", "GetTokenInformation with an invalid token"); setErr(ERROR_INVALID_HANDLE); return FALSE; }
    if (fault("GetTokenInformation")) return FALSE;
    std::string sid = sidBytes(me()->owner);
    if (cls == TokenUser) {
        DWORD need = (DWORD)(sizeof(TOKEN_USER) + sid.size()); *actual = need;
        if (len < need) { setErr(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
        TOKEN_USER u; memset(&u, 0, sizeof u); u.User.Sid = (char*)buf + sizeof u; memcpy(buf, &u, sizeof u); memcpy((char*)buf + sizeof u, sid.data(), sid.size()); return TRUE;
    }
    DWORD need = (DWORD)(sizeof(TOKEN_OWNER) + sid.size()); *actual = need;
    if (len < need) { setErr(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
    TOKEN_OWNER t; t.Owner = (char*)buf + sizeof t; memcpy(buf, &t, sizeof t); memcpy((char*)buf + sizeof t, sid.data(), sid.size()); return TRUE;
}
BOOL AllocateAndInitializeSid(SID_IDENTIFIER_AUTHORITY *a, BYTE n, DWORD s0, DWORD s1, DWORD s2, DWORD s3, DWORD s4, DWORD s5, DWORD s6, DWORD s7, PSID *out) {
    API("AllocateAndInitializeSid"); if (fault("AllocateAndInitializeSid")) return FALSE;
    DWORD v[8] = {s0, s1, s2, s3, s4, s5, s6, s7};
    SID *s = (SID*)malloc(8 + 4 * 8); s->Revision = 1; s->SubAuthorityCount = n; s->IdentifierAuthority = *a;
    for (int i = 0; i < n && i < 8; i++) s->SubAuthority[i] = v[i];
    me()->sids.insert(s); *out = s; return TRUE;
}
PVOID FreeSid(PSID s) {
    API("FreeSid");
    if (!me()->sids.erase(s)) { violation("bad-free", "FreeSid of a pointer that is not a live SID"); return s; }
    free(s); return nullptr;
}
DWORD SetEntriesInAclW(ULONG n, EXPLICIT_ACCESSW *e, PACL old, PACL *out) {
    API("SetEntriesInAclW"); if (fault("SetEntriesInAclW")) return getErr();
    (void)old;
    size_t sz = sizeof(ACL); for (ULONG i = 0; i < n; i++) sz += 8 + sidLen((PSID)e[i].Trustee.ptstrName);
    ACL *a = (ACL*)LocalAlloc_impl(sz, LMEM_ZEROINIT); a->AclRevision = 2; a->AclSize = (WORD)sz; a->AceCount = (WORD)n;
    char *p = (char*)(a + 1);
    for (ULONG i = 0; i < n; i++) {
        PSID sid = (PSID)e[i].Trustee.ptstrName;
        ACCESS_ALLOWED_ACE *x = (ACCESS_ALLOWED_ACE*)p; x->Header.AceType = e[i].grfAccessMode == DENY_ACCESS ? 1 : 0; x->Header.AceSize = (WORD)(8 + sidLen(sid)); x->Mask = e[i].grfAccessPermissions;
        memcpy(p + 8, sid, sidLen(sid)); p += 8 + sidLen(sid);
    }
    *out = a; return ERROR_SUCCESS;
}
BOOL InitializeSecurityDescriptor(PSECURITY_DESCRIPTOR sd, DWORD) { API("InitializeSecurityDescriptor"); if (fault("InitializeSecurityDescriptor")) return FALSE; FakeSd *s = (FakeSd*)sd; memset(s, 0, sizeof *s); s->rev = 1; s->magic = kSdMagic; return TRUE; }
BOOL SetSecurityDescriptorDacl(PSECURITY_DESCRIPTOR sd, BOOL present, PACL dacl, BOOL) { API("SetSecurityDescriptorDacl"); if (fault("SetSecurityDescriptorDacl")) return FALSE; FakeSd *s = (FakeSd*)sd; if (s->magic != kSdMagic) { violation("bad-sd", "SetSecurityDescriptorDacl on an uninitialised descriptor"); return FALSE; } s->hasDacl = present != 0; s->dacl = dacl; return TRUE; }
DWORD GetSecurityInfo(HANDLE, SE_OBJECT_TYPE, SECURITY_INFORMATION, PSID *o, PSID *gr, PACL *d, PACL *sa, PSECURITY_DESCRIPTOR *sd) {
    API("GetSecurityInfo"); if (o) *o = nullptr; if (gr) *gr = nullptr; if (sa) *sa = nullptr;
    FakeSd *s = (FakeSd*)LocalAlloc_impl(40, LMEM_ZEROINIT); s->rev = 1; s->magic = kSdMagic; if (d) *d = nullptr; *sd = s; return ERROR_SUCCESS;
}
static LPWSTR dupW(const ustr &s) { char16_t *p = (char16_t*)LocalAlloc_impl((s.size() + 1) * 2, 0); memcpy(p, s.c_str(), (s.size() + 1) * 2); return (LPWSTR)p; }
BOOL ConvertStringSidToSidW_impl(LPCWSTR s, PSID *out) { API("ConvertStringSidToSidW"); std::string b = sidBytes(u8(W((const wchar_t*)s))); *out = LocalAlloc_impl(b.size(), 0); memcpy(*out, b.data(), b.size()); return TRUE; }
BOOL ConvertSidToStringSidW_impl(PSID s, LPWSTR *out) { API("ConvertSidToStringSidW"); *out = dupW(A(sidStr(s).c_str())); return TRUE; }
BOOL ConvertSdToString_impl(PSECURITY_DESCRIPTOR, DWORD, SECURITY_INFORMATION, LPWSTR *out, PULONG) { API("ConvertSdToString"); *out = dupW(u"O:S-1-5-18G:S-1-5-18D:(A;;FA;;;WD)"); return TRUE; }
BOOL EqualSid(PSID a, PSID b) { return sidStr(a) == sidStr(b); }
DWORD GetLengthSid(PSID a) { return (DWORD)sidLen(a); }
BOOL IsValidSid(PSID a) { return a != nullptr; }
BOOL RevertToSelf() { return TRUE; }
BOOL ImpersonateNamedPipeClient(HANDLE) { return TRUE; }
}
