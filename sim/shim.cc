// Linked into each module under test: routes the process-wide services it uses into the simulated kernel.
// Built with -fno-builtin and without sanitizers.
#include <new>
#include <stddef.h>
#include <stdint.h>
#define HID __attribute__((visibility("hidden")))
extern "C" {
void *sim_mod_alloc(size_t n); void sim_mod_free(void *p);
void sim_exit(int) __attribute__((noreturn)); void sim_abort() __attribute__((noreturn));
int sim_guard_acquire(void *g); void sim_guard_release(void *g); void sim_guard_abort(void *g);
typedef wchar_t W;
HID size_t wcslen(const W *s) { size_t n = 0; while (s[n]) n++; return n; }
HID size_t wcsnlen(const W *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
HID int wcscmp(const W *a, const W *b) { while (*a && *a == *b) a++, b++; return (int)*a - (int)*b; }
HID int wcsncmp(const W *a, const W *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b || !*a) return (int)*a - (int)*b; } return 0; }
HID W *wcscpy(W *d, const W *s) { W *r = d; while ((*d++ = *s++)) {} return r; }
HID W *wcsncpy(W *d, const W *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
HID W *wcscat(W *d, const W *s) { wcscpy(d + wcslen(d), s); return d; }
HID W *wcschr(const W *s, W c) { for (;; s++) { if (*s == c) return (W*)s; if (!*s) return 0; } }
HID W *wcsrchr(const W *s, W c) { const W *r = 0; for (;; s++) { if (*s == c) r = s; if (!*s) return (W*)r; } }
HID W *wcsstr(const W *h, const W *n) { size_t k = wcslen(n); for (;; h++) { if (!wcsncmp(h, n, k)) return (W*)h; if (!*h) return 0; } }
HID W *wmemcpy(W *d, const W *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
HID W *wmemmove(W *d, const W *s, size_t n) { if (d < s) for (size_t i = 0; i < n; i++) d[i] = s[i]; else while (n--) d[n] = s[n]; return d; }
HID W *wmemset(W *d, W c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
HID int wmemcmp(const W *a, const W *b, size_t n) { for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
HID W *wmemchr(const W *s, W c, size_t n) { for (; n; n--, s++) if (*s == c) return (W*)s; return 0; }
HID int _wcsicmp(const W *a, const W *b) { for (;; a++, b++) { W x = *a, y = *b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y || !x) return (int)x - (int)y; } }
HID void __wrap_exit(int c) { sim_exit(c); }
HID void __wrap__exit(int c) { sim_exit(c); }
HID void __wrap_abort() { sim_abort(); }
HID void __wrap___assert_fail(const char *, const char *, unsigned, const char *) { sim_abort(); }
HID int __cxa_guard_acquire(void *g) { return sim_guard_acquire(g); }
HID void __cxa_guard_release(void *g) { sim_guard_release(g); }
HID void __cxa_guard_abort(void *g) { sim_guard_abort(g); }
int sim_mutex_lock(void *, int); int sim_mutex_trylock(void *, int); int sim_mutex_unlock(void *);
static int mkind(void *m) { return ((int *)m)[4] & 3; }      // glibc: __kind
HID int __wrap_pthread_mutex_lock(void *m) { return sim_mutex_lock(m, mkind(m)); }
HID int __wrap_pthread_mutex_trylock(void *m) { return sim_mutex_trylock(m, mkind(m)); }
HID int __wrap_pthread_mutex_unlock(void *m) { return sim_mutex_unlock(m); }
#define VOL(n) HID void __tsan_volatile_read##n(void *) {} HID void __tsan_volatile_write##n(void *) {} \
    HID void __tsan_unaligned_volatile_read##n(void *) {} HID void __tsan_unaligned_volatile_write##n(void *) {}
VOL(1) VOL(2) VOL(4) VOL(8) VOL(16)
}
void *operator new(size_t n) { void *p = sim_mod_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = sim_mod_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_mod_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_mod_alloc(n); }
void operator delete(void *p) noexcept { sim_mod_free(p); }
void operator delete[](void *p) noexcept { sim_mod_free(p); }
void operator delete(void *p, size_t) noexcept { sim_mod_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_mod_free(p); }
