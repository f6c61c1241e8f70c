// Forced into the adapter's sources: Linux headers that clash with the MinGW ones come first.
#pragma once
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <signal.h>
#include <locale.h>
#include <pthread.h>
#undef LOCK_MAND
#undef LOCK_READ
#undef LOCK_WRITE
#undef LOCK_RW
#include "../sim/pfx.h"
// libc's versions expect 32-bit wide characters.
#include <stddef.h>
extern "C" {
size_t host_mbstowcs(wchar_t *to, const char *from, size_t n);
size_t host_wcstombs(char *to, const wchar_t *from, size_t n);
size_t host_wcslen(const wchar_t *s);
}
#define mbstowcs host_mbstowcs
#define wcstombs host_wcstombs
#define wcslen host_wcslen
