// The part of Cygwin's interface that the adapter uses; implemented in ../host.cc.
#pragma once
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { CCP_POSIX_TO_WIN_A = 0, CCP_POSIX_TO_WIN_W, CCP_WIN_A_TO_POSIX, CCP_WIN_W_TO_POSIX, CCP_CONVTYPE_MASK = 3, CCP_ABSOLUTE = 0, CCP_RELATIVE = 0x100, CCP_PROC_CYGDRIVE = 0x200 };
typedef unsigned int cygwin_conv_path_t;
ssize_t cygwin_conv_path(cygwin_conv_path_t what, const void *from, void *to, size_t size);
int cygwin_conv_to_win32_path(const char *from, char *to);
enum cygwin_getinfo_types { CW_SETUP_WINENV = 36, CW_SYNC_WINENV = 36 };
unsigned long cygwin_internal(int op, ...);
#ifdef __cplusplus
}
#endif
