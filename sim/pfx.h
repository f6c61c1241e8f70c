// Forced into every translation unit that is built natively.  libc and libstdc++ headers come first,
// before the calling-convention macros that the MinGW headers need.
#pragma once
#include <bits/c++config.h>
// 16-bit wchar_t: never use the basic_string<wchar_t> instantiations inside libstdc++.so.
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <wchar.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <assert.h>
#include <time.h>
#include <sys/types.h>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include <utility>
#include <tuple>
#include <array>
#define __cdecl
#define __stdcall
#define __fastcall
#define __thiscall
#define __CYGWIN__ 1
#define __declspec(x)
#define _cdecl
#define __forceinline inline
