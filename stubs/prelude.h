// Force-included before every translation unit.  Includes the repository's
// log.h and then turns its streaming macros into no-ops (thread/mutex/iostream
// back end).  Logging is outside the claims of every check.
#ifndef VERIF_PRELUDE_H
#define VERIF_PRELUDE_H
#ifdef VSTR // instantiate std::string here instead of taking it from libstdc++.so
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <functional>
#include "log.h"
struct verif_null_stream {
  operator bool() const { return true; }
  template<class T> verif_null_stream & operator<<(const T &) { return *this; }
  verif_null_stream & operator<<(std::ostream & (*)(std::ostream &)) { return *this; }
  verif_null_stream & operator<<(std::ios_base & (*)(std::ios_base &)) { return *this; }
};
#undef log_one
#undef log_rank
#undef log_trace
#undef log_info
#undef log_warn
#undef log_error
#undef log_fatal
#undef log_assert
#undef logm
#undef log_container
#undef log_container_one
#undef log_container_rank
#define log_one(s) verif_null_stream()
#define log_rank(s, r) verif_null_stream()
#define logm(s) verif_null_stream()
#define log_trace(m)
#define log_info(m)
#define log_warn(m)
#define log_error(m)
#define log_fatal(m) abort()
#define log_assert(t, m) assert(t)
#define log_container(a, b, c, d)
#define log_container_one(a, b, c, d)
#define log_container_rank(a, b, c, d, e)
#endif
