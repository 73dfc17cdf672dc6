// Bodies of libstdc++/libc functions that live in the shared library; linked
// into the symbolically executed module only.
#include <cstddef>
#include <cstdint>
extern "C" int verif_rt_present() { return 1; }
extern "C" void * memchr(const void * p, int c, size_t n) {
  const unsigned char * s = (const unsigned char *)p;
  for(size_t i = 0; i < n; ++i)
    if(s[i] == (unsigned char)c) return (void *)(s + i);
  return 0;
}
extern "C" char * strcpy(char * d, const char * s) {
  char * r = d;
  while((*d++ = *s++)) {}
  return r;
}
extern "C" char * strncpy(char * d, const char * s, size_t n) {
  size_t i = 0;
  for(; i < n && s[i]; ++i) d[i] = s[i];
  for(; i < n; ++i) d[i] = 0;
  return d;
}
extern "C" char * strcat(char * d, const char * s) {
  char * r = d;
  while(*d) ++d;
  while((*d++ = *s++)) {}
  return r;
}
extern "C" char * strchr(const char * s, int c) {
  for(;; ++s) {
    if(*s == (char)c) return (char *)s;
    if(!*s) return 0;
  }
}
extern "C" char * strrchr(const char * s, int c) {
  const char * r = 0;
  for(;; ++s) {
    if(*s == (char)c) r = s;
    if(!*s) return (char *)r;
  }
}
static char rt_dot[] = ".", rt_slash[] = "/";
extern "C" char * dirname(char * p) {
  char * c = p ? strrchr(p, '/') : 0;
  if(!c) return rt_dot;
  if(c == p) return rt_slash;
  *c = 0; // no trailing or repeated slashes in the harnesses
  return p;
}
extern "C" char * __xpg_basename(char * p) {
  char * c = p ? strrchr(p, '/') : 0;
  if(!p || !*p) return rt_dot;
  return c ? c + 1 : p;
}
// std::unordered_map: number of buckets
#include <bits/c++config.h>
#include <unordered_map>
namespace std { namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  static const unsigned short pr[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
  for(std::size_t i = 0; i < sizeof(pr) / sizeof(pr[0]); ++i)
    if(pr[i] >= n) {
      _M_next_resize = pr[i];
      return pr[i];
    }
  __builtin_trap();
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const {
  if(n_elt + n_ins > _M_next_resize) {
    std::size_t m = n_elt + n_ins;
    if(_M_next_resize == 0 && m < 11) m = 11;
    if(m >= n_bkt) return {true, _M_next_bkt(m + 1 > 2 * n_bkt ? m + 1 : 2 * n_bkt)};
    _M_next_resize = n_bkt;
  }
  return {false, 0};
}
}}
