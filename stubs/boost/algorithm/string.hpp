// Locale-free stand-in for the three Boost string helpers the code uses
// (Boost is not under test; its ctype facets are outside the executor).
#ifndef VERIF_BOOST_STRING
#define VERIF_BOOST_STRING
#include <cstring>
#include <string>
#include <vector>
namespace boost {
namespace verif_detail {
inline const char * cs(const std::string & s) { return s.c_str(); }
inline const char * cs(const char * s) { return s; }
inline size_t len(const std::string & s) { return s.size(); }
inline size_t len(const char * s) { return strlen(s); }
inline char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c; }
struct any { std::string set; };
} // namespace verif_detail
template<class A, class B> bool iequals(const A & a, const B & b) {
  using namespace verif_detail;
  size_t n = len(a);
  if(n != len(b)) return false;
  for(size_t i = 0; i < n; ++i)
    if(low(cs(a)[i]) != low(cs(b)[i])) return false;
  return true;
}
inline verif_detail::any is_any_of(const char * s) { return {s}; }
inline void split(std::vector<std::string> & out, const std::string & s, const verif_detail::any & a) {
  out.clear();
  std::string cur;
  for(size_t i = 0; i < s.size(); ++i) {
    if(a.set.find(s[i]) != std::string::npos) {
      out.push_back(cur);
      cur.clear();
    }
    else
      cur.push_back(s[i]);
  }
  out.push_back(cur);
}
} // namespace boost
#endif
