// lttoolbox 3.7.6 builds the lower, upper and title case of an EMPTY string from
// uninitialised stack memory.  That is the dependency's defect, not this
// repository's: the simulator asks ICU itself.
#include <dlfcn.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <istream>
#include <sstream>
#include <memory>
#include <algorithm>
#include <functional>
#include <unordered_map>
#include <unicode/ustdio.h>
#include <unicode/ustring.h>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <iostream>
#include <deque>
#include <regex>
#define private public
#include <lttoolbox/ustring.h>
#include <lttoolbox/string_utils.h>
#include <lttoolbox/deserialiser.h>
#include <lttoolbox/alphabet.h>
#include <lttoolbox/pattern_list.h>
#undef private

// (their own buffer is too short as well, for the few letters whose other case is longer)
typedef int32_t (*casef)(UChar*, int32_t, const UChar*, int32_t, UErrorCode*);
static UString changecase(UStringView s, casef f) {
  UString r;
  if (s.empty()) return r;
  r.resize(3 * s.size() + 8);
  UErrorCode e = U_ZERO_ERROR;
  int32_t n = f((UChar*)r.data(), r.size(), (const UChar*)s.data(), s.size(), &e);
  if (U_FAILURE(e) || n > (int32_t)r.size()) abort();
  r.resize(n);
  return r;
}
UString StringUtils::tolower(UStringView s) {
  return changecase(s, [](UChar *d, int32_t c, const UChar *p, int32_t n, UErrorCode *e) { return u_strToLower(d, c, p, n, "", e); }); }
UString StringUtils::toupper(UStringView s) {
  return changecase(s, [](UChar *d, int32_t c, const UChar *p, int32_t n, UErrorCode *e) { return u_strToUpper(d, c, p, n, "", e); }); }
UString StringUtils::totitle(UStringView s) {
  return changecase(s, [](UChar *d, int32_t c, const UChar *p, int32_t n, UErrorCode *e) { return u_strToTitle(d, c, p, n, nullptr, "", e); }); }

UString StringUtils::copycase(UStringView s, UStringView t) {
  UString c = StringUtils::getcase(s);
  return c == u"AA" ? StringUtils::toupper(t) : c == u"Aa" ? StringUtils::totitle(t) : StringUtils::tolower(t); }

// The same functions for the reference interpreter (rules.py); kind: 0 lower, 1 upper,
// 2 title, 3 getcase(p), 4 copycase(p, q),
// 5 and 6 every unit by itself to upper and to lower case
extern "C" int lt_case(int kind, const UChar *p, int n, const UChar *q, int m, UChar *out, int cap) {
  UStringView a((const char16_t*)p, n), b((const char16_t*)q, m);
  UString r(a);
  if (kind > 4) for (auto &c : r) c = kind == 5 ? u_toupper(c) : u_tolower(c);
  else r = kind == 0 ? StringUtils::tolower(a) : kind == 1 ? StringUtils::toupper(a) : kind == 2 ? StringUtils::totitle(a) :
              kind == 3 ? StringUtils::getcase(a) : StringUtils::copycase(a, b);
  if ((int)r.size() > cap) return -1;
  memcpy(out, r.data(), 2 * r.size());
  return r.size();
}

// Its Alphabet::deserialise walks the pairs up to the number of symbols, past the
// end of the array when there are more symbols than pairs.
void PatternList::deserialise(std::istream &in) {
  Alphabet &a = alphabet;
  a.slexicinv.clear(); a.slexic.clear(); a.spairinv.clear(); a.spair.clear();
  a.slexicinv = Deserialiser<std::vector<UString> >::deserialise(in);
  for (size_t i = 0; i < a.slexicinv.size(); i++) a.slexic[a.slexicinv[i]] = -i - 1;
  a.spairinv = Deserialiser<std::vector<std::pair<int32_t, int32_t> > >::deserialise(in);
  for (size_t i = 0; i < a.spairinv.size(); i++) a.spair[a.spairinv[i]] = i;
  transducer.deserialise(in);
  final_type = Deserialiser<std::map<int, int> >::deserialise(in);
}
