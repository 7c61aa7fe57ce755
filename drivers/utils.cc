#include "probe.h"

#include <limits>

#include "boost/filesystem/path.hpp"

#include "maidsafe/common/utils.h"

namespace probe {

using maidsafe::byte;
using maidsafe::CommonErrors;
using maidsafe::kInvalidVersion;
using maidsafe::VersionToInt;

bool digits(const std::string& s) {
  bool yes(true);
  for (char c : s) yes = yes & (c >= '0') & (c <= '9');
  return yes;
}
int value(const std::string& s) {
  int n(0);
  for (char c : s) n = n * 10 + (c - '0');
  return n;
}
bool dotted(const std::string& s) {
  bool yes(false);
  for (char c : s) yes = yes | (c == '.');
  return yes;
}

int version(const std::string& text) {
  try {
    return VersionToInt(text);
  } catch (...) {
    unreachable("VersionToInt does not throw");
  }
  return -2;
}

// A part of n digits, of which one is any character but a dot.
std::string part(char c, int n, int where) {
  std::string s;
  for (int i(0); i != n; ++i) s += i == where % n ? c : static_cast<char>('7' + i % 3);
  return s;
}

// Three parts, one character of each unknown.
void p_parts(const std::string& text, int n_major, int n_minor, int n_patch, int n_where) {
  given(!dotted(text));
  const std::string major(part(text[0], n_major, n_where)), minor(part(text[1], n_minor, n_where)),
      patch(part(text[2], n_patch, n_where));
  const int result(version(major + "." + minor + "." + patch));
  if (n_major == 0 || n_minor != 1 || n_patch != 3) {
    claim(result == kInvalidVersion, "a version with parts of the wrong size is invalid");
  } else if (digits(major) & digits(minor) & digits(patch)) {
    claim(result == value(major) * 10000 + value(minor) * 1000 + value(patch), "a version is major, minor and patch level in decimal");
  } else {
    claim(result == kInvalidVersion, "a version with anything but digits in its parts is invalid");
  }
}

// Every version with a major version of one digit.
void p_valid(const std::string& text) {
  given(digits(text));
  const std::string major(text.substr(0, 1)), minor(text.substr(1, 1)), patch(text.substr(2));
  claim(version(major + "." + minor + "." + patch) == value(major) * 10000 + value(minor) * 1000 + value(patch),
        "a version is major, minor and patch level in decimal");
}

// Fewer characters than the shortest version.
void p_short(const std::string& text) { claim(version(text) == kInvalidVersion, "too short a text is no version"); }

void p_dots(const std::string& d) {
  given(digits(d));
  const std::string good(d + ".1.234");
  claim(version("." + good) == kInvalidVersion, "a version does not start with a dot");
  claim(version(good + ".") == kInvalidVersion, "a version does not end with a dot");
  claim(version(good + "." + d) == kInvalidVersion, "a version has three parts");
  claim(version(d + "..1.234") == kInvalidVersion, "a version has no empty parts");
  claim(version(d + ".1..234") == kInvalidVersion, "a version has no empty parts");
  claim(version(d + "." + d) == kInvalidVersion, "two parts are no version");
}

void p_large() {
  claim(version("32768.1.234") == 327681234, "large major versions keep their value");
  claim(version("65537.1.234") == 655371234, "large major versions keep their value");
  claim(version("131072.0.000") == 1310720000, "large major versions keep their value");
  claim(version("214747.9.999") == 2147479999, "large major versions keep their value");
  claim(version("999999.9.999") == kInvalidVersion, "a version too large for its type is invalid");
  claim(version("2147483648.0.000") == kInvalidVersion, "a version too large for its type is invalid");
  claim(version("99999999999999999999.0.000") == kInvalidVersion, "a version too large for its type is invalid");
}

// ---------------------------------------------------------------- exclusive or
template <typename String>
void combined(const String& a, const String& b) {
  try {
    const String c(maidsafe::operator^(a, b));
    claim(a.size() == b.size(), "only strings of one size are combined");
    claim(c.size() == a.size(), "the combination has that size");
    bool same(true);
    for (std::size_t i(0); i != a.size(); ++i)
      same = same & (static_cast<byte>(c[i]) == static_cast<byte>(static_cast<byte>(a[i]) ^ static_cast<byte>(b[i])));
    claim(same, "every byte is the exclusive or of the two");
  } catch (const maidsafe::maidsafe_error& e) {
    claim(a.size() != b.size(), "strings of one size can be combined");
    claim(carries(e, CommonErrors::invalid_argument), "strings of different sizes are refused with invalid_argument");
  }
}
void p_xor_string(const std::string& a, const std::string& b) { combined(a, b); }
void p_xor_bytes(const std::vector<byte>& a, const std::vector<byte>& b) { combined(a, b); }

// ---------------------------------------------------------------- file names
void p_file_name(const std::vector<byte>& name, uint32_t n_type) {
  const maidsafe::Data::NameAndTypeId data{maidsafe::Identity{name}, maidsafe::DataTypeId{n_type}};
  const auto back = maidsafe::detail::GetDataNameAndTypeId(maidsafe::detail::GetFileName(data));
  claim(back.name.string() == name, "the name of a file gives the name of its data");
  claim(back.type_id.data == n_type, "the name of a file gives the type of its data");
}
void p_file_names(const std::vector<byte>& x, const std::vector<byte>& y, uint32_t n_type, uint32_t n_type2) {
  const maidsafe::Data::NameAndTypeId a{maidsafe::Identity{x}, maidsafe::DataTypeId{n_type}};
  const maidsafe::Data::NameAndTypeId b{maidsafe::Identity{y}, maidsafe::DataTypeId{n_type2}};
  const bool same(maidsafe::detail::GetFileName(a).string() == maidsafe::detail::GetFileName(b).string());
  claim(same == (x == y && n_type == n_type2), "different data have different file names");
}

// ---------------------------------------------------------------- small generator
uint32_t rotated(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
void p_small(uint32_t a, uint32_t b, uint32_t c, uint32_t d) {
  maidsafe::small_prng::RandomContext x;
  x.a = a; x.b = b; x.c = c; x.d = d;
  const uint32_t result(maidsafe::small_prng::RandomValue(&x));
  const uint32_t e(a - rotated(b, 27));
  claim(x.a == (b ^ rotated(c, 17)), "a is as in the reference generator");
  claim(x.b == c + d, "b is as in the reference generator");
  claim(x.c == d + e, "c is as in the reference generator");
  claim(x.d == e + x.a, "d is as in the reference generator");
  claim(result == x.d, "the value is the last word");
}
void p_small_seed(uint32_t n_seed) {
  maidsafe::small_prng::RandomContext x, y;
  maidsafe::small_prng::Initialise(&x, n_seed);
  y.a = 0xf1ea5eed;
  y.b = y.c = y.d = n_seed;
  for (int i(0); i != 20; ++i) {
    const uint32_t e(y.a - rotated(y.b, 27));
    y.a = y.b ^ rotated(y.c, 17);
    y.b = y.c + y.d;
    y.c = y.d + e;
    y.d = e + y.a;
  }
  claim(x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d, "the state after the seed is that of the reference generator");
  claim(maidsafe::small_prng::RandomValue(&x) == maidsafe::small_prng::RandomValue(&y), "the same state gives the same value");
}

}  // namespace probe
