#include "probe.h"

#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <utility>

#include "cereal/types/utility.hpp"

#include "maidsafe/common/identity.h"
#include "maidsafe/common/types.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
#include "maidsafe/common/serialisation/types/boost_filesystem.h"

namespace probe {

using maidsafe::Parse;
using maidsafe::Serialise;
using maidsafe::SerialisedData;
using Bytes = std::vector<unsigned char>;


template <typename T>
void back(const T& v) {
  SerialisedData s = Serialise(v);
  T w = Parse<T>(s);
  claim(w == v, "parsing what was serialised gives the value back");
  T x;
  Parse(s, x);
  claim(x == v, "parsing into a variable gives the value back");
  // More data may follow; it is not touched.
  s.push_back(7);
  claim(Parse<T>(s) == v, "data after the value is ignored");
  s.pop_back();
  // Anything missing is an error.
  for (std::size_t k = 0; k < s.size(); ++k) {
    SerialisedData cut(s.begin(), s.begin() + k);
    try {
      T y;
      Parse(cut, y);
      unreachable("incomplete data cannot be parsed");
    } catch (const std::exception&) {
    }
  }
}

// Bytes as they come out.
struct Expect {
  Bytes seen;
  Expect& u8(unsigned char v) {
    seen.push_back(v);
    return *this;
  }
  Expect& u16(std::uint16_t v) { return u8(static_cast<unsigned char>(v)).u8(static_cast<unsigned char>(v >> 8)); }
  Expect& u32(std::uint32_t v) { return u16(static_cast<std::uint16_t>(v)).u16(static_cast<std::uint16_t>(v >> 16)); }
  Expect& u64(std::uint64_t v) { return u32(static_cast<std::uint32_t>(v)).u32(static_cast<std::uint32_t>(v >> 32)); }
};

void p_integers(std::uint8_t a, std::int16_t b, std::uint32_t c, std::int64_t d, bool e, char f) {
  SerialisedData s = Serialise(a, b, c, d, e, f);
  Expect x;
  x.u8(a).u16(static_cast<std::uint16_t>(b)).u32(c).u64(static_cast<std::uint64_t>(d)).u8(e ? 1 : 0);
  x.u8(static_cast<unsigned char>(f));
  claim(s == x.seen, "each value is written as its bytes, one after the other");
  std::uint8_t a2 = 0;
  std::int16_t b2 = 0;
  std::uint32_t c2 = 0;
  std::int64_t d2 = 0;
  bool e2 = false;
  char f2 = 0;
  Parse(s, a2, b2, c2, d2, e2, f2);
  claim(a == a2 && b == b2 && c == c2 && d == d2 && e == e2 && f == f2, "parsing gives the values back");
}
void p_u8(std::uint8_t v) { back(v); }
void p_i16(std::int16_t v) { back(v); }
void p_u32(std::uint32_t v) { back(v); }
void p_i64(std::int64_t v) { back(v); }
void p_bool(bool v) { back(v); }
void p_string(const std::string& v) {
  back(v);
  Expect e;
  e.u64(v.size());
  for (char c : v) e.u8(static_cast<unsigned char>(c));
  claim(Serialise(v) == e.seen, "a string is its length and its characters");
}
void p_bytes(const Bytes& v) {
  back(v);
  Expect e;
  e.u64(v.size());
  for (unsigned char c : v) e.u8(c);
  claim(Serialise(v) == e.seen, "a vector is its length and its elements");
}
void p_words(const std::vector<std::uint32_t>& v) { back(v); }
void p_strings(int n_size, const std::string& a, const std::string& b) {
  std::vector<std::string> v;
  if (n_size > 0) v.push_back(a);
  if (n_size > 1) v.push_back(b);
  back(v);
}
void p_pair(const std::string& a, std::uint16_t b) { back(std::make_pair(a, b)); }
void p_map(std::uint8_t a, std::uint8_t b, const std::string& v, const std::string& w) {
  std::map<std::uint8_t, std::string> m;
  m[a] = v;
  m[b] = w;
  SerialisedData s = Serialise(m);
  std::map<std::uint8_t, std::string> r = Parse<std::map<std::uint8_t, std::string>>(s);
  claim(r.size() == m.size(), "a map comes back with the same size");
  claim(r.count(a) == 1 && r.count(b) == 1, "a map comes back with its keys");
  claim(r[b] == w && (a == b || r[a] == v), "a map comes back with its values");
}
void p_optional(bool has, std::uint32_t v) {
  boost::optional<std::uint32_t> o;
  if (has) o = v;
  SerialisedData s = Serialise(o);
  boost::optional<std::uint32_t> r = Parse<boost::optional<std::uint32_t>>(s);
  claim(static_cast<bool>(r) == has, "an optional comes back as full as it was");
  if (has && r) claim(*r == v, "an optional comes back with its value");
}
template <typename F, typename U>
void floating(U u) {
  F f;
  std::memcpy(&f, &u, sizeof(u));
  F g = Parse<F>(Serialise(f));
  U v;
  std::memcpy(&v, &g, sizeof(v));
  claim(u == v, "floating point numbers come back with all their bits");
}
void p_double(std::uint64_t u) { floating<double, std::uint64_t>(u); }
void p_float(std::uint32_t u) { floating<float, std::uint32_t>(u); }
void p_tagged(std::uint64_t v) { back(maidsafe::MemoryUsage(v)); }
void p_non_empty(const std::string& v) {
  if (v.empty()) {
    try {
      Parse<maidsafe::NonEmptyString>(Serialise(v));
      unreachable("an empty text is no value of a non-empty string");
    } catch (const maidsafe::maidsafe_error& e) {
      claim(carries(e, maidsafe::CommonErrors::parsing_error), "the error for a text out of bounds is parsing_error");
    }
    return;
  }
  maidsafe::NonEmptyString n(v);
  SerialisedData s = Serialise(n);
  maidsafe::NonEmptyString r = Parse<maidsafe::NonEmptyString>(s);
  claim(r == n, "a bounded string comes back");
  for (std::size_t k = 0; k < s.size(); ++k) {
    SerialisedData cut(s.begin(), s.begin() + k);
    try {
      Parse<maidsafe::NonEmptyString>(cut);
      unreachable("incomplete data cannot be parsed");
    } catch (const std::exception&) {
    }
  }
}

// User types, by one function or by two, nested.
struct Point {
  std::uint16_t x, y;
  template <typename A>
  void serialize(A& a) {
    a(x, y);
  }
};
struct Line {
  Point p;
  std::string name;
  Point q;
  template <typename A>
  void save(A& a) const {
    a(p, name, q);
  }
  template <typename A>
  void load(A& a) {
    a(p, name, q);
  }
};
void p_user(std::uint16_t a, std::uint16_t b, const std::string& s, std::uint16_t c) {
  Line l = {{a, b}, s, {b, c}};
  Line m = Parse<Line>(Serialise(l));
  claim(m.p.x == a && m.p.y == b && m.name == s && m.q.x == b && m.q.y == c, "a user type comes back");
}

// Streams that are used more than once.
void p_streams(std::uint32_t a, const std::string& b, std::uint8_t c) {
  maidsafe::OutputVectorStream out;
  SerialisedData first = Serialise(out, a);
  SerialisedData second = Serialise(out, b, c);
  Expect e;
  e.u32(a);
  claim(first == e.seen, "the stream holds what was written");
  e.u64(b.size());
  for (char x : b) e.u8(static_cast<unsigned char>(x));
  e.u8(c);
  claim(second == e.seen, "a second use of the stream adds to it");
  maidsafe::ConvertToVectorStream(out, a);
  e.u32(a);
  claim(out.vector() == e.seen, "the stream can be added to without taking its content");
  maidsafe::InputVectorStream in(second);
  claim(Parse<std::uint32_t>(in) == a, "the first value comes first");
  std::string b2;
  std::uint8_t c2 = 0;
  Parse(in, b2, c2);
  claim(b2 == b && c2 == c, "the next values follow");
  try {
    Parse<std::uint8_t>(in);
    unreachable("nothing can be parsed from an exhausted stream");
  } catch (const std::exception&) {
  }
}
void p_temporaries(std::uint32_t a, const std::string& b) {
  const std::uint32_t c = a;
  claim(Serialise(a, b) == Serialise(std::uint32_t(c), std::string(b)), "temporaries are written like variables");
}

// The forms on std::string and std::stringstream.
void p_text(std::uint32_t a, const std::string& b) {
  std::string s = maidsafe::ConvertToString(a, b);
  Expect e;
  e.u32(a).u64(b.size());
  for (char x : b) e.u8(static_cast<unsigned char>(x));
  claim(Bytes(s.begin(), s.end()) == e.seen, "the string form has the same bytes");
  std::uint32_t a2 = 0;
  std::string b2;
  maidsafe::ConvertFromString(s, a2, b2);
  claim(a2 == a && b2 == b, "the values come back from a string");
  claim(maidsafe::ConvertFromString<std::uint32_t>(s) == a, "one value comes back from a string");
  std::uint32_t a3 = 0;
  claim(maidsafe::ConvertFromString(s, a3) == a && a3 == a, "one value comes back into a variable");
  std::stringstream st;
  claim(maidsafe::ConvertToString(st, a) == s.substr(0, 4), "the stream's content is given");
  claim(maidsafe::ConvertToString(st, b) == s, "a second use of the stream adds to it");
  claim(maidsafe::ConvertFromStream<std::uint32_t>(st) == a, "the first value comes first");
  std::string b3;
  claim(maidsafe::ConvertFromStream(st, b3) == b && b3 == b, "the next value follows");
}
void p_text_incomplete(std::uint32_t a, const std::string& b, int n_cut) {
  std::string s = maidsafe::ConvertToString(a, b);
  bool failed = false;
  try {
    std::uint32_t a2 = 0;
    std::string b2;
    maidsafe::ConvertFromString(s.substr(0, n_cut), a2, b2);
  } catch (const std::exception&) {
    failed = true;
  }
  claim(failed == (static_cast<std::size_t>(n_cut) < s.size()), "incomplete data cannot be parsed, complete data can");
}

// Addresses.
template <typename V4>
V4 four(std::uint32_t v) {
  typename V4::bytes_type b;
  for (int i = 0; i < 4; ++i) b[i] = static_cast<unsigned char>(v >> (24 - 8 * i));
  return V4(b);
}
template <typename V6>
V6 six(std::uint64_t hi, std::uint64_t lo) {
  typename V6::bytes_type b;
  for (int i = 0; i < 8; ++i) {
    b[i] = static_cast<unsigned char>(hi >> (56 - 8 * i));
    b[8 + i] = static_cast<unsigned char>(lo >> (56 - 8 * i));
  }
  return V6(b);
}
template <typename A>
void address(const A& a, std::size_t size) {
  SerialisedData s = Serialise(a);
  claim(s.size() == size && s[0] == size - 1, "an address is its length and its bytes");
  A b = Parse<A>(s);
  claim(a.is_v4() == b.is_v4(), "the kind of address comes back");
  claim(a == b, "the address comes back");
  for (std::size_t k = 0; k < s.size(); ++k) {
    SerialisedData cut(s.begin(), s.begin() + k);
    try {
      Parse<A>(cut);
      unreachable("incomplete data cannot be parsed");
    } catch (const std::exception&) {
    }
  }
}
void p_asio_v4(std::uint32_t v) { address(asio::ip::address(four<asio::ip::address_v4>(v)), 5); }
void p_boost_v4(std::uint32_t v) { address(boost::asio::ip::address(four<boost::asio::ip::address_v4>(v)), 5); }
void p_asio_v6(std::uint64_t h, std::uint64_t l) { address(asio::ip::address(six<asio::ip::address_v6>(h, l)), 17); }
void p_boost_v6(std::uint64_t h, std::uint64_t l) {
  address(boost::asio::ip::address(six<boost::asio::ip::address_v6>(h, l)), 17);
}
template <typename A>
void bad_address(std::uint8_t size) {
  if (size == 4 || size == 16) return;
  SerialisedData s(20, 1);
  s[0] = size;
  try {
    Parse<A>(s);
    unreachable("an address of another length is refused");
  } catch (const maidsafe::maidsafe_error& e) {
    claim(carries(e, maidsafe::CommonErrors::parsing_error), "the error for a bad address is parsing_error");
  }
}
void p_asio_bad(std::uint8_t size) { bad_address<asio::ip::address>(size); }
void p_boost_bad(std::uint8_t size) { bad_address<boost::asio::ip::address>(size); }

void p_path(const std::string& s) {
  boost::filesystem::path p(s);
  boost::filesystem::path q = Parse<boost::filesystem::path>(Serialise(p));
  claim(q.native() == s, "a path comes back");
  claim(Serialise(p) == Serialise(s), "a path is written as its text");
}

}  // namespace probe
