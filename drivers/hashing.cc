#include "probe.h"

#include <array>
#include <cstring>
#include <forward_list>
#include <initializer_list>
#include <list>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "boost/utility/string_ref.hpp"

#include "maidsafe/common/hash/algorithms/hash_algorithm_base.h"
#include "maidsafe/common/hash/hash_array.h"
#include "maidsafe/common/hash/hash_contiguous.h"
#include "maidsafe/common/hash/hash_forward_list.h"
#include "maidsafe/common/hash/hash_initializer_list.h"
#include "maidsafe/common/hash/hash_list.h"
#include "maidsafe/common/hash/hash_map.h"
#include "maidsafe/common/hash/hash_numeric.h"
#include "maidsafe/common/hash/hash_pair.h"
#include "maidsafe/common/hash/hash_range.h"
#include "maidsafe/common/hash/hash_set.h"
#include "maidsafe/common/hash/hash_string.h"
#include "maidsafe/common/hash/hash_string_ref.h"
#include "maidsafe/common/hash/hash_tuple.h"
#include "maidsafe/common/hash/hash_use_serialize.h"
#include "maidsafe/common/hash/hash_vector.h"

namespace maidsafe {

// A hash algorithm that keeps what it is given.
struct Recorder : public detail::HashAlgorithmBase<Recorder> {
  std::vector<unsigned char> seen;
  void Update(const unsigned char* in, std::uint64_t inlen) {
    for (std::uint64_t i = 0; i < inlen; ++i) seen.push_back(in[i]);
  }
};

}  // namespace maidsafe

namespace probe {

using maidsafe::Recorder;
using Bytes = std::vector<unsigned char>;

// What is expected, little-endian.
struct Expect {
  Bytes seen;
  Expect& u8(unsigned char v) {
    seen.push_back(v);
    return *this;
  }
  Expect& u16(std::uint16_t v) { return u8(static_cast<unsigned char>(v)).u8(static_cast<unsigned char>(v >> 8)); }
  Expect& u32(std::uint32_t v) { return u16(static_cast<std::uint16_t>(v)).u16(static_cast<std::uint16_t>(v >> 16)); }
  Expect& u64(std::uint64_t v) { return u32(static_cast<std::uint32_t>(v)).u32(static_cast<std::uint32_t>(v >> 32)); }
};

void same(const Recorder& r, const Expect& e, const char*) {
  claim(r.seen.size() == e.seen.size(), "exactly the bytes of the value are hashed");
  claim(r.seen == e.seen, "the bytes hashed are those of the value, in order");
}

void p_integers(std::uint8_t a, std::int16_t b, std::uint32_t c, std::int64_t d, bool e, char f) {
  Recorder r;
  r(a);
  r(b);
  r(c);
  r(d);
  r(e);
  r(f);
  same(r, Expect().u8(a).u16(static_cast<std::uint16_t>(b)).u32(c).u64(static_cast<std::uint64_t>(d)).u8(e ? 1 : 0).u8(
              static_cast<unsigned char>(f)), "");
}

void p_several_arguments(std::uint32_t a, std::uint16_t b, std::uint8_t c) {
  Recorder r, s, t;
  r(a, b, c);
  s(a);
  s(b);
  s(c);
  t& a& b& c;
  Expect e;
  e.u32(a).u16(b).u8(c);
  same(r, e, "");
  same(s, e, "");
  same(t, e, "");
}

void p_lvalues_and_constants(std::uint32_t a) {
  Recorder r;
  const std::uint32_t b = a;
  std::uint32_t& c = a;
  r(b, c, std::uint32_t(a));
  same(r, Expect().u32(a).u32(a).u32(a), "");
}

template <typename F, typename U>
U bits(F f) {
  U u;
  std::memcpy(&u, &f, sizeof(u));
  return u;
}
template <typename F, typename U>
F number(U u) {
  F f;
  std::memcpy(&f, &u, sizeof(u));
  return f;
}

void p_double(std::uint64_t u) {
  Recorder r;
  r(number<double, std::uint64_t>(u));
  same(r, Expect().u64(u == 0x8000000000000000ULL ? 0 : u), "");
}
void p_float(std::uint32_t u) {
  Recorder r;
  r(number<float, std::uint32_t>(u));
  same(r, Expect().u32(u == 0x80000000U ? 0 : u), "");
}

void p_string(const std::string& s) {
  Recorder r;
  r(s);
  Expect e;
  for (char c : s) e.u8(static_cast<unsigned char>(c));
  same(r, e.u64(s.size()), "");
}
void p_two_strings(const std::string& s, const std::string& t) {
  Recorder r;
  r(s, t);
  Expect e;
  for (char c : s) e.u8(static_cast<unsigned char>(c));
  e.u64(s.size());
  for (char c : t) e.u8(static_cast<unsigned char>(c));
  same(r, e.u64(t.size()), "");
}
void p_byte_vector(const Bytes& s) {
  Recorder r;
  r(s);
  Expect e;
  for (unsigned char c : s) e.u8(c);
  same(r, e.u64(s.size()), "");
}
void p_int_vector(const std::vector<std::uint32_t>& s) {
  Recorder r;
  r(s);
  Expect e;
  for (std::uint32_t c : s) e.u32(c);
  same(r, e.u64(s.size()), "");
}
void p_string_vector(int n_size, const std::string& a, const std::string& b) {
  std::vector<std::string> v;
  if (n_size > 0) v.push_back(a);
  if (n_size > 1) v.push_back(b);
  Recorder r;
  r(v);
  Expect e;
  for (const std::string& s : v) {
    for (char c : s) e.u8(static_cast<unsigned char>(c));
    e.u64(s.size());
  }
  same(r, e.u64(v.size()), "");
}
void p_double_vector(int n_size, std::uint64_t a, std::uint64_t b) {
  std::vector<double> v;
  if (n_size > 0) v.push_back(number<double, std::uint64_t>(a));
  if (n_size > 1) v.push_back(number<double, std::uint64_t>(b));
  Recorder r;
  r(v);
  Expect e;
  if (n_size > 0) e.u64(a == 0x8000000000000000ULL ? 0 : a);
  if (n_size > 1) e.u64(b == 0x8000000000000000ULL ? 0 : b);
  same(r, e.u64(v.size()), "");
}
void p_array(std::uint16_t a, std::uint16_t b, std::uint16_t c) {
  std::array<std::uint16_t, 3> v = {{a, b, c}};
  std::uint16_t w[] = {a, b, c};
  Recorder r, s;
  r(v);
  s(w);
  Expect e;
  e.u16(a).u16(b).u16(c).u64(3);
  same(r, e, "");
  same(s, e, "");
}
void p_lists(int n_size, std::uint16_t a, std::uint16_t b) {
  std::list<std::uint16_t> l;
  std::forward_list<std::uint16_t> f;
  if (n_size > 1) f.push_front(b);
  if (n_size > 0) f.push_front(a);
  if (n_size > 0) l.push_back(a);
  if (n_size > 1) l.push_back(b);
  Expect e;
  if (n_size > 0) e.u16(a);
  if (n_size > 1) e.u16(b);
  e.u64(n_size);
  Recorder r, s;
  r(l);
  s(f);
  same(r, e, "");
  same(s, e, "");
}
void p_initializer_list(std::uint16_t a, std::uint16_t b) {
  std::initializer_list<std::uint16_t> l = {a, b};
  Recorder r;
  r(l);
  same(r, Expect().u16(a).u16(b).u64(2), "");
}
void p_set(std::uint8_t a, std::uint8_t b) {
  std::set<std::uint8_t> x;
  x.insert(a);
  x.insert(b);
  Recorder r;
  r(x);
  Expect e;
  e.u8(a < b ? a : b);
  if (a != b) e.u8(a < b ? b : a);
  same(r, e.u64(a == b ? 1 : 2), "");
}
void p_map(std::uint8_t a, std::uint8_t b, std::uint16_t v, std::uint16_t w) {
  std::map<std::uint8_t, std::uint16_t> x;
  x.insert(std::make_pair(a, v));
  x.insert(std::make_pair(b, w));
  Recorder r;
  r(x);
  Expect e;
  if (a <= b)
    e.u8(a).u16(v);
  if (a != b)
    e.u8(b).u16(w);
  if (a > b)
    e.u8(a).u16(v);
  same(r, e.u64(a == b ? 1 : 2), "");
}

// Padding is not part of a value.
void p_pair_padded(std::uint8_t a, std::uint32_t b) {
  Recorder r;
  r(std::make_pair(a, b));
  same(r, Expect().u8(a).u32(b), "");
}
void p_pair_padded_end(std::uint32_t a, std::uint8_t b) {
  Recorder r;
  r(std::pair<std::uint32_t, std::uint8_t>(a, b));
  same(r, Expect().u32(a).u8(b), "");
}
void p_pair_packed(std::uint32_t a, std::uint32_t b) {
  Recorder r;
  r(std::make_pair(a, b));
  same(r, Expect().u32(a).u32(b), "");
}
void p_pair_floating(std::uint64_t a, std::uint64_t b) {
  Recorder r;
  r(std::make_pair(number<double, std::uint64_t>(a), b));
  same(r, Expect().u64(a == 0x8000000000000000ULL ? 0 : a).u64(b), "");
}
void p_pair_string(const std::string& a, std::uint8_t b) {
  Recorder r;
  r(std::make_pair(a, b));
  Expect e;
  for (char c : a) e.u8(static_cast<unsigned char>(c));
  same(r, e.u64(a.size()).u8(b), "");
}
void p_pair_vectors(int n_size, std::uint8_t a, std::uint32_t b, std::uint16_t c) {
  std::vector<std::pair<std::uint8_t, std::uint32_t>> v;
  std::vector<std::pair<std::uint16_t, std::uint16_t>> w;
  for (int i = 0; i < n_size; ++i) {
    v.push_back(std::make_pair(a, b));
    w.push_back(std::make_pair(c, c));
  }
  Recorder r, s;
  r(v);
  s(w);
  Expect e, f;
  for (int i = 0; i < n_size; ++i) {
    e.u8(a).u32(b);
    f.u16(c).u16(c);
  }
  same(r, e.u64(n_size), "");
  same(s, f.u64(n_size), "");
}
void p_tuple(std::uint8_t a, std::uint32_t b, const std::string& c) {
  Recorder r;
  r(std::make_tuple(a, b, c));
  Expect e;
  e.u8(a).u32(b);
  for (char x : c) e.u8(static_cast<unsigned char>(x));
  same(r, e.u64(c.size()), "");
}

// User types: a HashAppend member or function is used, otherwise serialize or save where that is enabled.
struct WithMember {
  std::uint16_t a;
  template <typename H>
  void HashAppend(H& h) const {
    h(a, std::uint8_t(7));
  }
};
struct WithFunction {
  std::uint16_t a;
};
template <typename H>
void HashAppend(H& h, const WithFunction& w) {
  h(w.a, std::uint8_t(8));
}
struct WithSerialize {
  static const bool use_serialize_for_hashing = true;
  std::uint16_t a;
  std::string b;
  template <typename H>
  void serialize(H& h) {
    h& a& b;
  }
};
struct WithSave {
  static const bool use_serialize_for_hashing = true;
  std::uint16_t a;
  template <typename H>
  void save(H& h) const {
    h(std::uint8_t(9), a);
  }
};
struct WithVersion {
  static const bool use_serialize_for_hashing = true;
  std::uint16_t a;
  template <typename H>
  void serialize(H& h, const std::uint32_t version) {
    h(a, version);
  }
};
struct WithVersionedSave {
  static const bool use_serialize_for_hashing = true;
  std::uint16_t a;
  template <typename H>
  void save(H& h, const std::uint32_t version) const {
    h(version, a);
  }
};

}  // namespace probe

namespace maidsafe {

template <>
struct HashVersion<probe::WithVersion> : std::integral_constant<std::uint32_t, 5> {};

}  // namespace maidsafe

namespace probe {

void p_versions(std::uint16_t a) {
  WithVersion v = {a};
  WithVersionedSave w = {a};
  Recorder r;
  r(v, w);
  same(r, Expect().u16(a).u32(5).u32(0).u16(a), "");
}

void p_user_types(std::uint16_t a, const std::string& b) {
  WithMember m = {a};
  WithFunction f = {a};
  WithSerialize s = {a, b};
  WithSave v = {a};
  Recorder r;
  r(m, f, s, v);
  Expect e;
  e.u16(a).u8(7).u16(a).u8(8).u16(a);
  for (char x : b) e.u8(static_cast<unsigned char>(x));
  e.u64(b.size()).u8(9).u16(a);
  same(r, e, "");
}

}  // namespace probe
