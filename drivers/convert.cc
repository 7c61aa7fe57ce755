#include "probe.h"

#include "maidsafe/common/convert.h"

namespace probe {

namespace convert = maidsafe::convert;
namespace A = asio::ip;
namespace Bo = boost::asio::ip;
using Bytes = std::vector<unsigned char>;

// Addresses from unconstrained bytes.
template <typename V4>
V4 four(std::uint32_t v) {
  typename V4::bytes_type b;
  b[0] = static_cast<unsigned char>(v >> 24);
  b[1] = static_cast<unsigned char>(v >> 16);
  b[2] = static_cast<unsigned char>(v >> 8);
  b[3] = static_cast<unsigned char>(v);
  return V4(b);
}
template <typename V6>
V6 six(std::uint64_t hi, std::uint64_t lo, std::uint32_t scope) {
  typename V6::bytes_type b;
  for (int i = 0; i < 8; ++i) {
    b[i] = static_cast<unsigned char>(hi >> (56 - 8 * i));
    b[8 + i] = static_cast<unsigned char>(lo >> (56 - 8 * i));
  }
  return V6(b, scope);
}

template <typename X, typename Y>
void same4(const X& x, const Y& y) {
  auto p = x.to_bytes();
  auto q = y.to_bytes();
  claim(p[0] == q[0] && p[1] == q[1] && p[2] == q[2] && p[3] == q[3], "the four bytes are kept");
}
template <typename X, typename Y>
void same6(const X& x, const Y& y) {
  auto p = x.to_bytes();
  auto q = y.to_bytes();
  for (int i = 0; i < 16; ++i) claim(p[i] == q[i], "the sixteen bytes are kept");
  claim(x.scope_id() == y.scope_id(), "the scope is kept");
}
template <typename X, typename Y>
void same(const X& x, const Y& y) {
  claim(x.is_v4() == y.is_v4() && x.is_v6() == y.is_v6(), "the kind of address is kept");
  if (x.is_v4())
    same4(x.to_v4(), y.to_v4());
  else
    same6(x.to_v6(), y.to_v6());
}

void p_v4(std::uint32_t v) {
  A::address_v4 a = four<A::address_v4>(v);
  Bo::address_v4 b = four<Bo::address_v4>(v);
  same4(a, convert::ToBoost(a));
  same4(b, convert::ToAsio(b));
  claim(convert::ToAsio(convert::ToBoost(a)) == a, "to Boost and back gives the address");
  claim(convert::ToBoost(convert::ToAsio(b)) == b, "to Asio and back gives the address");
}
void p_v6(std::uint64_t hi, std::uint64_t lo, std::uint32_t scope) {
  A::address_v6 a = six<A::address_v6>(hi, lo, scope);
  Bo::address_v6 b = six<Bo::address_v6>(hi, lo, scope);
  same6(a, convert::ToBoost(a));
  same6(b, convert::ToAsio(b));
  claim(convert::ToAsio(convert::ToBoost(a)) == a, "to Boost and back gives the address");
  claim(convert::ToBoost(convert::ToAsio(b)) == b, "to Asio and back gives the address");
}

void p_address_v4(std::uint32_t v) {
  A::address a(four<A::address_v4>(v));
  Bo::address b(four<Bo::address_v4>(v));
  same(a, convert::ToBoost(a));
  same(b, convert::ToAsio(b));
  claim(convert::ToAsio(convert::ToBoost(a)) == a, "to Boost and back gives the address");
  claim(convert::ToBoost(convert::ToAsio(b)) == b, "to Asio and back gives the address");
}
void p_address_v6(std::uint64_t hi, std::uint64_t lo, std::uint32_t scope) {
  A::address a(six<A::address_v6>(hi, lo, scope));
  Bo::address b(six<Bo::address_v6>(hi, lo, scope));
  same(a, convert::ToBoost(a));
  same(b, convert::ToAsio(b));
  claim(convert::ToAsio(convert::ToBoost(a)) == a, "to Boost and back gives the address");
  claim(convert::ToBoost(convert::ToAsio(b)) == b, "to Asio and back gives the address");
}

void p_endpoint_v4(std::uint32_t v, std::uint16_t port) {
  A::udp::endpoint a(four<A::address_v4>(v), port);
  Bo::udp::endpoint b(four<Bo::address_v4>(v), port);
  Bo::udp::endpoint c = convert::ToBoost(a);
  A::udp::endpoint d = convert::ToAsio(b);
  same(a.address(), c.address());
  same(b.address(), d.address());
  claim(c.port() == port && d.port() == port, "the port is kept");
}
void p_endpoint_v6(std::uint64_t hi, std::uint64_t lo, std::uint32_t scope, std::uint16_t port) {
  A::udp::endpoint a(six<A::address_v6>(hi, lo, scope), port);
  Bo::udp::endpoint b(six<Bo::address_v6>(hi, lo, scope), port);
  Bo::udp::endpoint c = convert::ToBoost(a);
  A::udp::endpoint d = convert::ToAsio(b);
  same(a.address(), c.address());
  same(b.address(), d.address());
  claim(c.port() == port && d.port() == port, "the port is kept");
}

void p_error(std::int32_t v, bool system) {
  boost::system::error_code e(v, system ? boost::system::system_category() : boost::system::generic_category());
  std::error_code r = convert::ToStd(e);
  claim(r.value() == v, "the value of the error is kept");
  claim(r.category() == std::generic_category(), "the error is a generic one");
}

void p_bytes_of_string(const std::string& s) {
  Bytes b = convert::ToByteVector(s);
  claim(b.size() == s.size(), "one byte for each character");
  for (std::size_t i = 0; i < s.size(); ++i)
    claim(b[i] == static_cast<unsigned char>(s[i]), "each byte is the character's");
  claim(convert::ToString(b) == s, "back to a string gives the string");
}
void p_string_of_bytes(const Bytes& b) {
  std::string s = convert::ToString(b);
  claim(s.size() == b.size(), "one character for each byte");
  for (std::size_t i = 0; i < b.size(); ++i)
    claim(static_cast<unsigned char>(s[i]) == b[i], "each character is the byte's");
  claim(convert::ToByteVector(s) == b, "back to bytes gives the bytes");
}

}  // namespace probe
