#include "probe.h"

#include <ostream>
#include <sstream>

#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/types.h"

namespace probe {

using maidsafe::CommonErrors;
using maidsafe::maidsafe_error;
using Bytes = std::vector<unsigned char>;
template <std::size_t mn, std::size_t mx, typename S>
using B = maidsafe::detail::BoundedString<mn, mx, S>;

template <std::size_t mn, std::size_t mx, typename S>
void construct(const S& s) {
  bool fits = s.size() >= mn && s.size() <= mx;
  try {
    B<mn, mx, S> b(s);
    claim(fits, "a string outside the bounds is refused");
    claim(b.IsInitialised(), "a constructed instance is initialised");
    claim(b.string() == s, "the constructed instance holds the given string");
    claim(b.size() == s.size(), "size() is the string's size");
    for (std::size_t i = 0; i < s.size(); ++i) {
      claim(b[i] == s[i], "operator[] gives the string's elements");
      claim(static_cast<const B<mn, mx, S>&>(b)[i] == s[i], "const operator[] gives the string's elements");
    }
    if (!s.empty()) claim(*b.data() == s[0], "data() points to the string");
  } catch (const maidsafe_error& e) {
    claim(!fits, "a string within the bounds is accepted");
    claim(carries(e, CommonErrors::outside_of_bounds), "the error for a bad size is outside_of_bounds");
  }
}
void p_construct_2_4(const std::string& s) { construct<2, 4, std::string>(s); }
void p_construct_0_3(const Bytes& s) { construct<0, 3, Bytes>(s); }
void p_construct_3_3(const std::string& s) { construct<3, 3, std::string>(s); }
void p_construct_1_any(const Bytes& s) { construct<1, static_cast<std::size_t>(-1), Bytes>(s); }
void p_construct_0_any(const std::string& s) { construct<0, static_cast<std::size_t>(-1), std::string>(s); }

// The byte-vector form can also be made from a std::string.
void p_construct_converting(const std::string& s) {
  bool fits = s.size() >= 2 && s.size() <= 4;
  try {
    B<2, 4, Bytes> b(s);
    claim(fits, "a string outside the bounds is refused");
    claim(b.IsInitialised(), "a constructed instance is initialised");
    claim(b.string() == Bytes(s.begin(), s.end()), "the bytes are those of the string");
  } catch (const maidsafe_error& e) {
    claim(!fits, "a string within the bounds is accepted");
    claim(carries(e, CommonErrors::outside_of_bounds), "the error for a bad size is outside_of_bounds");
  }
}

template <typename F>
void refuses(F f) {
  try {
    f();
    unreachable("an uninitialised instance refuses access to its content");
  } catch (const maidsafe_error& e) {
    claim(carries(e, CommonErrors::uninitialised), "the error for an uninitialised instance is uninitialised");
  }
}

template <std::size_t mn, std::size_t mx, typename S>
void defaulted(const S& s) {
  B<mn, mx, S> b;
  const B<mn, mx, S>& c(b);
  if (mn == 0) {
    claim(b.IsInitialised() && b.size() == 0, "a default instance whose bounds allow it is the empty string");
  } else {
    claim(!b.IsInitialised(), "a default instance whose bounds forbid an empty string is uninitialised");
    refuses([&] { b.string(); });
    refuses([&] { b.size(); });
    refuses([&] { b.data(); });
    refuses([&] { b[0]; });
    refuses([&] { c[0]; });
  }
  // It can still be assigned to.
  b = B<mn, mx, S>(s);
  claim(b.IsInitialised() && b.string() == s, "assigning to a default instance makes it hold the value");
}
void p_default_2_4(const std::string& s) { given(s.size() >= 2 && s.size() <= 4); defaulted<2, 4, std::string>(s); }
void p_default_0_3(const Bytes& s) { given(s.size() <= 3); defaulted<0, 3, Bytes>(s); }
void p_default_3_3(const Bytes& s) { given(s.size() == 3); defaulted<3, 3, Bytes>(s); }

void p_copy(const std::string& s, const std::string& t) {
  given(s.size() >= 1 && s.size() <= 3 && t.size() >= 1 && t.size() <= 3);
  using X = B<1, 3, std::string>;
  X a(s), b(t), d;
  X c(a);
  claim(c.IsInitialised() && c.string() == s && a.string() == s, "a copy holds the same string and leaves the source");
  c = b;
  claim(c.IsInitialised() && c.string() == t && b.string() == t, "assignment holds the new string");
  X m(std::move(c));
  claim(m.IsInitialised() && m.string() == t, "a moved-to instance holds the string");
  m = std::move(a);
  claim(m.IsInitialised() && m.string() == s, "move assignment holds the string");
  X e(d);
  claim(!e.IsInitialised(), "a copy of an uninitialised instance is uninitialised");
  m = d;
  claim(!m.IsInitialised(), "assignment from an uninitialised instance leaves it uninitialised");
  X g(std::move(d));
  claim(!g.IsInitialised(), "a move of an uninitialised instance is uninitialised");
  b = std::move(g);
  claim(!b.IsInitialised(), "move assignment from an uninitialised instance leaves it uninitialised");
}

void p_convert(const std::string& s, const Bytes& t) {
  given(s.size() >= 2 && s.size() <= 3 && t.size() >= 1 && t.size() <= 4);
  B<2, 3, std::string> a(s);
  B<1, 4, Bytes> b(a);
  claim(b.IsInitialised() && b.string() == Bytes(s.begin(), s.end()) && a.string() == s,
        "conversion to wider bounds keeps the bytes");
  B<1, 4, std::string> c{B<1, 4, Bytes>(t)};
  claim(c.IsInitialised() && c.string() == std::string(t.begin(), t.end()), "conversion between forms keeps the bytes");
  c = a;
  claim(c.IsInitialised() && c.string() == s && a.string() == s, "converting assignment takes the value");
  B<2, 3, std::string> u;
  B<1, 4, std::string> w(u);
  claim(!w.IsInitialised(), "conversion of an uninitialised instance is uninitialised");
  c = u;
  claim(!c.IsInitialised(), "converting assignment from an uninitialised instance leaves it uninitialised");
}

void p_compare(const Bytes& s, const Bytes& t) {
  given(s.size() >= 1 && s.size() <= 3 && t.size() >= 1 && t.size() <= 3);
  using X = B<1, 3, Bytes>;
  X a(s), b(t), u, v;
  bool eq = s == t, lt = s < t, gt = t < s;
  claim((a == b) == eq, "== compares the strings");
  claim((a != b) == !eq, "!= compares the strings");
  claim((a < b) == lt, "< orders by the strings");
  claim((a > b) == gt, "> orders by the strings");
  claim((a <= b) == !gt, "<= orders by the strings");
  claim((a >= b) == !lt, ">= orders by the strings");
  claim(u == v && !(u != v) && !(u < v) && !(u > v) && u <= v && u >= v, "uninitialised instances are equal");
  claim(!(u == a) && u != a && u < a && u <= a && !(u > a) && !(u >= a),
        "an uninitialised instance orders before an initialised one");
  claim(!(a == u) && a != u && !(a < u) && !(a <= u) && a > u && a >= u,
        "an initialised instance orders after an uninitialised one");
}

template <typename S>
void xored(const S& s, const S& t) {
  using X = B<3, 3, S>;
  X a(s), b(t), u;
  X c = a ^ b;
  claim(c.IsInitialised() && c.size() == 3, "the exclusive-or has the operands' size");
  for (std::size_t i = 0; i < 3; ++i)
    claim(static_cast<unsigned char>(c[i]) ==
              (static_cast<unsigned char>(s[i]) ^ static_cast<unsigned char>(t[i])),
          "the exclusive-or is bitwise");
  claim(a.string() == s && b.string() == t, "the operands are unchanged");
  refuses([&] { a ^ u; });
  refuses([&] { u ^ a; });
}
void p_xor_bytes(const Bytes& s, const Bytes& t) { given(s.size() == 3 && t.size() == 3); xored<Bytes>(s, t); }
void p_xor_string(const std::string& s, const std::string& t) {
  given(s.size() == 3 && t.size() == 3);
  xored<std::string>(s, t);
}

void p_encode(const std::string& s) {
  given(s.size() >= 1 && s.size() <= 4);
  B<1, 4, std::string> a(s), u;
  claim(maidsafe::hex::Encode(a) == maidsafe::hex::Encode(s), "the hexadecimal form is that of the string");
  claim(maidsafe::base64::Encode(a) == maidsafe::base64::Encode(s), "the base-64 form is that of the string");
  refuses([&] { maidsafe::hex::Encode(u); });
  refuses([&] { maidsafe::base64::Encode(u); });
}

template <typename X>
std::string shown(const X& x) {
  std::ostringstream o;
  o << x;
  return o.str();
}
void p_stream(const std::string& s) {
  given(s.size() >= 1 && s.size() <= 8);
  using X = B<1, 8, std::string>;
  X a(s), u;
  claim(shown(a) == maidsafe::hex::Substr(s), "streaming shows the abbreviated hexadecimal form");
  claim(shown(u) == "Invalid string", "streaming an uninitialised instance says so");
  u = a;
  claim(shown(u) == maidsafe::hex::Substr(s), "an assigned instance streams its value");
  X c(a);
  claim(shown(c) == maidsafe::hex::Substr(s), "a copy streams its value");
  B<1, 9, Bytes> w(a);
  claim(shown(w) == maidsafe::hex::Substr(s), "a converted instance streams its value");
  B<1, 9, std::string> x;
  x = a;
  claim(shown(x) == maidsafe::hex::Substr(s), "an instance assigned by conversion streams its value");
  X d;
  X e(d);
  claim(shown(e) == "Invalid string", "a copy of an uninitialised instance streams as uninitialised");
}

}  // namespace probe
