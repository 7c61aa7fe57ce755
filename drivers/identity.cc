#include "probe.h"

#include "maidsafe/common/identity.h"

namespace probe {

using maidsafe::CommonErrors;
using maidsafe::Identity;
using maidsafe::maidsafe_error;
using Bytes = std::vector<unsigned char>;

// Lengths are 64 throughout.
void p_closer(const Bytes& a, const Bytes& b, const Bytes& t) {
  Identity x(a), y(b), z(t);
  bool less = false, decided = false;
  for (std::size_t i = 0; i < 64; ++i) {
    unsigned char p = static_cast<unsigned char>(a[i] ^ t[i]), q = static_cast<unsigned char>(b[i] ^ t[i]);
    less = decided ? less : p < q;
    decided = decided | (p != q);
  }
  claim(maidsafe::CloserToTarget(x, y, z) == less, "closer means the smaller exclusive-or distance");
}

void p_closer_order(const Bytes& a, const Bytes& b, const Bytes& t) {
  Identity x(a), y(b), z(t);
  bool xy = maidsafe::CloserToTarget(x, y, z), yx = maidsafe::CloserToTarget(y, x, z);
  claim(!(xy && yx), "two identities are not both closer than the other");
  claim(xy || yx || a == b, "of two different identities one is closer");
  claim(!maidsafe::CloserToTarget(x, x, z), "an identity is not closer than itself");
}

template <typename F>
void refuses(F f) {
  try {
    f();
    unreachable("an uninitialised identity is refused");
  } catch (const maidsafe_error& e) {
    claim(carries(e, CommonErrors::invalid_identity), "the error for an uninitialised identity is invalid_identity");
  }
}
template <typename F>
void refuses_any(F f) {
  try {
    f();
    unreachable("an uninitialised identity is refused");
  } catch (const maidsafe_error&) {
    claim(true, "an uninitialised identity cannot be encoded");
  }
}

void p_uninitialised(const Bytes& a) {
  Identity x(a), u;
  refuses([&] { maidsafe::CloserToTarget(u, x, x); });
  refuses([&] { maidsafe::CloserToTarget(x, u, x); });
  refuses([&] { maidsafe::CloserToTarget(x, x, u); });
  refuses([&] { maidsafe::CommonLeadingBits(u, x); });
  refuses([&] { maidsafe::CommonLeadingBits(x, u); });
  refuses([&] { maidsafe::binary::Encode(u); });
  refuses_any([&] { maidsafe::hex::Encode(u); });
  refuses_any([&] { maidsafe::base64::Encode(u); });
}

// Two identities that agree in the first n_k bytes and differ in byte n_k.
void p_leading(const Bytes& a, const Bytes& b, int n_k) {
  Bytes c(b);
  for (int i = 0; i < n_k; ++i) c[i] = a[i];
  given(a[n_k] != b[n_k]);
  unsigned char d = static_cast<unsigned char>(a[n_k] ^ b[n_k]);
  int bits = maidsafe::CommonLeadingBits(Identity(a), Identity(c));
  for (int j = 0; j < 8; ++j) {
    // j leading zeros in the difference
    bool here = (d >> (7 - j)) == 1;
    claim(!here || bits == 8 * n_k + j, "the number of common leading bits is exact");
  }
}

void p_leading_equal(const Bytes& a) {
  claim(maidsafe::CommonLeadingBits(Identity(a), Identity(a)) == 512, "equal identities have all bits in common");
}

void p_binary(const Bytes& a) {
  std::string s = maidsafe::binary::Encode(Identity(a));
  claim(s.size() == 512, "the binary form has one character per bit");
  for (std::size_t i = 0; i < 64; ++i)
    for (int j = 0; j < 8; ++j)
      claim(s[8 * i + j] == (((a[i] >> (7 - j)) & 1) ? '1' : '0'), "the binary form is most significant bit first");
}

void p_hex(const Bytes& a) {
  claim(maidsafe::hex::Encode(Identity(a)) == maidsafe::hex::Encode(a), "the hexadecimal form is that of the bytes");
  claim(maidsafe::base64::Encode(Identity(a)) == maidsafe::base64::Encode(a), "the base-64 form is that of the bytes");
}

void p_from_hex(const Bytes& a) {
  Identity x = maidsafe::MakeIdentity(maidsafe::hex::String(maidsafe::hex::Encode(a)));
  claim(x.string() == a, "an identity made from its hexadecimal form has the same bytes");
}

void p_from_base64(const Bytes& a) {
  Identity x = maidsafe::MakeIdentity(maidsafe::base64::String(maidsafe::base64::Encode(a)));
  claim(x.string() == a, "an identity made from its base-64 form has the same bytes");
}

void p_from_binary(const Bytes& a) {
  Identity x = maidsafe::MakeIdentity(maidsafe::binary::String(maidsafe::binary::Encode(Identity(a))));
  claim(x.string() == a, "an identity made from its binary form has the same bytes");
}

template <typename T>
void invalid(const std::string& s) {
  try {
    maidsafe::MakeIdentity(T(s));
    unreachable("a text of the wrong length is refused");
  } catch (const maidsafe_error& e) {
    claim(carries(e, CommonErrors::invalid_identity), "the error for a malformed text is invalid_identity");
  }
}
void p_hex_length(const std::string& s) { invalid<maidsafe::hex::String>(s); }
void p_base64_length(const std::string& s) { invalid<maidsafe::base64::String>(s); }
void p_binary_length(const std::string& s) { invalid<maidsafe::binary::String>(s); }

void p_hex_content(const Bytes& a, unsigned char c, int n_k) {
  std::string s = maidsafe::hex::Encode(a);
  s[n_k] = static_cast<char>(c);
  given(!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f')));
  invalid<maidsafe::hex::String>(s);
}
void p_binary_content(const Bytes& a, unsigned char c, int n_k) {
  std::string s = maidsafe::binary::Encode(Identity(a));
  s[n_k] = static_cast<char>(c);
  given(c != '0' && c != '1');
  invalid<maidsafe::binary::String>(s);
}

}  // namespace probe
