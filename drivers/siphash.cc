#include "probe.h"

#include <array>

#include "maidsafe/common/hash/algorithms/siphash.h"

namespace probe {

using namespace maidsafe;
using Bytes = std::vector<unsigned char>;

// SipHash-2-4 as published.
std::uint64_t rotl(std::uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }

struct Ref {
  std::uint64_t v0, v1, v2, v3;
  void round() {
    v0 = v0 + v1;
    v2 = v2 + v3;
    v1 = rotl(v1, 13);
    v3 = rotl(v3, 16);
    v1 = v1 ^ v0;
    v3 = v3 ^ v2;
    v0 = rotl(v0, 32);
    v2 = v2 + v1;
    v0 = v0 + v3;
    v1 = rotl(v1, 17);
    v3 = rotl(v3, 21);
    v1 = v1 ^ v2;
    v3 = v3 ^ v0;
    v2 = rotl(v2, 32);
  }
  void word(std::uint64_t m) {
    v3 = v3 ^ m;
    round();
    round();
    v0 = v0 ^ m;
  }
};

std::uint64_t reference(const Bytes& key, const Bytes& in) {
  std::uint64_t k0 = 0, k1 = 0;
  for (int i = 0; i < 8; ++i) {
    k0 |= static_cast<std::uint64_t>(key[i]) << (8 * i);
    k1 |= static_cast<std::uint64_t>(key[8 + i]) << (8 * i);
  }
  Ref r;
  r.v0 = k0 ^ 0x736f6d6570736575ULL;
  r.v1 = k1 ^ 0x646f72616e646f6dULL;
  r.v2 = k0 ^ 0x6c7967656e657261ULL;
  r.v3 = k1 ^ 0x7465646279746573ULL;
  std::uint64_t word = 0;
  std::size_t n = in.size();
  for (std::size_t i = 0; i < n; ++i) {
    word |= static_cast<std::uint64_t>(in[i]) << (8 * (i % 8));
    if (i % 8 == 7) {
      r.word(word);
      word = 0;
    }
  }
  word |= static_cast<std::uint64_t>(n % 256) << 56;
  r.word(word);
  r.v2 = r.v2 ^ 0xff;
  r.round();
  r.round();
  r.round();
  r.round();
  return r.v0 ^ r.v1 ^ r.v2 ^ r.v3;
}

std::array<byte, 16> array_of(const Bytes& key) {
  std::array<byte, 16> a{{}};
  for (int i = 0; i < 16; ++i) a[i] = key[i];
  return a;
}

void p_whole(const Bytes& key, const Bytes& in) {
  SipHash h(array_of(key));
  h.Update(in.data(), in.size());
  claim(h.Finalize() == reference(key, in), "the hash of one piece is SipHash-2-4");
  claim(h.Finalize() == reference(key, in), "finalising does not change the state");
}

void p_two(const Bytes& key, const Bytes& in, std::size_t n_cut) {
  given(n_cut <= in.size());
  SipHash h(array_of(key));
  h.Update(in.data(), n_cut);
  h.Finalize();
  h.Update(in.data() + n_cut, in.size() - n_cut);
  claim(h.Finalize() == reference(key, in), "the hash does not depend on a cut");
}

void p_long(const Bytes& key, const Bytes& in, std::size_t n_cut) {
  SipHash h(array_of(key));
  h.Update(in.data(), n_cut);
  h.Update(in.data() + n_cut, in.size() - n_cut);
  claim(h.Finalize() == reference(key, in), "the hash of more than 255 bytes is SipHash-2-4");
}

void p_three(const Bytes& key, const Bytes& in, std::size_t n_cut, std::size_t n_second) {
  given(n_cut + n_second <= in.size());
  SipHash h(array_of(key));
  h.Update(in.data(), n_cut);
  h.Update(in.data() + n_cut, n_second);
  h.Update(in.data() + n_cut + n_second, in.size() - n_cut - n_second);
  claim(h.Finalize() == reference(key, in), "the hash does not depend on two cuts");
}

void p_bytewise(const Bytes& key, const Bytes& in) {
  SipHash h(array_of(key));
  for (std::size_t i = 0; i < in.size(); ++i)
    h.Update(&in[i], 1);
  claim(h.Finalize() == reference(key, in), "the hash does not depend on feeding single bytes");
}

void p_copy(const Bytes& key, const Bytes& in, std::size_t n_cut) {
  given(n_cut <= in.size());
  SipHash h(array_of(key));
  h.Update(in.data(), n_cut);
  SipHash g(h);
  g.Update(in.data() + n_cut, in.size() - n_cut);
  h.Update(in.data() + n_cut, in.size() - n_cut);
  claim(h.Finalize() == g.Finalize(), "a copy continues from the same state");
}

}  // namespace probe
