#include "probe.h"

#include "maidsafe/common/crypto.h"

namespace probe {

using maidsafe::byte;
using maidsafe::CommonErrors;
using maidsafe::NonEmptyString;
using maidsafe::maidsafe_error;
namespace mc = maidsafe::crypto;
using Key = mc::AES256KeyAndIV;
using Bytes = std::vector<byte>;

// From here on, every transformation of the library fails with CryptoPP::Exception.
void broken();
// AES in Galois counter mode: the cipher text and its 16 byte code.
Bytes encrypted(const Bytes& key, const Bytes& iv, const Bytes& text);
Bytes zipped(int level, const Bytes& text);
Bytes digest(int bits, const Bytes& text);
Bytes derived(int bits, const Bytes& password, const Bytes& salt, uint32_t iterations, int size);

template <typename F>
void refused(F f, CommonErrors code, const char*) {
  try {
    f();
  } catch (const maidsafe_error& e) {
    claim(carries(e, code), "the error is the one that tells what is wrong");
    return;
  }
  unreachable("what cannot be done is refused");
}

// ---------------------------------------------------------------- encryption
void p_encrypt(const Bytes& key, const Bytes& text) {
  const Key k{key};
  const mc::CipherText c(mc::SymmEncrypt(NonEmptyString{text}, k));
  claim(c->string() == encrypted(Bytes(key.begin(), key.begin() + 32), Bytes(key.begin() + 32, key.end()), text),
        "a text is encrypted whole with AES-256 in Galois counter mode, with the first 32 bytes as the key and the last 16 as the initial value");
  claim(mc::SymmDecrypt(c, k).string() == text, "decrypting gives the text back");
}

void p_other_key(const Bytes& key, const Bytes& other, const Bytes& text) {
  given(!(key == other));
  const mc::CipherText c(mc::SymmEncrypt(NonEmptyString{text}, Key{key}));
  refused([&] { mc::SymmDecrypt(c, Key{other}); }, CommonErrors::symmetric_decryption_error, "");
}

void p_tampered(const Bytes& key, const Bytes& text, uint32_t n_at, byte change) {
  given(change != 0);
  const mc::CipherText c(mc::SymmEncrypt(NonEmptyString{text}, Key{key}));
  Bytes b(c->string());
  claim(b.size() == text.size() + 16, "the cipher text carries a code of 16 bytes");
  b[n_at == 99 ? b.size() - 1 : n_at] ^= change;
  refused([&] { mc::SymmDecrypt(mc::CipherText{NonEmptyString{b}}, Key{key}); }, CommonErrors::symmetric_decryption_error, "");
}

// Long texts are treated as short ones.
void p_long(const Bytes& key, uint32_t n_size) {
  const Bytes text(n_size, 'x');
  const mc::CipherText c(mc::SymmEncrypt(NonEmptyString{text}, Key{key}));
  claim(mc::SymmDecrypt(c, Key{key}).string() == text, "decrypting gives the text back");
  Bytes b(c->string());
  b[n_size / 2] ^= 1;
  refused([&] { mc::SymmDecrypt(mc::CipherText{NonEmptyString{b}}, Key{key}); }, CommonErrors::symmetric_decryption_error, "");
  claim(mc::Uncompress(mc::Compress(NonEmptyString{text}, 9)).string() == text, "uncompressing gives the text back");
}

void p_shortened(const Bytes& key, const Bytes& text, uint32_t n_at) {
  const mc::CipherText c(mc::SymmEncrypt(NonEmptyString{text}, Key{key}));
  const Bytes b(c->string().begin(), c->string().end() - n_at);
  refused([&] { mc::SymmDecrypt(mc::CipherText{NonEmptyString{b}}, Key{key}); }, CommonErrors::symmetric_decryption_error, "");
}

void p_forged(const Bytes& key, const Bytes& text) {
  refused([&] { mc::SymmDecrypt(mc::CipherText{NonEmptyString{text}}, Key{key}); }, CommonErrors::symmetric_decryption_error, "");
}

void p_unset(const Bytes& key, const Bytes& text) {
  refused([&] { mc::SymmEncrypt(NonEmptyString{}, Key{key}); }, CommonErrors::uninitialised, "");
  refused([&] { mc::SymmEncrypt(NonEmptyString{text}, Key{}); }, CommonErrors::uninitialised, "");
  refused([&] { mc::SymmDecrypt(mc::CipherText{NonEmptyString{}}, Key{key}); }, CommonErrors::uninitialised, "");
  refused([&] { mc::SymmDecrypt(mc::CipherText{NonEmptyString{text}}, Key{}); }, CommonErrors::uninitialised, "");
}

void p_broken(const Bytes& key, const Bytes& text) {
  broken();
  refused([&] { mc::SymmEncrypt(NonEmptyString{text}, Key{key}); }, CommonErrors::symmetric_encryption_error, "");
  refused([&] { mc::SymmDecrypt(mc::CipherText{NonEmptyString{text}}, Key{key}); }, CommonErrors::symmetric_decryption_error, "");
  refused([&] { mc::Compress(NonEmptyString{text}, 5); }, CommonErrors::compression_error, "");
  refused([&] { mc::Uncompress(mc::CompressedText{NonEmptyString{text}}); }, CommonErrors::uncompression_error, "");
  refused([&] { mc::Hash<mc::SHA512>(text); }, CommonErrors::hashing_error, "");
}

// ---------------------------------------------------------------- compression
void p_compress(const Bytes& text, uint16_t n_level) {
  if (n_level > 9) {
    refused([&] { mc::Compress(NonEmptyString{text}, n_level); }, CommonErrors::invalid_argument, "");
    return;
  }
  const mc::CompressedText c(mc::Compress(NonEmptyString{text}, n_level));
  claim(c->string() == zipped(n_level, text), "a text is compressed whole, at the level asked for");
  claim(mc::Uncompress(c).string() == text, "uncompressing gives the text back");
}

void p_compress_unset(uint16_t n_level) {
  refused([&] { mc::Compress(NonEmptyString{}, n_level); }, n_level > 9 ? CommonErrors::invalid_argument : CommonErrors::uninitialised, "");
  refused([&] { mc::Uncompress(mc::CompressedText{NonEmptyString{}}); }, CommonErrors::uninitialised, "");
}

void p_uncompress(const Bytes& text) {
  try {
    claim(mc::Uncompress(mc::CompressedText{NonEmptyString{text}}).IsInitialised(), "what is uncompressed is a text");
  } catch (const maidsafe_error&) {
  } catch (...) {
    unreachable("what cannot be uncompressed is refused with an error of the library");
  }
}

// ---------------------------------------------------------------- digests
void p_hash(const Bytes& text) {
  claim(mc::Hash<mc::SHA512>(text).string() == digest(512, text), "the digest is that of all bytes");
  claim(mc::Hash<mc::SHA1>(text).string() == digest(1, text), "the digest is that of all bytes");
  claim(mc::Hash<mc::SHA256>(text).string() == digest(256, text), "the digest is that of all bytes");
  claim(mc::Hash<mc::SHA384>(text).string() == digest(384, text), "the digest is that of all bytes");
}
void p_hash_bounded(const Bytes& text) {
  claim(mc::Hash<mc::SHA512>(NonEmptyString{text}).string() == digest(512, text), "the digest is that of all bytes");
}
void p_hash_string(const std::string& text) {
  const auto h = mc::Hash<mc::SHA512>(text);
  const Bytes b(text.begin(), text.end()), d(digest(512, b));
  claim(h.string() == std::string(d.begin(), d.end()), "the digest is that of all bytes");
}

// ---------------------------------------------------------------- passwords
void p_password(const Bytes& password, const Bytes& salt, const std::string& label, uint32_t n_pin) {
  const mc::SecurePassword p(mc::CreateSecurePassword(NonEmptyString{password}, NonEmptyString{salt}, n_pin, label));
  Bytes context(salt);
  context.insert(context.end(), label.begin(), label.end());
  claim(p->string() == derived(512, password, context, n_pin % 10000 + 10000, 48),
        "a password is derived from all of the password, the salt and the label, in 10000 to 19999 iterations chosen by the pin");
}
void p_password_unset(const Bytes& text, uint32_t n_pin) {
  refused([&] { mc::CreateSecurePassword(NonEmptyString{}, NonEmptyString{text}, n_pin); }, CommonErrors::uninitialised, "");
  refused([&] { mc::CreateSecurePassword(NonEmptyString{text}, NonEmptyString{}, n_pin); }, CommonErrors::uninitialised, "");
}

// ---------------------------------------------------------------- pieces
void p_shares(const Bytes& text, int32_t threshold, int32_t shares) {
  given(threshold > shares || shares < 3 || threshold < 2);
  refused([&] { mc::SecretShareData(threshold, shares, NonEmptyString{text}); }, CommonErrors::invalid_argument, "");
  refused([&] { mc::InfoDisperse(threshold, shares, NonEmptyString{text}); }, CommonErrors::invalid_argument, "");
}


// Which pieces are used: two bits for each, first one in the lowest.
mc::DataParts chosen(const mc::DataParts& all, uint32_t which, int count) {
  mc::DataParts some;
  for (int i(0); i != count; ++i) some.push_back(all[(which >> (2 * i)) & 3]);
  return some;
}
void p_secret(const Bytes& text, uint32_t n_needed, uint32_t n_which) {
  const mc::DataParts all(mc::SecretShareData(n_needed, 4, NonEmptyString{text}));
  claim(all.size() == 4, "there are as many pieces as asked for");
  claim(mc::SecretRecoverData(chosen(all, n_which, n_needed)).string() == text, "any pieces give the secret, if they are as many as needed");
  if (n_needed == 3) claim(mc::SecretRecoverData(all).string() == text, "all pieces give the secret");
}
void p_info(const Bytes& text, uint32_t n_needed, uint32_t n_which) {
  const mc::DataParts all(mc::InfoDisperse(n_needed, 4, NonEmptyString{text}));
  claim(all.size() == 4, "there are as many pieces as asked for");
  claim(mc::InfoRetrieve(chosen(all, n_which, n_needed)).string() == text, "any pieces give the text, if they are as many as needed");
}
void p_no_pieces(const Bytes& text) {
  refused([&] { mc::SecretRecoverData(mc::DataParts{}); }, CommonErrors::invalid_argument, "");
  refused([&] { mc::InfoRetrieve(mc::DataParts{}); }, CommonErrors::invalid_argument, "");
  refused([&] { mc::SecretRecoverData(mc::DataParts{NonEmptyString{}, NonEmptyString{text}}); }, CommonErrors::invalid_argument, "");
  refused([&] { mc::InfoRetrieve(mc::DataParts{NonEmptyString{}, NonEmptyString{text}}); }, CommonErrors::invalid_argument, "");
  refused([&] { mc::SecretRecoverData(mc::DataParts{NonEmptyString{text}, NonEmptyString{text}}); }, CommonErrors::invalid_argument, "");
  refused([&] { mc::InfoRetrieve(mc::DataParts{NonEmptyString{text}, NonEmptyString{text}}); }, CommonErrors::invalid_argument, "");
}

}  // namespace probe
