#include "probe.h"

#include <limits>

#include "maidsafe/common/utils.h"

namespace probe {

using maidsafe::byte;

// From here on the generator and its seed may only be used while this mutex is held, and it must not be held twice.
void guarded(std::mutex& mutex);
// Whether it is held now.
bool held();
// The condition has to hold on some path, for some draw.
void possible(bool condition, const char* what);

bool alphanumeric(unsigned c) {
  return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
}

void p_ints(int32_t n_signed, uint32_t n_unsigned) {
  guarded(maidsafe::detail::random_number_generator_mutex());
  possible(maidsafe::RandomInt32() == n_signed, "RandomInt32 can give every value");
  possible(maidsafe::RandomUint32() == n_unsigned, "RandomUint32 can give every value");
  claim(!held(), "the generator is free again");
}

void p_sizes(size_t n_size, uint32_t n_byte) {
  guarded(maidsafe::detail::random_number_generator_mutex());
  const std::string text(maidsafe::RandomString(n_size));
  const std::vector<byte> bytes(maidsafe::RandomBytes(n_size));
  claim(text.size() == n_size, "RandomString has the size asked for");
  claim(bytes.size() == n_size, "RandomBytes has the size asked for");
  for (size_t i(0); i != n_size; ++i) {
    possible(static_cast<byte>(text[i]) == n_byte, "every byte of RandomString can have every value");
    possible(bytes[i] == n_byte, "every byte of RandomBytes can have every value");
  }
  if (n_size > 1) possible(bytes[0] != bytes[1] && text[0] != text[1], "bytes are drawn one by one");
  claim(!held(), "the generator is free again");
}

void p_alphanumeric(size_t n_size, uint32_t n_alnum) {
  guarded(maidsafe::detail::random_number_generator_mutex());
  const std::string text(maidsafe::RandomAlphaNumericString(n_size));
  const std::vector<byte> bytes(maidsafe::RandomAlphaNumericBytes(n_size));
  claim(text.size() == n_size, "RandomAlphaNumericString has the size asked for");
  claim(bytes.size() == n_size, "RandomAlphaNumericBytes has the size asked for");
  for (size_t i(0); i != n_size; ++i) {
    claim(alphanumeric(static_cast<byte>(text[i])), "RandomAlphaNumericString holds alphanumeric characters only");
    claim(alphanumeric(bytes[i]), "RandomAlphaNumericBytes holds alphanumeric characters only");
    possible(static_cast<byte>(text[i]) == n_alnum, "every alphanumeric character can be drawn");
    possible(bytes[i] == n_alnum, "every alphanumeric byte can be drawn");
  }
  claim(!held(), "the generator is free again");
}

// Every size from min to max, and no other, for each of the functions of random size.
void sized(size_t size, uint32_t min, uint32_t max, bool which) {
  claim(size >= min && size <= max, "a random size is between the limits");
  if (which) possible(size == min, "the smallest size is possible"); else possible(size == max, "the largest size is possible");
}

void p_range(int n_what, uint32_t n_min, uint32_t n_more, int n_end) {
  guarded(maidsafe::detail::random_number_generator_mutex());
  const uint32_t max(n_min + n_more);
  if (n_what == 0) sized(maidsafe::RandomString(n_min, max).size(), n_min, max, n_end != 0);
  if (n_what == 1) sized(maidsafe::RandomBytes(n_min, max).size(), n_min, max, n_end != 0);
  if (n_what == 2) sized(maidsafe::RandomAlphaNumericString(n_min, max).size(), n_min, max, n_end != 0);
  if (n_what == 3) sized(maidsafe::RandomAlphaNumericBytes(n_min, max).size(), n_min, max, n_end != 0);
  claim(!held(), "the generator is free again");
}

// The size of every container made from here on is between the limits; what becomes of a large one is left out.
void limits(uint32_t min, uint32_t max);

void p_far(int n_what, uint32_t n_low, uint32_t n_far) {
  guarded(maidsafe::detail::random_number_generator_mutex());
  claim(true, "sizes from the whole range can be asked for");
  limits(n_low, n_far);
  if (n_what == 0) maidsafe::RandomString(n_low, n_far);
  if (n_what == 1) maidsafe::RandomBytes(n_low, n_far);
  if (n_what == 2) maidsafe::RandomAlphaNumericString(n_low, n_far);
  if (n_what == 3) maidsafe::RandomAlphaNumericBytes(n_low, n_far);
}

void p_successive() {
  guarded(maidsafe::detail::random_number_generator_mutex());
  const uint32_t first(maidsafe::RandomUint32());
  possible(first != maidsafe::RandomUint32(), "successive values can differ");
  const std::string text(maidsafe::RandomString(2));
  possible(text != maidsafe::RandomString(2), "successive strings can differ");
  const std::string name(maidsafe::RandomAlphaNumericString(1));
  possible(name != maidsafe::RandomAlphaNumericString(1), "successive alphanumeric strings can differ");
}

void p_seed(uint32_t seed) {
  guarded(maidsafe::detail::random_number_generator_mutex());
  maidsafe::RandomUint32();
  maidsafe::detail::set_random_number_generator_seed(seed);
  claim(maidsafe::detail::random_number_generator_seed() == seed, "the seed set is the seed given");
  const uint32_t value(maidsafe::RandomUint32());
  const std::string text(maidsafe::RandomString(1));
  maidsafe::detail::set_random_number_generator_seed(seed);
  claim(maidsafe::RandomUint32() == value, "the same seed gives the same values");
  claim(maidsafe::RandomString(1) == text, "the same seed gives the same strings");
  claim(!held(), "the generator is free again");
}

}  // namespace probe
