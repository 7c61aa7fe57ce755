// Claims about the library's functions, for abstract evaluation only (never linked, never run).
#ifndef MSA_PROBE_H_
#define MSA_PROBE_H_
#include <cstddef>
#include <cstdint>
#include <exception>
#include <string>
#include <vector>
#include "maidsafe/common/error.h"
namespace probe {
// The condition has to hold on every path that reaches the claim.
void claim(bool condition, const char* what);
// The path must not exist.
void unreachable(const char* what);
// The caught exception carries exactly this error.
template <typename E, typename C>
bool carries(const E& caught, C code);
// A value about which nothing is known.
template <typename T>
T any();
// Restricts what is claimed about to inputs satisfying the condition.
void given(bool condition);
}
#endif
