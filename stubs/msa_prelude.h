// Pre-included by the analysers so that every source of MaidSafe-Common parses here.
#include <array>
#include <cassert>
#include <memory>
#include <cstdint>
