#include "probe.h"

#include <ostream>
#include <sstream>
#include <utility>

#include "maidsafe/common/tagged_value.h"
#include "maidsafe/common/type_macros.h"
#include "maidsafe/common/types.h"

namespace probe {

using maidsafe::TaggedValue;
struct Tag;
struct OtherTag;

template <typename T>
void compare(const T& a, const T& b) {
  const TaggedValue<T, Tag> x(a), y(b);
  claim((x == y) == (a == b), "== compares the values");
  claim((x != y) == (a != b), "!= compares the values");
  claim((x < y) == (a < b), "< compares the values");
  claim((x > y) == (a > b), "> compares the values");
  claim((x <= y) == (a <= b), "<= compares the values");
  claim((x >= y) == (a >= b), ">= compares the values");
}
void p_compare_u64(std::uint64_t a, std::uint64_t b) { compare<std::uint64_t>(a, b); }
void p_compare_u32(std::uint32_t a, std::uint32_t b) { compare<std::uint32_t>(a, b); }
void p_compare_i32(std::int32_t a, std::int32_t b) { compare<std::int32_t>(a, b); }
void p_compare_i8(std::int8_t a, std::int8_t b) { compare<std::int8_t>(a, b); }
void p_compare_string(const std::string& a, const std::string& b) { compare<std::string>(a, b); }

template <typename T>
void keep(const T& a, const T& b) {
  using V = TaggedValue<T, Tag>;
  V x(a);
  claim(x.data == a, "a tagged value holds what it is given");
  T out = x;
  claim(out == a, "the conversion gives the value");
  claim(*x.operator->() == a, "-> gives the value");
  const V& cx = x;
  claim(*cx.operator->() == a, "const -> gives the value");
  claim(cx.operator->() == &x.data, "-> points to the value");
  V y(x);
  claim(y.data == a && x.data == a, "a copy holds the same value, the original keeps it");
  V z(std::move(x));
  claim(z.data == a, "a moved value arrives");
  V w(b);
  claim(w.data == b, "another value is held");
  w = y;
  claim(w.data == a && y.data == a, "copy assignment gives the same value, the original keeps it");
  V v(b);
  v = std::move(w);
  claim(v.data == a, "move assignment gives the value");
  V& r = (v = V(b));
  claim(v.data == b && &r == &v, "move assignment replaces the value and gives the object assigned to");
  v.operator->()[0] = a;
  claim(v.data == a, "-> lets the value be changed");
}
void p_keep_u64(std::uint64_t a, std::uint64_t b) { keep<std::uint64_t>(a, b); }
void p_keep_i32(std::int32_t a, std::int32_t b) { keep<std::int32_t>(a, b); }
void p_keep_string(const std::string& a, const std::string& b) { keep<std::string>(a, b); }

// An archive that takes the members, or gives them.
struct Out {
  std::uint64_t got = 0;
  int n = 0;
  Out& operator()(const std::uint64_t& v) {
    got = v;
    ++n;
    return *this;
  }
};
struct In {
  std::uint64_t give;
  In& operator()(std::uint64_t& v) {
    v = give;
    return *this;
  }
};
void p_serialise(std::uint64_t a, std::uint64_t b) {
  maidsafe::MemoryUsage m(a);
  Out o;
  m.serialize(o);
  claim(o.n == 1 && o.got == a, "the value alone is saved");
  In i = {b};
  m.serialize(i);
  claim(m.data == b, "loading gives the saved value");
}

void p_types(std::uint64_t a, std::uint32_t b) {
  maidsafe::MemoryUsage m(a);
  maidsafe::DiskUsage d(a);
  maidsafe::DataTypeId t(b);
  claim(m.data == a && d.data == a && t.data == b, "the library's tagged types hold all their bits");
}

DEFINE_OSTREAMABLE_ENUM_VALUES(Fruit, std::int32_t, (Apple)(Pear)(Plum))
DEFINE_OSTREAMABLE_ENUM_VALUES(Only, std::uint8_t, (One))
DEFINE_OSTREAMABLE_ENUM_VALUES(Wide, std::uint64_t, (A)(B)(C)(D)(E))

void p_valid_i32(std::int32_t v) {
  claim(IsValid(static_cast<Fruit>(v)) == (v >= 0 && v <= 2), "IsValid holds for the enumerators only");
}
void p_valid_u8(std::uint8_t v) {
  claim(IsValid(static_cast<Only>(v)) == (v == 0), "IsValid holds for the enumerators only");
}
void p_valid_u64(std::uint64_t v) {
  claim(IsValid(static_cast<Wide>(v)) == (v <= 4), "IsValid holds for the enumerators only");
}
template <typename E>
std::string text(E e) {
  std::ostringstream s;
  s << e;
  return s.str();
}
void p_values() {
  claim(static_cast<std::int32_t>(Fruit::kApple) == 0 && static_cast<std::int32_t>(Fruit::kPear) == 1 &&
            static_cast<std::int32_t>(Fruit::kPlum) == 2,
        "enumerators are numbered from 0 in order");
  claim(sizeof(Fruit) == 4 && sizeof(Only) == 1 && sizeof(Wide) == 8, "the enumeration has the given type");
}
void p_text(std::int32_t v) {
  std::string expected =
      v == 0 ? "Apple" : v == 1 ? "Pear" : v == 2 ? "Plum" : "Invalid Fruit type";
  claim(text(static_cast<Fruit>(v)) == expected, "an enumerator is written as its name without the k");
}
void p_text_one(std::uint8_t v) {
  claim(text(static_cast<Only>(v)) == (v == 0 ? std::string("One") : std::string("Invalid Only type")),
        "an enumerator is written as its name without the k");
}
void p_text_wide(std::uint64_t v) {
  std::string expected = v == 0 ? "A" : v == 1 ? "B" : v == 2 ? "C" : v == 3 ? "D" : v == 4 ? "E" : "Invalid Wide type";
  claim(text(static_cast<Wide>(v)) == expected, "an enumerator is written as its name without the k");
}

}  // namespace probe
