// Stand-in for MaidSafe's cereal fork (boost::optional support).
#ifndef VERIF_STUB_CEREAL_BOOST_OPTIONAL_HPP_
#define VERIF_STUB_CEREAL_BOOST_OPTIONAL_HPP_
#include "boost/optional.hpp"
#include "cereal/cereal.hpp"
namespace cereal {
template <class Archive, typename T>
void save(Archive& ar, const boost::optional<T>& o) {
  bool present = static_cast<bool>(o);
  ar(present);
  if (present) ar(*o);
}
template <class Archive, typename T>
void load(Archive& ar, boost::optional<T>& o) {
  bool present = false;
  ar(present);
  if (present) { T t; ar(t); o = std::move(t); } else { o = boost::none; }
}
}  // namespace cereal
#endif
