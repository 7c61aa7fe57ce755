// Minimal stand-in for the (never released) Boost.Expected header the MaidSafe super-project ships.
// Only the interface used by MaidSafe-Common; it exists so that the sources can be parsed.
#ifndef VERIF_STUB_BOOST_EXPECTED_HPP_
#define VERIF_STUB_BOOST_EXPECTED_HPP_
#include <exception>
#include <stdexcept>
#include <utility>
namespace boost {
template <typename E>
class unexpected_type {
 public:
  explicit unexpected_type(E e) : error_(std::move(e)) {}
  const E& value() const { return error_; }
 private:
  E error_;
};
template <typename E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& e) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(e));
}
template <typename T, typename E = std::exception_ptr>
class expected {
 public:
  expected(const T& v) : has_(true), value_(v), error_() {}
  expected(T&& v) : has_(true), value_(std::move(v)), error_() {}
  template <typename U>
  expected(const unexpected_type<U>& u) : has_(false), value_(), error_(u.value()) {}
  bool valid() const { return has_; }
  explicit operator bool() const { return has_; }
  T& value() { if (!has_) throw std::logic_error("bad expected access"); return value_; }
  const T& value() const { if (!has_) throw std::logic_error("bad expected access"); return value_; }
  T& operator*() { return value_; }
  const T& operator*() const { return value_; }
  T* operator->() { return &value_; }
  const T* operator->() const { return &value_; }
  const E& error() const { return error_; }
 private:
  bool has_;
  T value_;
  E error_;
};
}  // namespace boost
#endif
