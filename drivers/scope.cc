#include "probe.h"

#include <functional>
#include <memory>
#include "boost/bind.hpp"
#ifdef MSA_OTHER_COMPILER
#pragma push_macro("__clang__")
#undef __clang__
#include "maidsafe/common/on_scope_exit.h"
#pragma pop_macro("__clang__")
#else
#include "maidsafe/common/on_scope_exit.h"
#endif
#include "maidsafe/common/make_unique.h"

namespace probe {

using maidsafe::on_scope_exit;
using Action = on_scope_exit::ExitAction;

struct Odd {};

// From now on there is no (or again) memory to keep an action in.
void no_memory(bool none);

// Leaves the scope guarded by the action in the given way: 0 at its end, 1 by return, 2 by an exception.
template <typename F>
void leave(int n_how, F action) {
  on_scope_exit guard(action);
  if (n_how == 1) return;
  if (n_how == 2) throw Odd();
}
template <typename F>
void leave_named(int n_how, F action) {
  Action named(action);
  on_scope_exit guard(named);
  if (n_how == 1) return;
  if (n_how == 2) throw Odd();
}

void p_once(int n_how, int n_named) {
  int runs = 0;
  bool thrown = false;
  try {
    if (n_named)
      leave_named(n_how, [&runs] { ++runs; });
    else
      leave(n_how, [&runs] { ++runs; });
  } catch (const Odd&) {
    thrown = true;
  }
  claim(runs == 1, "the action runs exactly once however the scope is left");
  claim(thrown == (n_how == 2), "an exception leaving the scope is passed on, and none is added");
}

void p_not_before(int n_how) {
  int runs = 0;
  try {
    on_scope_exit guard([&runs] { ++runs; });
    claim(runs == 0, "the action does not run before the scope is left");
    if (n_how == 2) throw Odd();
  } catch (const Odd&) {
    claim(runs == 1, "the action has run by the time a handler outside the scope runs");
  }
}

struct Cleaner {
  int* runs;
  ~Cleaner() {
    on_scope_exit guard([this] { ++*runs; });
  }
};
void p_unwinding(int n_how) {
  int runs = 0, inner = 0;
  try {
    Cleaner cleaner = {&runs};
    if (n_how == 2) throw Odd();
  } catch (const Odd&) {
    on_scope_exit guard([&inner] { ++inner; });
    claim(inner == 0, "the action does not run before the scope is left");
  }
  claim(runs == 1, "a guard inside a destructor acts, also when an exception is being handled");
  claim(inner == (n_how == 2 ? 1 : 0), "a guard inside a handler acts");
}

void p_order() {
  int last = 0, first = 0;
  {
    on_scope_exit outer([&] { last = first == 1 ? 1 : 2; });
    on_scope_exit inner([&] { first = last == 0 ? 1 : 2; });
  }
  claim(first == 1 && last == 1, "guards act in the reverse of the order they were made in");
}

void p_release(int n_how) {
  int runs = 0;
  try {
    on_scope_exit guard([&runs] { ++runs; });
    guard.Release();
    if (n_how == 2) throw Odd();
  } catch (const Odd&) {
  }
  claim(runs == 0, "a released guard runs nothing");
}

void p_replace(int n_how, int n_times) {
  int runs = 0, others = 0;
  try {
    on_scope_exit guard([&runs] { ++runs; });
    if (n_times == 2) guard.Release();
    guard.SetAction([&others] { ++others; });
    claim(runs == 0 && others == 0, "replacing the action runs neither");
    if (n_times == 3) guard.SetAction([&runs] { runs += 5; });
    if (n_how == 2) throw Odd();
  } catch (const Odd&) {
  }
  claim(runs == (n_times == 3 ? 5 : 0), "a replaced action does not run");
  claim(others == (n_times == 3 ? 0 : 1), "the action set last runs exactly once");
}

void p_unset() {
  int runs = 0;
  {
    on_scope_exit guard([&runs] { ++runs; });
    guard.SetAction();
  }
  claim(runs == 0, "setting no action releases the guard");
  {
    Action none;
    on_scope_exit guard(none);
  }
  claim(true, "a guard without an action does nothing");
}

void p_no_memory(int n_how) {
  int runs = 0;
  try {
    no_memory(true);
    on_scope_exit guard([&runs, n_how] {
      ++runs;
      if (n_how == 2) no_memory(false);
    });
    unreachable("a guard that cannot keep its action throws");
  } catch (const std::bad_alloc&) {
    claim(runs == 1, "a guard that cannot keep its action runs it at once");
  }
}

template <typename T>
void reverts(int n_how, int n_released, const T& before, const T& after, const T& later) {
  T value(before);
  try {
    on_scope_exit guard(on_scope_exit::RevertValue(value));
    claim(value == before, "making the guard leaves the value alone");
    value = after;
    if (n_released) guard.Release();
    if (n_how == 2) throw Odd();
  } catch (const Odd&) {
  }
  claim(value == (n_released ? after : before), "the value is what it was when the guard was made, unless released");
  {
    on_scope_exit guard(on_scope_exit::RevertValue(value));
    value = later;
  }
  claim(value == (n_released ? after : before), "a later guard restores the later value");
}
void p_revert_number(int n_how, int n_released, long before, long after, long later) {
  reverts(n_how, n_released, before, after, later);
}
void p_revert_text(int n_how, int n_released, const std::string& before, const std::string& after,
                   const std::string& later) {
  reverts(n_how, n_released, before, after, later);
}
void p_revert_bytes(int n_how, int n_released, const std::vector<unsigned char>& before,
                    const std::vector<unsigned char>& after, const std::vector<unsigned char>& later) {
  reverts(n_how, n_released, before, after, later);
}

void p_set_value(long before, long after) {
  long value = before;
  on_scope_exit::SetValue(value, after);
  claim(value == after, "SetValue assigns the value");
}

struct Pair {
  Pair(int& a, const std::string& b, std::unique_ptr<int> c) : first(a), second(b), third(std::move(c)) {}
  int& first;
  std::string second;
  std::unique_ptr<int> third;
};

void p_make_unique(int x, const std::string& text) {
  auto number = maidsafe::make_unique<int>(x);
  claim(number && *number == x, "make_unique makes the object from the argument");
  auto zero = maidsafe::make_unique<int>();
  claim(zero && *zero == 0, "without arguments the object is value initialised");
  int named = x;
  auto pair = maidsafe::make_unique<Pair>(named, text, std::move(number));
  claim(pair && &pair->first == &named, "arguments are passed on as references");
  claim(pair->second == text, "the second argument is the second parameter");
  claim(!number, "an expiring argument is moved from");
  claim(pair->third && *pair->third == x, "the third argument is the third parameter");
}

void p_make_array(int n_size) {
  auto numbers = maidsafe::make_unique<int[]>(static_cast<std::size_t>(n_size));
  claim(static_cast<bool>(numbers), "an array is made, even an empty one");
  for (int i = 0; i < n_size; ++i) claim(numbers[i] == 0, "every element of an array is value initialised");
  for (int i = 0; i < n_size; ++i) numbers[i] = i + 1;
  for (int i = 0; i < n_size; ++i) claim(numbers[i] == i + 1, "the array has the elements asked for");
}

}  // namespace probe
