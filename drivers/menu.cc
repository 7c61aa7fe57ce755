#include "console.h"

#include "maidsafe/common/menu.h"
#include "maidsafe/common/menu_item.h"

namespace probe {

using maidsafe::CommonErrors;
using maidsafe::maidsafe_error;
using maidsafe::Menu;
using maidsafe::MenuItem;

// ------------------------------------------------------------------ items
void p_item_name(const std::string& name, int n_child) {
  try {
    MenuItem item("Main", nullptr);
    if (n_child) {
      MenuItem* child = item.AddChildItem(name);
      claim(child && child->kName_ == name && child->kParent_ == &item, "an item knows its name and its parent");
      claim(item.Child(0) == child && !item.HasNoChildren() && child->HasNoChildren(), "a child added is the parent's");
    } else {
      MenuItem top(name, nullptr);
      claim(top.kName_ == name && !top.kParent_ && top.HasNoChildren(), "an item made on its own has no parent");
    }
    claim(!name.empty(), "an item without a name is refused");
  } catch (const maidsafe_error& e) {
    claim(name.empty(), "an item with a name is accepted");
    claim(carries(e, CommonErrors::invalid_argument), "the error for an empty name is invalid_argument");
  }
}

void p_failed_child() {
  MenuItem item("Main", nullptr);
  item.AddChildItem("A");
  try {
    item.AddChildItem("");
    unreachable("an item without a name is refused");
  } catch (const maidsafe_error&) {
  }
  try {
    claim(item.Child(1) == nullptr, "a refused child is not added");
  } catch (const std::exception&) {
    claim(true, "a refused child is not added");
  }
}

void p_duplicate(const std::string& a, const std::string& b, const std::string& c) {
  given(!a.empty() && !b.empty() && !c.empty());
  MenuItem item("Main", nullptr);
  const MenuItem* first = item.AddChildItem(a);
  const MenuItem* second = nullptr;
  try {
    second = item.AddChildItem(b);
    claim(a != b, "two children of one item have different names");
  } catch (const maidsafe_error& e) {
    claim(a == b, "a new name is accepted");
    claim(carries(e, CommonErrors::invalid_argument), "the error for a name in use is invalid_argument");
  }
  try {
    const MenuItem* third = item.AddChildItem(c);
    claim(c != a && c != b, "three children of one item have different names");
    claim(item.Child(second ? 2 : 1) == third, "children keep the order they were added in");
  } catch (const maidsafe_error&) {
    claim(c == a || c == b, "a new name is accepted after others");
  }
  claim(item.Child(0) == first, "the first child stays the first");
  if (second) claim(item.Child(1) == second, "the second child stays the second");
}

void p_same_name_elsewhere(const std::string& a) {
  given(!a.empty());
  MenuItem item("Main", nullptr);
  MenuItem* sub = item.AddChildItem(a);
  MenuItem* below = sub->AddChildItem(a);
  claim(below && below->kParent_ == sub && sub->Child(0) == below, "an item may be called as its parent is");
}

void p_child_index(int index, int n_children) {
  MenuItem item("Main", nullptr);
  const MenuItem* made[3] = {nullptr, nullptr, nullptr};
  const char* const names[] = {"A", "B", "C"};
  for (int i = 0; i < n_children; ++i) made[i] = item.AddChildItem(names[i]);
  try {
    const MenuItem* child = item.Child(index);
    claim(index >= 0 && index < n_children, "an index out of range is refused");
    for (int i = 0; i < n_children; ++i)
      if (index == i) claim(child == made[i], "children are found by the order they were added in");
  } catch (const std::exception&) {
    claim(index < 0 || index >= n_children, "an index in range is accepted");
  }
}

void p_operation(int n_with) {
  int runs = 0;
  MenuItem::Functor f;
  if (n_with) f = [&runs] { ++runs; };
  MenuItem item("Main", f);
  const MenuItem* child = item.AddChildItem("A", f);
  claim(runs == 0, "making an item does not run its operation");
  item.DoOperation();
  claim(runs == n_with, "the operation runs once when it is asked for, if there is one");
  child->DoOperation();
  claim(runs == 2 * n_with, "the child's operation runs once when it is asked for, if there is one");
}

void p_show(int n_children) {
  MenuItem item("Main", nullptr);
  const char* const names[] = {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"};
  MenuItem* last = nullptr;
  for (int i = 0; i < n_children; ++i) last = item.AddChildItem(names[i]);
  item.ShowChildrenNames();
  if (last) last->ShowChildrenNames();
  claim(true, "a menu can be shown");
}

// ------------------------------------------------------------------ the tree walked
//   Main: 1 A (1), 2 S: (1 C (100), 2 T: (1 E (10000), 2 F (20000)), 3 D (200)), 3 B (2)
struct Walk {
  int where = 0;      // 0 Main, 1 S, 2 T
  int total = 0;
  // What the answer does; false if it is no choice.
  bool go(int answer) {
    if (answer == 99 && where) {
      --where;
      return true;
    }
    if (where == 0) {
      if (answer == 1) total += 1;
      else if (answer == 2) where = 1;
      else if (answer == 3) total += 2;
      else return false;
    } else if (where == 1) {
      if (answer == 1) total += 100;
      else if (answer == 2) where = 2;
      else if (answer == 3) total += 200;
      else return false;
    } else {
      if (answer == 1) total += 10000;
      else if (answer == 2) total += 20000;
      else return false;
    }
    return true;
  }
};

int answered(int n) {
  const int values[] = {1, 2, 3, 99, 4, -1, -5, 98, 100, 5000};
  return values[n];
}
const char* typed(int n) {
  const char* const lines[] = {"1", " 2 ", "3", "99", "4", "-1", "-5", "98", "100", "5000", "x", "", "99999999999", "-", "\t"};
  return lines[n];
}

void p_walk(int n_a, int n_b, int n_c, int n_d, int n_twice) {
  int total = 0;
  Menu menu("Main");
  menu.AddItem("A", [&total] { total += 1; });
  MenuItem* s = menu.AddItem("S");
  menu.AddItem("B", [&total] { total += 2; });
  s->AddChildItem("C", [&total] { total += 100; });
  MenuItem* t = s->AddChildItem("T");
  s->AddChildItem("D", [&total] { total += 200; });
  t->AddChildItem("E", [&total] { total += 10000; });
  t->AddChildItem("F", [&total] { total += 20000; });
  Walk walk;
  const int choice[] = {n_a, n_b, n_c, n_d};
  for (int i = 0; i < 4; ++i) {
    types(typed(choice[i]));
    if (i == 1 && n_twice) {
      types("0");
      claim(menu.Run() == 0, "0 ends the menu without an error");
      claim(!lines_left(), "every answer up to 0 is used");
    }
    if (choice[i] < 10) walk.go(answered(choice[i]));
    if (i == 1 && n_twice) claim(total == walk.total, "the operations chosen run");
  }
  types("0");
  types("1");
  claim(menu.Run() == 0, "0 ends the menu without an error");
  claim(lines_left(), "nothing is read after 0");
  claim(total == walk.total, "each choice runs the operation of the item shown under it, and nothing else does");
}

void p_sub_operation() {
  int order = 0;
  Menu menu("Main", "$ ");
  MenuItem* s = menu.AddItem("S", [&order] { order = order * 10 + 1; });
  s->AddChildItem("A", [&order] { order = order * 10 + 2; });
  types("1");
  types("1");
  types("1");
  types("0");
  claim(menu.Run() == 0 && order == 122, "entering a menu runs its own operation, and leads to its items");
}

void p_item_throws(int n_code) {
  const CommonErrors codes[] = {CommonErrors::invalid_argument, CommonErrors::unknown, CommonErrors::file_too_large,
                                CommonErrors::no_such_element};
  int after = 0;
  Menu menu("Main");
  menu.AddItem("Throw", [&] {
    if (n_code == 4) throw std::bad_alloc();
    BOOST_THROW_EXCEPTION(maidsafe::MakeError(codes[n_code]));
  });
  menu.AddItem("After", [&] { ++after; });
  types("1");
  types("2");
  int result = menu.Run();
  claim(result == maidsafe::ErrorToInt(maidsafe::MakeError(n_code == 4 ? CommonErrors::unknown : codes[n_code])),
        "an operation's exception ends the menu with its error");
  claim(result != 0 && after == 0 && lines_left(), "nothing runs after an operation that threw");
  types("0");
  claim(menu.Run() == 0 && after == 1, "the menu can be run again after an operation threw");
}

void p_no_items(int n_answer) {
  Menu menu("Main");
  types(n_answer == 0 ? "0" : n_answer == 1 ? "1" : "99");
  types("0");
  claim(menu.Run() == 0, "a menu without items can be left");
}

void p_input_ends(int n_lines) {
  int runs = 0;
  Menu menu("Main");
  menu.AddItem("A", [&runs] { ++runs; });
  for (int i = 0; i < n_lines; ++i) types("1");
  int result = menu.Run();
  claim(result != 0, "a menu whose input ends without 0 ends with an error");
  claim(runs == n_lines, "the answers before the end are followed");
}

}  // namespace probe
