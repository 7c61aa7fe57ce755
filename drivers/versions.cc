#include "probe.h"

#include "maidsafe/common/data_types/structured_data_versions.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/data_types/structured_data_versions_cereal.h"

namespace probe {

using maidsafe::CommonErrors;
using maidsafe::Identity;
using maidsafe::maidsafe_error;
using Sdv = maidsafe::StructuredDataVersions;
using Name = Sdv::VersionName;
using Names = std::vector<Name>;

Name named(std::uint64_t index, unsigned char fill) {
  return Name(index, Identity(std::vector<maidsafe::byte>(64, fill)));
}

// What ought to be there: versions by number, each with the number of its parent, or -1 and the name it was put under.
struct Spec {
  Names name;
  Names under;
  std::vector<int> parent;
  std::vector<bool> there;
  int root = -1;
  int max_versions = 10, max_branches = 10;
  // Outcome of the last operation
  bool removed = false, failed = false;
  Name which;
  CommonErrors error = CommonErrors::success;

  int size() const { return static_cast<int>(name.size()); }
  void add(Name n, int p, Name u) {
    name.push_back(n);
    parent.push_back(p);
    under.push_back(u);
    there.push_back(true);
  }
  int count() const {
    int c = 0;
    for (int j = 0; j < size(); ++j)
      if (there[j]) ++c;
    return c;
  }
  int children(int i) const {
    int c = 0;
    for (int j = 0; j < size(); ++j)
      if (there[j] && parent[j] == i) ++c;
    return c;
  }
  bool tip(int i) const { return there[i] && children(i) == 0; }
  int tips() const {
    int c = 0;
    for (int j = 0; j < size(); ++j)
      if (tip(j)) ++c;
    return c;
  }
  int find(const Name& n) const {
    if (!n.id.IsInitialised()) return -1;
    for (int j = 0; j < size(); ++j)
      if (there[j] && name[j].id == n.id && name[j].index == n.index) return j;
    return -1;
  }
  bool waits(int j, const Name& n) const {
    return there[j] && parent[j] < 0 && under[j].id.IsInitialised() && under[j].id == n.id && under[j].index == n.index;
  }
  // The lowest of the versions the condition holds for.
  template <typename F>
  int lowest(F f) const {
    int low = -1;
    for (int j = 0; j < size(); ++j)
      if (there[j] && f(j) && (low < 0 || name[j] < name[low])) low = j;
    return low;
  }
  void drop(int i) {
    there[i] = false;
    if (i == root) {
      int r = lowest([&](int j) { return parent[j] == i; });
      root = r >= 0 ? r : lowest([&](int j) { return parent[j] < 0; });
    }
    for (int j = 0; j < size(); ++j)
      if (parent[j] == i) {
        parent[j] = -1;
        under[j] = name[i];
      }
  }
  void fail(CommonErrors e) {
    failed = true;
    error = e;
  }
  // As documented.
  void put(Name o, Name n) {
    removed = failed = false;
    if (!n.id.IsInitialised()) return fail(CommonErrors::invalid_argument);
    int e = find(n), p = find(o);
    if (e >= 0) {
      bool same = parent[e] >= 0 ? parent[e] == p
                                 : o.id.IsInitialised() ? waits(e, o) : !under[e].id.IsInitialised();
      if (!same) fail(CommonErrors::invalid_argument);
      return;
    }
    bool first = !o.id.IsInitialised() || count() == 0 || n.index == 0;
    if (first && root >= 0 && !under[root].id.IsInitialised()) return fail(CommonErrors::invalid_argument);
    if (first) p = -1;
    if (p < 0 && !first && name[root].index == 0 && o.index == 0) return fail(CommonErrors::invalid_argument);
    bool adopts = false;
    int front = p;
    while (front >= 0 && parent[front] >= 0) front = parent[front];
    for (int j = 0; j < size(); ++j)
      if (waits(j, n)) {
        adopts = true;
        if (j == front) return fail(CommonErrors::invalid_argument);
      }
    bool erase = count() == max_versions;
    if (erase && (first || waits(root, n))) {
      removed = true;
      which = n;
      return;
    }
    if (tips() == max_branches && !adopts && (p < 0 || !tip(p))) {
      if (first || !tip(root)) return fail(CommonErrors::cannot_exceed_limit);
      erase = true;
    }
    int k = size();
    bool takes_root = root >= 0 && waits(root, n);
    for (int j = 0; j < k; ++j)
      if (waits(j, n)) parent[j] = k;
    add(n, p, o);
    if (root < 0 || first)
      root = k;
    else if (takes_root)
      root = p < 0 ? k : front;
    else if (erase) {
      removed = true;
      which = name[root];
      drop(root);
    }
  }
  void erase(Name n) {
    removed = failed = false;
    int i = find(n);
    if (i < 0) return fail(CommonErrors::no_such_element);
    if (!tip(i)) return fail(CommonErrors::invalid_argument);
    for (;;) {
      int p = parent[i];
      drop(i);
      if (p < 0 || children(p) > 0) return;
      i = p;
    }
  }
};

void agrees(const Sdv& s, const Spec& m) {
  Names tips = s.Get();
  std::size_t count = 0;
  for (int j = 0; j < static_cast<int>(m.name.size()); ++j)
    if (m.tip(j)) ++count;
  claim(tips.size() == count, "there are as many tips as versions without children");
  for (std::size_t k = 0; k < tips.size(); ++k) {
    int i = m.find(tips[k]);
    claim(i >= 0 && m.tip(i), "every tip is a version without children");
    claim(m.name[i] == tips[k], "a tip is named as it was put");
    if (k) claim(tips[k - 1] > tips[k], "tips come in descending order");
    Names branch = s.GetBranch(tips[k]);
    for (std::size_t b = 0; b < branch.size(); ++b) {
      claim(i >= 0 && branch[b] == m.name[i], "a branch leads from its tip from parent to parent");
      i = m.parent[i];
    }
    claim(i == -1, "a branch ends at a version without a parent");
  }
  for (int j = 0; j < static_cast<int>(m.name.size()); ++j) {
    if (m.tip(j)) continue;
    try {
      s.GetBranch(m.name[j]);
      unreachable("only tips name a branch");
    } catch (const maidsafe_error& e) {
      if (m.there[j])
        claim(carries(e, CommonErrors::invalid_argument), "the error for a version that is no tip is invalid_argument");
      else
        claim(carries(e, CommonErrors::no_such_element), "the error for an unknown version is no_such_element");
    }
  }
}

// Each version is known under what it was put under, and nothing else.
void known(Sdv& s, const Spec& m) {
  for (int j = 0; j < m.size(); ++j) {
    if (!m.there[j]) continue;
    try {
      claim(!s.Put(m.parent[j] < 0 ? m.under[j] : m.name[m.parent[j]], m.name[j]), "putting a version again removes nothing");
    } catch (const maidsafe_error&) {
      unreachable("a version may be put again under the same parent");
    }
    try {
      s.Put(named(99, 'w'), m.name[j]);
      unreachable("a version may not be put again under another parent");
    } catch (const maidsafe_error& e) {
      claim(carries(e, CommonErrors::invalid_argument), "the error for another parent is invalid_argument");
    }
  }
}

// The parent is given by number; any other number stands for a version that is not there.
Name parent_of(const Spec& m, int p) { return p == 9 ? Name() : p == 6 ? named(76, 'x') : p < m.size() ? m.name[p] : named(77, 'x'); }

// A tree of a root and three versions.
Names some(std::uint64_t i1, std::uint64_t i2, std::uint64_t i3) {
  given(i1 > 0 && i2 > 0 && i3 > 0);
  Names n;
  n.push_back(named(0, 'r'));
  n.push_back(named(i1, 'b'));
  n.push_back(named(i2, 'c'));
  n.push_back(named(i3, 'a'));
  return n;
}
// All indices are fixed but one.
Names some(std::uint64_t i, int n_free) {
  return some(n_free == 1 ? i : 10, n_free == 2 ? i : 55, n_free == 3 ? i : 12);
}
Spec tree(const Names& n, int n_p2, int n_p3) {
  Spec m;
  m.put(Name(), n[0]);
  m.put(n[0], n[1]);
  m.put(parent_of(m, n_p2), n[2]);
  m.put(n_p3 == 8 ? n[3] : parent_of(m, n_p3), n_p3 == 8 ? named(78, 'y') : n[3]);
  return m;
}

// What was put is there, or the error is right and nothing has changed.
void put(Sdv& s, Spec& m, Name o, Name n) {
  m.put(o, n);
  try {
    auto r = s.Put(o, n);
    claim(!m.failed, "what has to be refused is refused");
    claim(static_cast<bool>(r) == m.removed, "a version is removed just when the limits demand it");
    if (r) claim(*r == m.which, "the removed version is the root");
  } catch (const maidsafe_error& e) {
    claim(m.failed, "what is in order is accepted");
    claim(carries(e, m.error), "the error is the documented one");
  }
}
void erase(Sdv& s, Spec& m, Name n) {
  m.erase(n);
  try {
    s.DeleteBranchUntilFork(n);
    claim(!m.failed, "only a tip names a branch to delete");
  } catch (const maidsafe_error& e) {
    claim(m.failed, "a tip names a branch to delete");
    claim(carries(e, m.error), "the error is the documented one");
  }
}
void fill(Sdv& s, const Spec& m) {
  for (int i = 0; i < m.size(); ++i)
    claim(!s.Put(m.parent[i] < 0 ? m.under[i] : m.name[m.parent[i]], m.name[i]), "nothing is removed while there is room");
}

// Any order of arrival.
void p_order(std::uint64_t i1, std::uint64_t i2, std::uint64_t i3, int n_p2, int n_p3, int n_order) {
  Spec m = tree(some(i1, i2, i3), n_p2, n_p3);
  Sdv s(10, 10);
  std::vector<int> left = {0, 1, 2, 3};
  for (int k = 4; k > 0; --k) {
    int i = left[n_order % k];
    left.erase(left.begin() + n_order % k);
    n_order /= k;
    claim(!s.Put(m.parent[i] < 0 ? m.under[i] : m.name[m.parent[i]], m.name[i]), "nothing is removed while there is room");
  }
  agrees(s, m);
}
// A tree whose root waits for its parent as well.
void p_late(std::uint64_t i, int n_p2, int n_under, int n_new, int n_limits) {
  Spec m;
  given(i > 0);
  m.put(named(8, 'o'), named(9, 'r'));
  m.put(named(9, 'r'), named(i, 'b'));
  m.put(parent_of(m, n_p2), named(12, 'c'));
  m.put(m.name[2], named(13, 'd'));
  if (n_limits & 1) m.max_versions = 4;
  if (n_limits & 2) m.max_branches = m.tips();
  Sdv s(m.max_versions, m.max_branches);
  fill(s, m);
  put(s, m, n_under == 8 ? named(8, 'o') : parent_of(m, n_under),
      n_new == 8 ? named(8, 'o') : n_new == 7 ? named(77, 'x') : n_new == 6 ? named(0, 'z') : named(40, 'n'));
  agrees(s, m);
  known(s, m);
}
// Which of two orphans follows a root alone.
void p_lowest(std::uint64_t i, std::uint64_t j, int n_under) {
  given(i > 0 && j > 0 && i != 60 && j != 60);
  Spec m;
  m.put(Name(), named(0, 'r'));
  m.put(named(70, 'v'), named(i, 'a'));
  m.put(n_under == 0 ? named(70, 'v') : named(69 + n_under, 'u'), named(j, 'b'));
  m.max_versions = 3;
  Sdv s(3, 10);
  fill(s, m);
  put(s, m, named(75, 'w'), named(60, 'c'));
  agrees(s, m);
  put(s, m, named(60, 'c'), named(61, 'd'));
  agrees(s, m);
  known(s, m);
}
// One more, whatever it is, with room and without.
void p_put(std::uint64_t i, int n_free, int n_p2, int n_p3, int n_under, int n_new, int n_limits) {
  given(i > 0);
  Names n = some(i, n_free);
  Spec m = tree(n, n_p2, n_p3);
  if (n_limits & 1) m.max_versions = 4;
  if (n_limits & 2) m.max_branches = m.tips();
  Sdv s(m.max_versions, m.max_branches);
  fill(s, m);
  Name x = n_new < 4 ? m.name[n_new] : n_new == 4 ? named(n_free == 4 ? i : 40, 'n') : n_new == 5 ? named(77, 'x') : n_new == 6 ? named(0, 'z') : Name();
  // What waits for itself is out of order anyway.
  given(!(n_under == 7 && n_new == 5));
  put(s, m, parent_of(m, n_under), x);
  agrees(s, m);
}
// Two more than there is room for: which version takes the root's place shows.
void p_full(std::uint64_t i, int n_free, int n_p2, int n_p3, int n_under, int n_next) {
  Spec m = tree(some(i, n_free), n_p2, n_p3);
  m.max_versions = 4;
  Sdv s(4, 10);
  fill(s, m);
  put(s, m, parent_of(m, n_under), named(50, 'n'));
  put(s, m, parent_of(m, n_next), named(60, 'm'));
  agrees(s, m);
}
void p_delete(std::uint64_t i, int n_free, int n_p2, int n_p3, int n_which, int n_next) {
  Spec m = tree(some(i, n_free), n_p2, n_p3);
  m.max_versions = 4;
  Sdv s(4, 10);
  fill(s, m);
  erase(s, m, parent_of(m, n_which));
  agrees(s, m);
  erase(s, m, parent_of(m, n_next));
  agrees(s, m);
}
// An empty one.
void p_clear(std::uint64_t i1, std::uint64_t i2, std::uint64_t i3, int n_p2, int n_p3) {
  Spec m = tree(some(i1, i2, i3), n_p2, n_p3), none;
  Sdv s(10, 10);
  fill(s, m);
  s.clear();
  agrees(s, none);
  fill(s, m);
  agrees(s, m);
}

// What was written is read again: the limits, the versions, the root and what the orphans wait for.
void p_trip(std::uint64_t i, int n_free, int n_p2, int n_p3, int n_next) {
  Spec m = tree(some(i, n_free), n_p2, n_p3);
  m.max_versions = 4;
  Sdv s(4, 9);
  fill(s, m);
  Sdv t(s.Serialise());
  claim(t.max_versions() == 4 && t.max_branches() == 9, "the limits are read as written");
  agrees(t, m);
  agrees(s, m);
  put(t, m, n_next == 4 ? Name() : parent_of(m, n_next), n_next == 7 ? named(78, 'y') : n_next == 8 ? named(77, 'x') : named(60, 'm'));
  agrees(t, m);
  known(t, m);
}
// Merging puts what was there before into what is read.
void p_apply(std::uint64_t i, int n_free, int n_p2, int n_p3, int n_mine, int n_next) {
  Spec m = tree(some(i, n_free), n_p2, n_p3);
  Sdv s(4, 9), t(10, 10);
  for (int i = 0; i < m.size(); ++i) {
    Name under = m.parent[i] < 0 ? m.under[i] : m.name[m.parent[i]];
    if (n_mine >> i & 1) s.Put(under, m.name[i]);
    if (!(n_mine >> 4 >> i & 1)) t.Put(under, m.name[i]);
  }
  s.ApplySerialised(t.Serialise());
  claim(s.max_versions() == 10 && s.max_branches() == 10, "the limits are those that are read");
  agrees(s, m);
  put(s, m, parent_of(m, n_next), n_next == 7 ? named(78, 'y') : named(60, 'm'));
  agrees(s, m);
}
void p_swap(std::uint64_t i, int n_free, int n_p2, int n_p3, int n_empty) {
  Spec m = tree(some(i, n_free), n_p2, n_p3), o;
  Sdv s(10, 10), t(7, 8);
  fill(s, m);
  if (!n_empty) {
    o.put(Name(), named(0, 'q'));
    o.put(named(4, 'o'), named(5, 'p'));
    fill(t, o);
  }
  swap(s, t);
  claim(t.max_versions() == 10 && t.max_branches() == 10 && s.max_versions() == 7 && s.max_branches() == 8,
        "the limits are exchanged");
  agrees(t, m);
  agrees(s, o);
  put(t, m, m.name[3], named(60, 'm'));
  agrees(t, m);
  put(s, o, n_empty ? Name() : named(0, 'q'), named(61, 'm'));
  agrees(s, o);
}
// What no container writes is refused.
void p_bad(std::uint64_t i1, std::uint64_t i2, int n_bad) {
  given(i1 > 0 && i2 > 0);
  maidsafe::detail::StructuredDataVersionsCereal c;
  c.max_versions = 9;
  c.max_branches = 9;
  c.branches.emplace_back();
  c.branches.back().names.push_back(named(0, 'r'));
  c.branches.back().names.push_back(named(i1, 'a'));
  if (n_bad == 0) c.branches.emplace_back();
  if (n_bad == 1) {
    c.branches.emplace_back();
    c.branches.back().names.push_back(named(i2, 'b'));
  }
  if (n_bad == 2) c.branches[0].names.push_back(named(0, 'r'));
  if (n_bad == 3) c.branches[0].names.back().forking_child_count = 2;
  if (n_bad == 4) {
    c.branches[0].names.back().forking_child_count = 1;
    c.branches.emplace_back();
    c.branches.back().names.push_back(named(i2, 'b'));
  }
  if (n_bad == 5) c.max_versions = 1;
  if (n_bad == 6 || n_bad == 7) {
    c.branches.emplace_back();
    c.branches.back().names.push_back(named(i2, 'b'));
    c.branches.back().absent_parent = named(77, 'x');
    if (n_bad == 6) c.max_branches = 1;
  }
  try {
    Sdv s{Sdv::serialised_type(maidsafe::NonEmptyString(maidsafe::Serialise(c)))};
    claim(n_bad >= 7, "what is malformed is refused");
    claim(s.Get().size() == (n_bad == 7 ? 2 : 1), "what is well formed is read");
  } catch (const maidsafe_error& e) {
    claim(n_bad < 7, "what is well formed is accepted");
    claim(carries(e, CommonErrors::parsing_error), "the error is parsing_error");
  }
}

void p_nothing(int n_versions, int n_branches) {
  try {
    Sdv s(n_versions, n_branches);
    claim(n_versions > 0 && n_branches > 0, "a limit of nothing is refused");
    claim(s.max_versions() == static_cast<std::uint32_t>(n_versions) &&
              s.max_branches() == static_cast<std::uint32_t>(n_branches),
          "the limits are as given");
    claim(s.Get().empty(), "there are no tips at first");
    try {
      s.GetBranch(named(1, 'a'));
      unreachable("an unknown version names no branch");
    } catch (const maidsafe_error& e) {
      claim(carries(e, CommonErrors::no_such_element), "the error for an unknown version is no_such_element");
    }
    try {
      s.DeleteBranchUntilFork(named(1, 'a'));
      unreachable("an unknown version names no branch");
    } catch (const maidsafe_error& e) {
      claim(carries(e, CommonErrors::no_such_element), "the error for an unknown version is no_such_element");
    }
  } catch (const maidsafe_error& e) {
    claim(n_versions == 0 || n_branches == 0, "limits of at least one are accepted");
    claim(carries(e, CommonErrors::invalid_argument), "the error for a limit of nothing is invalid_argument");
  }
}

}  // namespace probe
