#include "probe.h"

#include <chrono>
#include <string>
#include <utility>
#include <vector>

#include "maidsafe/common/containers/lru_cache.h"

namespace probe {

using Ns = std::chrono::steady_clock::duration;
// The steady clock reads this from now on.
void clock_at(std::int64_t ns);

using Key = unsigned char;
using Cache = maidsafe::LruCache<Key, unsigned char>;
using Filter = maidsafe::LruCache<Key, void>;

// What the documentation says: keys in the order of their last use, each with its value and the time it was added.
struct Entry {
  Key key;
  unsigned char value;
  std::int64_t added;
};

struct Reference {
  std::size_t capacity;
  std::int64_t ttl;
  std::int64_t now = 0;
  std::vector<Entry> order;

  std::size_t find(Key k) const {
    for (std::size_t i = 0; i < order.size(); ++i)
      if (order[i].key == k) return i;
    return order.size();
  }
  void add(Key k, unsigned char v) {
    if (find(k) != order.size() || capacity == 0) return;
    if (order.size() == capacity) order.erase(order.begin());
    while (ttl != 0 && !order.empty() && order[0].added + ttl < now) order.erase(order.begin());
    Entry e = Entry();
    e.key = k;
    e.value = v;
    e.added = now;
    order.push_back(e);
  }
  void use(Key k) {
    std::size_t i = find(k);
    if (i == order.size()) return;
    Entry e = order[i];
    order.erase(order.begin() + i);
    order.push_back(e);
  }
  void remove(Key k) {
    std::size_t i = find(k);
    if (i != order.size()) order.erase(order.begin() + i);
  }
};

void compare(Cache& c, Reference& r, Key any_key) {
  claim(c.size() == r.order.size(), "size() is the number of keys held");
  claim(r.order.size() <= r.capacity, "the reference keeps to its capacity");
  std::size_t i = r.find(any_key);
  claim(c.Check(any_key) == (i != r.order.size()), "Check tells exactly the keys held: the least recently used one left");
  auto got = c.Get(any_key);
  if (i == r.order.size()) {
    claim(!got, "Get of a key not held gives no value");
    if (!got) claim(carries(got.error(), maidsafe::CommonErrors::no_such_element), "the error is no_such_element");
  } else {
    claim(!!got, "Get of a key held gives a value");
    if (got) claim(*got == r.order[i].value, "Get gives the value first added for the key");
    r.use(any_key);
  }
}

void act(Cache& c, Reference& r, int op, Key k, unsigned char v) {
  if (op == 0) {
    c.Add(k, v);
    r.add(k, v);
  } else if (op == 1) {
    auto got = c.Get(k);
    claim(!!got == (r.find(k) != r.order.size()), "Get finds exactly the keys held");
    r.use(k);
  } else {
    c.Delete(k);
    r.remove(k);
  }
}

// Any sequence of operations on any keys behaves as the reference.
void p_capacity(int n_cap, int n_op1, int n_op2, int n_op3, int n_op4, Key k1, Key k2, Key k3, Key k4, Key k,
                unsigned char v1, unsigned char v2, unsigned char v3, unsigned char v4) {
  Cache c(static_cast<std::size_t>(n_cap));
  Reference r;
  r.capacity = n_cap;
  r.ttl = 0;
  act(c, r, n_op1, k1, v1);
  act(c, r, n_op2, k2, v2);
  act(c, r, n_op3, k3, v3);
  act(c, r, n_op4, k4, v4);
  compare(c, r, k);
}

// The recency order decides what later additions evict.
void p_eviction(int n_cap, int n_op1, int n_op2, int n_more, Key k1, Key k2, Key k3, Key k4, Key k) {
  Cache c(static_cast<std::size_t>(n_cap));
  Reference r;
  r.capacity = n_cap;
  r.ttl = 0;
  act(c, r, 0, k1, 1);
  act(c, r, 0, k2, 2);
  act(c, r, n_op1, k3, 3);
  act(c, r, n_op2, k4, 4);
  act(c, r, 0, 250, 5);
  if (n_more > 1) act(c, r, 0, 251, 6);
  compare(c, r, k);
}

// Entries older than the time to live go when a new key is added, the others stay.
void p_expiry(int n_cap, int n_d1, int n_d2, int n_d3, int n_op, Key k1, Key k2, Key k3, Key k) {
  Cache c(static_cast<std::size_t>(n_cap), Ns(100));
  Reference r;
  r.capacity = n_cap;
  r.ttl = 100;
  clock_at(r.now = 1000);
  act(c, r, 0, k1, 1);
  clock_at(r.now = r.now + n_d1);
  act(c, r, 0, k2, 2);
  clock_at(r.now = r.now + n_d2);
  act(c, r, n_op, k3, 3);
  clock_at(r.now = r.now + n_d3);
  act(c, r, 0, 200, 4);
  compare(c, r, k);
}

void p_expiry_unbounded(int n_d1, int n_d2, Key k1, Key k2, Key k) {
  Cache c{Ns(100)};
  Reference r;
  r.capacity = static_cast<std::size_t>(-1);
  r.ttl = 100;
  clock_at(r.now = 1000);
  act(c, r, 0, k1, 1);
  clock_at(r.now = r.now + n_d1);
  act(c, r, 0, k2, 2);
  clock_at(r.now = r.now + n_d2);
  act(c, r, 0, 200, 4);
  compare(c, r, k);
}

// The filter keeps keys as the cache does.
void p_filter(int n_cap, int n_d1, int n_d2, int n_d3, Key k1, Key k2, Key k3, Key k4, Key k) {
  Filter c(static_cast<std::size_t>(n_cap), Ns(100));
  Reference r;
  r.capacity = n_cap;
  r.ttl = 100;
  clock_at(r.now = 1000);
  c.Add(k1);
  r.add(k1, 0);
  clock_at(r.now = r.now + n_d1);
  c.Add(k2);
  r.add(k2, 0);
  clock_at(r.now = r.now + n_d2);
  c.Add(k3);
  r.add(k3, 0);
  clock_at(r.now = r.now + n_d3);
  c.Add(k4);
  r.add(k4, 0);
  claim(c.size() == r.order.size(), "size() is the number of keys held");
  claim(c.Check(k) == (r.find(k) != r.order.size()), "Check tells exactly the keys held");
}

void p_filter_capacity(int n_cap, Key k1, Key k2, Key k3, Key k4, Key k) {
  Filter c(static_cast<std::size_t>(n_cap));
  Reference r;
  r.capacity = n_cap;
  r.ttl = 0;
  Key ks[] = {k1, k2, k3, k4};
  for (int i = 0; i < 4; ++i) {
    c.Add(ks[i]);
    r.add(ks[i], 0);
  }
  claim(c.size() == r.order.size(), "size() is the number of keys held");
  claim(c.Check(k) == (r.find(k) != r.order.size()), "Check tells exactly the keys held");
}

// Keys ordered by content.
void p_string_keys(const std::string& k1, const std::string& k2, const std::string& k) {
  maidsafe::LruCache<std::string, int> c(1);
  c.Add(k1, 1);
  c.Add(k2, 2);
  claim(c.size() == 1, "the capacity is kept");
  claim(c.Check(k) == (k == k2), "the newest key is the one held");
  auto got = c.Get(k);
  if (got) claim(*got == (k1 == k2 ? 1 : 2), "Get gives the value first added for the key");
}

}  // namespace probe
