#include "probe.h"

#include <tuple>

#include "maidsafe/common/crypto.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"

namespace probe {

using namespace maidsafe;
using Bytes = std::vector<unsigned char>;

// An archive that hands out a given name and a given content, or takes them.
struct Source {
  Bytes name, value;
  bool named, valued;
  template <typename... T>
  Source& operator()(T&&... t) {
    int order[] = {(get(t), 0)...};
    static_cast<void>(order);
    return *this;
  }
  void get(cereal::base_class<Data>& b) { b.base_ptr->load(*this); }
  void get(const cereal::base_class<Data>& b) { b.base_ptr->load(*this); }
  void get(Identity& i) { if (named) i = Identity(name); }
  void get(NonEmptyString& s) { if (valued) s = NonEmptyString(value); }
};

struct Sink {
  Bytes name, value;
  int names, values;
  template <typename... T>
  Sink& operator()(T&&... t) {
    int order[] = {(put(t), 0)...};
    static_cast<void>(order);
    return *this;
  }
  void put(cereal::base_class<Data>& b) { b.base_ptr->save(*this); }
  void put(const cereal::base_class<Data>& b) { b.base_ptr->save(*this); }
  void put(const Identity& i) { name = i.string(); ++names; }
  void put(const NonEmptyString& s) { value = s.string(); ++values; }
};

void p_immutable(const Bytes& v) {
  given(!v.empty());
  NonEmptyString s(v);
  ImmutableData d(s);
  claim(d.IsInitialised(), "data made from content is initialised");
  claim(d.Value() == s, "the content is the one given");
  claim(d.Name() == Identity(crypto::Hash<crypto::SHA512>(s)), "the name is the SHA-512 hash of the content");
  claim(d.TypeId() == DataTypeId(0), "immutable data have type 0");
  Data::NameAndTypeId n = d.NameAndType();
  claim(n.name == d.Name() && n.type_id == d.TypeId(), "name and type are those of the data");
  ImmutableData copy(d);
  claim(copy.IsInitialised() && copy.Name() == d.Name() && copy.Value() == s, "a copy has the same name and content");
  ImmutableData assigned;
  assigned = d;
  claim(assigned.IsInitialised() && assigned.Name() == d.Name() && assigned.Value() == s,
        "a copy-assigned object has the same name and content");
  ImmutableData moved(std::move(copy));
  claim(moved.IsInitialised() && moved.Name() == d.Name() && moved.Value() == s,
        "a moved-to object has the same name and content");
  ImmutableData massigned;
  massigned = std::move(moved);
  claim(massigned.IsInitialised() && massigned.Name() == d.Name() && massigned.Value() == s,
        "a move-assigned object has the same name and content");
}

void p_immutable_empty() {
  try {
    ImmutableData d{NonEmptyString()};
    unreachable("uninitialised content is refused");
  } catch (const maidsafe_error&) {
    claim(true, "uninitialised content is refused");
  }
}

template <typename F>
void refuses(F f) {
  try {
    f();
    unreachable("an uninitialised object is refused");
  } catch (const maidsafe_error& e) {
    claim(carries(e, CommonErrors::uninitialised), "the error for an uninitialised object is uninitialised");
  }
}

template <typename D>
void uninitialised() {
  D d;
  claim(!d.IsInitialised(), "a default object is not initialised");
  refuses([&] { d.Name(); });
  refuses([&] { d.Value(); });
  refuses([&] { d.TypeId(); });
  refuses([&] { d.NameAndType(); });
  D copy(d);
  claim(!copy.IsInitialised(), "a copy of an uninitialised object is not initialised");
}
void p_uninitialised_immutable() { uninitialised<ImmutableData>(); }
void p_uninitialised_mutable() { uninitialised<MutableData>(); }

// Assignment onto an object that holds something else already.
void p_immutable_reassign(const Bytes& v, const Bytes& w, bool had) {
  given(!v.empty() && !w.empty());
  ImmutableData d{NonEmptyString(v)}, assigned, massigned;
  if (had) {
    assigned = ImmutableData{NonEmptyString(w)};
    massigned = assigned;
  }
  assigned = d;
  claim(assigned.Name() == d.Name() && assigned.Value() == NonEmptyString(v), "copy assignment replaces name and content");
  massigned = std::move(assigned);
  claim(massigned.Name() == d.Name() && massigned.Value() == NonEmptyString(v), "move assignment replaces name and content");
  assigned = ImmutableData();
  claim(!assigned.IsInitialised(), "assigning an uninitialised object empties the target");
  massigned = assigned;
  claim(!massigned.IsInitialised(), "assigning an uninitialised object empties the target");
}

void p_mutable_reassign(const Bytes& v, const Bytes& w, const Bytes& name_a, const Bytes& name_b) {
  given(!v.empty() && !w.empty());
  MutableData d{Identity(name_a), NonEmptyString(v)}, a{Identity(name_b), NonEmptyString(w)}, m(a);
  a = d;
  claim(a.Name() == Identity(name_a) && a.Value() == NonEmptyString(v), "copy assignment replaces name and content");
  m = std::move(a);
  claim(m.Name() == Identity(name_a) && m.Value() == NonEmptyString(v), "move assignment replaces name and content");
  m = MutableData();
  claim(!m.IsInitialised(), "assigning an uninitialised object empties the target");
}

// Loading into an object that holds something else already.
void p_reload(const Bytes& v, const Bytes& w, const Bytes& name) {
  given(!v.empty() && !w.empty());
  ImmutableData d{NonEmptyString(v)}, e{NonEmptyString(w)};
  Source in{d.Name().string(), v, true, true};
  e.load(in);
  claim(e.Name() == d.Name() && e.Value() == d.Value(), "loading replaces name and content");
  Source other{name, v, true, true};
  MutableData m{d.Name(), NonEmptyString(w)};
  m.load(other);
  claim(m.Name() == Identity(name) && m.Value() == NonEmptyString(v), "loading replaces name and content");
}

// Bytes of 64 elements as a name.
void p_mutable(const Bytes& v, const Bytes& name) {
  given(!v.empty());
  NonEmptyString s(v);
  Identity id(name);
  MutableData d(id, s);
  claim(d.IsInitialised(), "data made from name and content is initialised");
  claim(d.Value() == s && d.Name() == id, "name and content are the ones given");
  claim(d.TypeId() == DataTypeId(1), "mutable data have type 1");
  MutableData copy(d), assigned, massigned;
  claim(copy.Name() == id && copy.Value() == s, "a copy has the same name and content");
  assigned = d;
  claim(assigned.Name() == id && assigned.Value() == s, "a copy-assigned object has the same name and content");
  MutableData moved(std::move(copy));
  claim(moved.Name() == id && moved.Value() == s, "a moved-to object has the same name and content");
  massigned = std::move(moved);
  claim(massigned.Name() == id && massigned.Value() == s, "a move-assigned object has the same name and content");
  Sink k{Bytes(), Bytes(), 0, 0};
  d.save(k);
  claim(k.names == 1 && k.values == 1 && k.name == name && k.value == v, "saving writes name and content once");
  Source in{k.name, k.value, true, true};
  MutableData loaded;
  loaded.load(in);
  claim(loaded.Name() == id && loaded.Value() == s, "loading what was saved gives name and content back");
}

void p_mutable_refuses(const Bytes& v, const Bytes& name) {
  given(!v.empty());
  refuses([&] { MutableData(Identity(), NonEmptyString(v)); });
  refuses([&] { MutableData(Identity(name), NonEmptyString()); });
}

void p_mutable_load(const Bytes& v, const Bytes& name, bool named, bool valued) {
  given(!v.empty());
  given(!named || !valued);
  Source in{name, v, named, valued};
  MutableData d;
  try {
    d.load(in);
    unreachable("loading without a name or content is refused");
  } catch (const maidsafe_error& e) {
    claim(carries(e, CommonErrors::parsing_error), "the error for incomplete data is parsing_error");
  }
}

void p_immutable_save(const Bytes& v) {
  given(!v.empty());
  ImmutableData d{NonEmptyString(v)};
  Sink k{Bytes(), Bytes(), 0, 0};
  d.save(k);
  claim(k.names == 1 && k.values == 1 && k.name == d.Name().string() && k.value == v,
        "saving writes name and content once");
  Source in{k.name, k.value, true, true};
  ImmutableData loaded;
  loaded.load(in);
  claim(loaded.IsInitialised() && loaded.Name() == d.Name() && loaded.Value() == d.Value(),
        "loading what was saved gives name and content back");
}

void p_immutable_load(const Bytes& v, const Bytes& name) {
  given(!v.empty());
  Source in{name, v, true, true};
  ImmutableData d;
  bool right = Identity(name) == Identity(crypto::Hash<crypto::SHA512>(NonEmptyString(v)));
  bool loaded = true;
  try {
    d.load(in);
  } catch (const maidsafe_error& e) {
    loaded = false;
    claim(carries(e, CommonErrors::parsing_error), "the error for a wrong name is parsing_error");
  }
  claim(loaded == right, "loading succeeds exactly when the name is the hash of the content");
  if (loaded) claim(d.Name() == Identity(name) && d.Value() == NonEmptyString(v), "the loaded object has name and content");
}

void p_immutable_load_incomplete(const Bytes& v, const Bytes& name, bool named, bool valued) {
  given(!v.empty());
  given(!named || !valued);
  Source in{name, v, named, valued};
  ImmutableData d;
  try {
    d.load(in);
    unreachable("loading without a name or content is refused");
  } catch (const maidsafe_error& e) {
    claim(carries(e, CommonErrors::parsing_error), "the error for incomplete data is parsing_error");
  }
}

void p_save_uninitialised() {
  Sink k{Bytes(), Bytes(), 0, 0};
  refuses([&] { ImmutableData().save(k); });
  refuses([&] { MutableData().save(k); });
}

// Order of names and types: by name, then by type.
void p_order(const Bytes& name_a, const Bytes& name_b, std::uint32_t ta, std::uint32_t tb) {
  Data::NameAndTypeId x{Identity(name_a), DataTypeId(ta)}, y{Identity(name_b), DataTypeId(tb)};
  bool eq = name_a == name_b, lt = name_a < name_b;
  claim((x == y) == (eq && ta == tb), "equal means the same name and type");
  claim((x != y) == !(eq && ta == tb), "unequal is the negation of equal");
  bool less = lt || (eq && ta < tb);
  bool greater = (!lt && !eq) || (eq && ta > tb);
  claim((x < y) == less, "the order is by name, then type");
  claim((x > y) == greater, "greater is the reverse of less");
  claim((x <= y) == !greater, "less or equal is the negation of greater");
  claim((x >= y) == !less, "greater or equal is the negation of less");
}

void p_name_and_type(const Bytes& name, std::uint32_t t) {
  Data::NameAndTypeId x{Identity(name), DataTypeId(t)}, none;
  claim(!none.name.IsInitialised(), "a default name and type has no name");
  Data::NameAndTypeId copy(x), assigned, massigned;
  assigned = x;
  claim(copy == x && assigned == x, "copies are equal");
  Data::NameAndTypeId moved(std::move(copy));
  claim(moved == x, "a moved-to object is equal");
  massigned = std::move(moved);
  claim(massigned == x, "a move-assigned object is equal");
}

void p_name_and_type_reassign(const Bytes& name_a, const Bytes& name_b, std::uint32_t t, std::uint32_t u) {
  Data::NameAndTypeId x{Identity(name_a), DataTypeId(t)}, c{Identity(name_b), DataTypeId(u)}, m(c);
  c = x;
  claim(c == x, "copies are equal");
  m = std::move(c);
  claim(m == x && m.name == Identity(name_a) && m.type_id == DataTypeId(t), "a move-assigned object is equal");
}

}  // namespace probe
