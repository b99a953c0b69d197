// Model of absl::flat_hash_map / flat_hash_set used by the symbolic checks.
//
// Contract modelled (absl documentation): an unordered container keyed by Eq;
// any insertion may rehash and so invalidates every iterator, pointer and
// reference (here it always does, unless capacity was reserved); erase
// invalidates only the erased element; iteration order is unspecified (the
// harness can flip it with model_map_reverse).
#pragma once
#include <stddef.h>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <tuple>
#include <utility>
#include "absl/strings/string_view.h"
extern "C" int model_map_reverse;
extern "C" [[noreturn]] void sym_fail(const char* label);
namespace absl {
namespace model_container {
template <class T>
struct DefEq : std::equal_to<T> {};
template <>
struct DefEq<std::string> {
  using is_transparent = void;
  bool operator()(absl::string_view a, absl::string_view b) const { return a == b; }
};
template <>
struct DefEq<absl::string_view> : DefEq<std::string> {};
template <class T>
struct DefHash {
  size_t operator()(const T&) const { return 0; }
};

// Stable: the elements of a node_hash_* container do not move on a rehash.
template <class Slot, bool Stable>
struct NodeOf {
  bool full;
  alignas(Slot) unsigned char raw[sizeof(Slot)];
  Slot* s() { return reinterpret_cast<Slot*>(raw); }
  template <class... A> void make(A&&... a) { new (raw) Slot(std::forward<A>(a)...); full = true; }
  void kill() { s()->~Slot(); full = false; }
  void take(NodeOf& o) { make(std::move(*o.s())); o.kill(); }
};
template <class Slot>
struct NodeOf<Slot, true> {
  bool full;
  Slot* p;
  Slot* s() { return p; }
  template <class... A> void make(A&&... a) { p = new Slot(std::forward<A>(a)...); full = true; }
  void kill() { delete p; p = nullptr; full = false; }
  void take(NodeOf& o) { p = o.p; full = true; o.p = nullptr; o.full = false; }
};

template <class Slot, class Key, class GetKey, class Hash, class Eq, bool Stable>
class Table {
 public:
  using Node = NodeOf<Slot, Stable>;
  // The handle extract() returns: owns the element that was taken out.
  class node_type {
   public:
    using value_type = Slot;
    node_type() {}
    node_type(node_type&& o) noexcept { if (o.n_.full) n_.take(o.n_); }
    node_type& operator=(node_type&& o) noexcept { if (this != &o) { if (n_.full) n_.kill(); if (o.n_.full) n_.take(o.n_); } return *this; }
    node_type(const node_type&) = delete;
    ~node_type() { if (n_.full) n_.kill(); }
    bool empty() const { return !n_.full; }
    explicit operator bool() const { return n_.full; }
    value_type& value() const { return *slot(); }
    const Key& key() const { return GetKey()(*slot()); }
    template <class S = Slot> typename S::second_type& mapped() const { return slot()->second; }
    Slot* slot() const { if (!n_.full) sym_fail("use of an empty hash table node handle"); return const_cast<Node&>(n_).s(); }
    Node n_{false};
  };
  template <bool C>
  struct Iter {
    using iterator_category = std::forward_iterator_tag;
    using value_type = Slot;
    using difference_type = ptrdiff_t;
    using reference = typename std::conditional<C, const Slot&, Slot&>::type;
    using pointer = typename std::conditional<C, const Slot*, Slot*>::type;
    Node* n = nullptr;   // nullptr: end
    Node* lo = nullptr;  // bounds of the array the iterator was created on
    Node* hi = nullptr;
    bool rev = false;
    Iter() {}
    Iter(Node* p, Node* l, Node* h, bool r) : n(p), lo(l), hi(h), rev(r) {}
    Iter(const Iter<false>& o) : n(o.n), lo(o.lo), hi(o.hi), rev(o.rev) {}
    Iter& operator=(const Iter&) = default;
    void check() const { if (!n || !n->full) sym_fail("use of an invalid hash table iterator"); }
    reference operator*() const { check(); return *n->s(); }
    pointer operator->() const { check(); return n->s(); }
    Iter& operator++() {
      check();
      do {
        if (rev) { if (n == lo) { n = nullptr; break; } --n; }
        else { ++n; if (n == hi) { n = nullptr; break; } }
      } while (!n->full);
      return *this;
    }
    Iter operator++(int) { Iter t = *this; ++*this; return t; }
    friend bool operator==(const Iter& a, const Iter& b) { return a.n == b.n; }
    friend bool operator!=(const Iter& a, const Iter& b) { return a.n != b.n; }
  };
  template <bool> friend struct Iter;
  using iterator = Iter<false>;
  using const_iterator = Iter<true>;
  using size_type = size_t;
  using value_type = Slot;
  using key_type = Key;
  using difference_type = ptrdiff_t;
  using reference = Slot&;
  using const_reference = const Slot&;
  using key_equal = Eq;
  using hasher = Hash;
  using pointer = Slot*;
  using const_pointer = const Slot*;
  using allocator_type = std::allocator<Slot>;
  struct insert_return_type { typename Table::iterator position; bool inserted; typename Table::node_type node; };

  Table() {}
  Table(const Table& o) { for (auto& v : o) emplace(v); }
  Table(Table&& o) noexcept { swap(o); }
  hasher hash_function() const { return Hash(); }
  key_equal key_eq() const { return Eq(); }
  allocator_type get_allocator() const { return {}; }
  size_t bucket_count() const { return cap_; }
  float load_factor() const { return cap_ ? float(n_) / float(cap_) : 0.0f; }
  float max_load_factor() const { return 1.0f; }
  void max_load_factor(float) {}
  template <class K>
  std::pair<iterator, iterator> equal_range(const K& k) {
    auto it = find(k);
    auto nx = it;
    if (it != end()) ++nx;
    return {it, nx};
  }
  template <class K>
  std::pair<const_iterator, const_iterator> equal_range(const K& k) const {
    auto p = const_cast<Table*>(this)->equal_range(k);
    return {p.first, p.second};
  }
  node_type extract(const_iterator it) {
    it.check();
    node_type h;
    h.n_.take(*it.n);
    n_--;
    return h;
  }
  template <class K, class = typename std::enable_if<!std::is_convertible<const K&, const_iterator>::value>::type>
  node_type extract(const K& k) {
    const_iterator it = find(k);
    return it == const_iterator(end()) ? node_type() : extract(it);
  }
  insert_return_type insert(node_type&& h) {
    if (h.empty()) return {end(), false, node_type()};
    auto it = find(h.key());
    if (it != end()) return {it, false, std::move(h)};
    Node* p = room();
    p->take(h.n_);
    n_++;
    return {at_(p - a_), true, node_type()};
  }
  iterator insert(const_iterator, node_type&& h) { return insert(std::move(h)).position; }
  void merge(Table& o) {
    for (auto it = o.begin(); it != o.end();) {
      auto cur = it++;
      if (find(GetKey()(*cur)) == end()) insert(o.extract(const_iterator(cur)));
    }
  }
  void merge(Table&& o) { merge(o); }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.size() != b.size()) return false;
    for (auto& v : a) {
      auto it = b.find(GetKey()(v));
      if (it == b.end() || !(*it == v)) return false;
    }
    return true;
  }
  friend bool operator!=(const Table& a, const Table& b) { return !(a == b); }
  friend void swap(Table& a, Table& b) { a.swap(b); }
  Table& operator=(Table o) { swap(o); return *this; }
  ~Table() { clear(); delete[] a_; }
  void swap(Table& o) { std::swap(a_, o.a_); std::swap(cap_, o.cap_); std::swap(n_, o.n_); std::swap(used_, o.used_); }

  iterator begin() { return first<iterator>(); }
  iterator end() { return iterator(); }
  const_iterator begin() const { return const_cast<Table*>(this)->template first<const_iterator>(); }
  const_iterator end() const { return const_iterator(); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t capacity() const { return cap_; }
  size_t max_size() const { return ~size_t{0} / 2; }
  void reserve(size_t n) { if (n > cap_) grow(n); }
  void rehash(size_t n) { grow(n > n_ ? n : n_); }
  template <class K>
  iterator find(const K& k) {
    for (size_t i = 0; i < used_; i++)
      if (a_[i].full && Eq()(GetKey()(*a_[i].s()), k)) return at_(i);
    return end();
  }
  template <class K>
  const_iterator find(const K& k) const { return const_cast<Table*>(this)->find(k); }
  template <class K>
  size_t count(const K& k) const { return find(k) != end() ? 1 : 0; }
  template <class K>
  bool contains(const K& k) const { return find(k) != end(); }
  void erase(const_iterator it) { it.check(); destroy(it.n); }
  void erase(iterator it) { it.check(); destroy(it.n); }
  iterator erase(const_iterator a, const_iterator b) {
    while (a != b) { auto t = a; ++a; erase(t); }
    return iterator(b.n, b.lo, b.hi, b.rev);
  }
  template <class K, class = typename std::enable_if<!std::is_convertible<const K&, const_iterator>::value>::type>
  size_t erase(const K& k) {
    auto it = find(k);
    if (it == end()) return 0;
    erase(it);
    return 1;
  }
  void clear() {
    for (size_t i = 0; i < used_; i++) if (a_[i].full) destroy(&a_[i]);
    used_ = 0;
  }
  template <class... A>
  std::pair<iterator, bool> emplace(A&&... args) {
    Slot tmp(std::forward<A>(args)...);
    auto it = find(GetKey()(tmp));
    if (it != end()) return {it, false};
    Node* p = room();
    p->make(std::move(tmp));
    n_++;
    return {at_(p - a_), true};
  }
  template <class... A>
  iterator emplace_hint(const_iterator, A&&... args) { return emplace(std::forward<A>(args)...).first; }

 protected:
  iterator at_(size_t i) { return iterator(&a_[i], a_, a_ + used_, model_map_reverse != 0); }
  template <class It>
  It first() {
    bool r = model_map_reverse != 0;
    if (r) { for (size_t i = used_; i-- > 0;) if (a_[i].full) return It(&a_[i], a_, a_ + used_, r); }
    else for (size_t i = 0; i < used_; i++) if (a_[i].full) return It(&a_[i], a_, a_ + used_, r);
    return It();
  }
  void destroy(Node* p) { p->kill(); n_--; }
  Node* room() {
    if (used_ >= cap_) grow(n_ + 1);
    return &a_[used_++];
  }
  void grow(size_t cap) {
    Node* b = new Node[cap];
    size_t j = 0;
    for (size_t i = 0; i < cap; i++) b[i].full = false;
    for (size_t i = 0; i < used_; i++)
      if (a_[i].full) b[j++].take(a_[i]);
    delete[] a_;
    a_ = b;
    cap_ = cap;
    used_ = j;
  }
  Node* a_ = nullptr;
  size_t cap_ = 0, n_ = 0, used_ = 0;
};
template <class P>
struct First { const typename P::first_type& operator()(const P& p) const { return p.first; } };
template <class T>
struct Self { const T& operator()(const T& p) const { return p; } };

template <class K, class V, class Hash, class Eq, bool Stable>
class MapOf
    : public Table<std::pair<const K, V>, K, First<std::pair<const K, V>>, Hash, Eq, Stable> {
  using B = Table<std::pair<const K, V>, K, First<std::pair<const K, V>>, Hash, Eq, Stable>;

 public:
  using mapped_type = V;
  using typename B::iterator;
  using typename B::const_iterator;
  using value_type = std::pair<const K, V>;
  MapOf() {}
  explicit MapOf(size_t n) { this->reserve(n); }
  MapOf(std::initializer_list<value_type> l) { for (auto& v : l) this->emplace(v); }
  template <class It>
  MapOf(It a, It b) { for (; a != b; ++a) this->emplace(*a); }
  template <class KK = K>
  V& operator[](KK&& k) { return try_emplace(std::forward<KK>(k)).first->second; }
  template <class KK = K>
  V& at(const KK& k) {
    auto it = this->find(k);
    if (it == this->end()) throw std::out_of_range("hash_map::at");
    return it->second;
  }
  template <class KK = K>
  const V& at(const KK& k) const { return const_cast<MapOf*>(this)->at(k); }
  using B::insert;
  std::pair<iterator, bool> insert(const value_type& v) { return this->emplace(v); }
  std::pair<iterator, bool> insert(value_type&& v) { return this->emplace(std::move(v)); }
  template <class P, class = typename std::enable_if<std::is_constructible<value_type, P&&>::value>::type>
  std::pair<iterator, bool> insert(P&& v) { return this->emplace(std::forward<P>(v)); }
  iterator insert(const_iterator, const value_type& v) { return this->emplace(v).first; }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  void insert(It a, It b) { for (; a != b; ++a) this->emplace(*a); }
  void insert(std::initializer_list<value_type> l) { for (auto& v : l) this->emplace(v); }
  template <class KK = K, class... Args, class = typename std::enable_if<!std::is_convertible<KK&&, const_iterator>::value>::type>
  std::pair<iterator, bool> try_emplace(KK&& k, Args&&... args) {
    auto it = this->find(k);
    if (it != this->end()) return {it, false};
    return this->emplace(std::piecewise_construct, std::forward_as_tuple(std::forward<KK>(k)), std::forward_as_tuple(std::forward<Args>(args)...));
  }
  template <class KK = K, class... Args>
  iterator try_emplace(const_iterator, KK&& k, Args&&... args) { return try_emplace(std::forward<KK>(k), std::forward<Args>(args)...).first; }
  template <class KK = K, class VV = V>
  std::pair<iterator, bool> insert_or_assign(KK&& k, VV&& v) {
    auto it = this->find(k);
    if (it != this->end()) { it->second = std::forward<VV>(v); return {it, false}; }
    return this->emplace(std::forward<KK>(k), std::forward<VV>(v));
  }
};
template <class T, class Hash, class Eq, bool Stable>
class SetOf : public Table<T, T, Self<T>, Hash, Eq, Stable> {
  using B = Table<T, T, Self<T>, Hash, Eq, Stable>;

 public:
  using typename B::iterator;
  using typename B::const_iterator;
  SetOf() {}
  explicit SetOf(size_t n) { this->reserve(n); }
  SetOf(std::initializer_list<T> l) { this->reserve(l.size()); for (auto& v : l) this->emplace(v); }
  template <class It>
  SetOf(It a, It b) { for (; a != b; ++a) this->emplace(*a); }
  using B::insert;
  std::pair<iterator, bool> insert(const T& v) { return this->emplace(v); }
  std::pair<iterator, bool> insert(T&& v) { return this->emplace(std::move(v)); }
  template <class U, class = typename std::enable_if<std::is_constructible<T, U&&>::value && !std::is_convertible<U&&, T>::value>::type>
  std::pair<iterator, bool> insert(U&& v) { return this->emplace(std::forward<U>(v)); }
  template <class U, class = typename std::enable_if<std::is_convertible<U&&, T>::value && !std::is_same<typename std::decay<U>::type, T>::value>::type, class = void>
  std::pair<iterator, bool> insert(U&& v) { return this->emplace(std::forward<U>(v)); }
  iterator insert(const_iterator, const T& v) { return this->emplace(v).first; }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  void insert(It a, It b) { for (; a != b; ++a) this->emplace(*a); }
  void insert(std::initializer_list<T> l) { for (auto& v : l) this->emplace(v); }
};
}  // namespace model_container

#define MODEL_MAP(NAME, STABLE)                                                                             \
  template <class K, class V, class Hash = model_container::DefHash<K>, class Eq = model_container::DefEq<K>, \
            class A = std::allocator<std::pair<const K, V>>>                                                \
  class NAME : public model_container::MapOf<K, V, Hash, Eq, STABLE> {                                      \
    using model_container::MapOf<K, V, Hash, Eq, STABLE>::MapOf;                                            \
   public:                                                                                                  \
    NAME() {}                                                                                               \
  };                                                                                                        \
  template <class K, class V, class H, class E, class A, class P>                                           \
  size_t erase_if(NAME<K, V, H, E, A>& m, P pred) { return model_container::erase_if_(m, pred); }
#define MODEL_SET(NAME, STABLE)                                                                             \
  template <class T, class Hash = model_container::DefHash<T>, class Eq = model_container::DefEq<T>,          \
            class A = std::allocator<T>>                                                                    \
  class NAME : public model_container::SetOf<T, Hash, Eq, STABLE> {                                         \
    using model_container::SetOf<T, Hash, Eq, STABLE>::SetOf;                                               \
   public:                                                                                                  \
    NAME() {}                                                                                               \
  };                                                                                                        \
  template <class T, class H, class E, class A, class P>                                                    \
  size_t erase_if(NAME<T, H, E, A>& m, P pred) { return model_container::erase_if_(m, pred); }
namespace model_container {
template <class M, class P>
size_t erase_if_(M& m, P& pred) {
  size_t n = 0;
  for (auto it = m.begin(); it != m.end();) {
    auto cur = it++;
    if (pred(*cur)) { m.erase(cur); n++; }
  }
  return n;
}
}  // namespace model_container
MODEL_MAP(flat_hash_map, false)
MODEL_MAP(node_hash_map, true)
MODEL_SET(flat_hash_set, false)
MODEL_SET(node_hash_set, true)
#undef MODEL_MAP
#undef MODEL_SET
template <class T> using Hash = model_container::DefHash<T>;
}  // namespace absl
