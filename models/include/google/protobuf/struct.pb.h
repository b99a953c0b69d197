// Model of google::protobuf::Struct / Value / ListValue (3.21 API subset).
// Values are plain data; Map iteration order is unspecified in protobuf, here
// insertion order, flipped by model_map_reverse.
#pragma once
#include <stddef.h>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/container/flat_hash_map.h"
namespace google {
namespace protobuf {
class Message {
 public:
  virtual ~Message() {}
  virtual void Clear() = 0;
};
class Struct;
class ListValue;
enum NullValue : int { NULL_VALUE = 0 };

template <class K, class V>
class Map {
 public:
  struct Node { std::pair<const K, V> kv; bool present = true; Node(const K& k) : kv(k, V()) {} Node(const Node& o) : kv(o.kv), present(o.present) {} };
  template <bool C>
  struct It {
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::pair<const K, V>;
    using difference_type = ptrdiff_t;
    using reference = typename std::conditional<C, const value_type&, value_type&>::type;
    using pointer = typename std::conditional<C, const value_type*, value_type*>::type;
    const Map* m = nullptr;
    size_t i = 0;  // logical index
    It() {}
    It(const Map* mm, size_t ii) : m(mm), i(ii) {}
    It(const It<false>& o) : m(o.m), i(o.i) {}
    It& operator=(const It&) = default;
    reference operator*() const { return m->node(i)->kv; }
    pointer operator->() const { return &m->node(i)->kv; }
    It& operator++() { i = m->skip_(i + 1); return *this; }
    It operator++(int) { It t = *this; ++*this; return t; }
    friend bool operator==(const It& a, const It& b) { return a.i == b.i; }
    friend bool operator!=(const It& a, const It& b) { return a.i != b.i; }
  };
  template <bool> friend struct It;
  using iterator = It<false>;
  using const_iterator = It<true>;
  using value_type = std::pair<const K, V>;
  using key_type = K;
  using mapped_type = V;
  using size_type = size_t;
  Map() {}
  Map(const Map& o) { for (auto& p : o.v_) v_.emplace_back(new Node(*p)); }
  Map(Map&&) = default;
  Map& operator=(Map o) { v_.swap(o.v_); return *this; }
  iterator begin() { return iterator(this, skip_(0)); }
  iterator end() { return iterator(this, v_.size()); }
  const_iterator begin() const { return const_iterator(this, skip_(0)); }
  const_iterator end() const { return const_iterator(this, v_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { size_t n = 0; for (auto& p : v_) n += p->present; return n; }
  bool empty() const { return begin() == end(); }
  // a member whose presence is symbolic
  void model_presence(const K& k, bool p) { for (auto& n : v_) if (n->kv.first == k) n->present = p; }
  template <class Q>
  const_iterator find(const Q& k) const {
    for (size_t i = 0; i < v_.size(); i++) if (node(i)->kv.first == k && node(i)->present) return const_iterator(this, i);
    return end();
  }
  template <class Q>
  iterator find(const Q& k) {
    for (size_t i = 0; i < v_.size(); i++) if (node(i)->kv.first == k && node(i)->present) return iterator(this, i);
    return end();
  }
  template <class Q>
  bool contains(const Q& k) const { return find(k) != end(); }
  template <class Q>
  size_t count(const Q& k) const { return contains(k); }
  template <class Q>
  const V& at(const Q& k) const {
    auto it = find(k);
    if (it == end()) throw std::out_of_range("Map::at");
    return it->second;
  }
  V& operator[](const K& k) {
    for (auto& n : v_) if (n->kv.first == k) { if (!n->present) { n->present = true; n->kv.second = V(); } return n->kv.second; }
    v_.emplace_back(new Node(k));
    return v_.back()->kv.second;
  }
  std::pair<iterator, bool> insert(const value_type& kv) {
    auto it = find(kv.first);
    if (it != end()) return {it, false};
    (*this)[kv.first] = kv.second;
    return {find(kv.first), true};
  }
  void clear() { v_.clear(); }
  template <class Q>
  size_t erase(const Q& k) {
    for (size_t i = 0; i < v_.size(); i++) if (v_[i]->kv.first == k) { v_.erase(v_.begin() + i); return 1; }
    return 0;
  }

 private:
  size_t skip_(size_t i) const { while (i < v_.size() && !node(i)->present) i++; return i; }
  Node* node(size_t i) const { return v_.at(model_map_reverse ? v_.size() - 1 - i : i).get(); }
  std::vector<std::unique_ptr<Node>> v_;
};

template <class T>
class RepeatedPtrField {
 public:
  using value_type = T;
  template <bool C>
  struct It {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = T;
    using difference_type = ptrdiff_t;
    using reference = typename std::conditional<C, const T&, T&>::type;
    using pointer = typename std::conditional<C, const T*, T*>::type;
    const std::unique_ptr<T>* p = nullptr;
    It() {}
    explicit It(const std::unique_ptr<T>* q) : p(q) {}
    It(const It<false>& o) : p(o.p) {}
    It& operator=(const It&) = default;
    reference operator*() const { return **p; }
    pointer operator->() const { return p->get(); }
    It& operator++() { ++p; return *this; }
    It operator++(int) { It t = *this; ++p; return t; }
    It& operator--() { --p; return *this; }
    It operator+(ptrdiff_t n) const { return It(p + n); }
    friend ptrdiff_t operator-(const It& a, const It& b) { return a.p - b.p; }
    friend bool operator==(const It& a, const It& b) { return a.p == b.p; }
    friend bool operator!=(const It& a, const It& b) { return a.p != b.p; }
    friend bool operator<(const It& a, const It& b) { return a.p < b.p; }
  };
  using iterator = It<false>;
  using const_iterator = It<true>;
  RepeatedPtrField() {}
  RepeatedPtrField(const RepeatedPtrField& o) { for (auto& p : o.v_) v_.emplace_back(new T(*p)); }
  RepeatedPtrField(RepeatedPtrField&&) = default;
  RepeatedPtrField& operator=(RepeatedPtrField o) { v_.swap(o.v_); return *this; }
  int size() const { return (int)v_.size(); }
  bool empty() const { return v_.empty(); }
  const T& Get(int i) const { return *v_.at(i); }
  const T& operator[](int i) const { return *v_.at(i); }
  T& operator[](int i) { return *v_.at(i); }
  const T& at(int i) const { return *v_.at(i); }
  T* Mutable(int i) { return v_.at(i).get(); }
  T* Add() { v_.emplace_back(new T()); return v_.back().get(); }
  void Clear() { v_.clear(); }
  iterator begin() { return iterator(v_.data()); }
  iterator end() { return iterator(v_.data() + v_.size()); }
  const_iterator begin() const { return const_iterator(v_.data()); }
  const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }

 private:
  std::vector<std::unique_ptr<T>> v_;
};

class Value : public Message {
 public:
  enum KindCase { kNullValue = 1, kNumberValue = 2, kStringValue = 3, kBoolValue = 4, kStructValue = 5, kListValue = 6, KIND_NOT_SET = 0 };
  Value() {}
  Value(const Value& o) { *this = o; }
  Value& operator=(const Value& o);
  ~Value() override;
  KindCase kind_case() const { return (KindCase)k_; }
  bool has_null_value() const { return k_ == kNullValue; }
  bool has_number_value() const { return k_ == kNumberValue; }
  bool has_string_value() const { return k_ == kStringValue; }
  bool has_bool_value() const { return k_ == kBoolValue; }
  bool has_struct_value() const { return k_ == kStructValue; }
  bool has_list_value() const { return k_ == kListValue; }
  double number_value() const { return k_ == kNumberValue ? num_ : 0; }
  const std::string& string_value() const { return k_ == kStringValue ? str_ : empty_(); }
  bool bool_value() const { return k_ == kBoolValue ? b_ : false; }
  NullValue null_value() const { return NULL_VALUE; }
  const Struct& struct_value() const;
  const ListValue& list_value() const;
  void set_null_value(NullValue) { k_ = kNullValue; }
  void set_number_value(double d) { k_ = kNumberValue; num_ = d; }
  void set_string_value(const std::string& s) { k_ = kStringValue; str_ = s; }
  void set_bool_value(bool b) { k_ = kBoolValue; b_ = b; }
  Struct* mutable_struct_value();
  ListValue* mutable_list_value();
  std::string* mutable_string_value() { k_ = kStringValue; return &str_; }
  void Clear() override { k_ = 0; str_.clear(); }
  // a value of symbolic kind: all payloads are set, kind tells which one counts
  void model_kind(int kind) { k_ = kind; }
  void model_fill(double n, bool b, const std::string& s) { num_ = n; b_ = b; str_ = s; mutable_struct_value(); mutable_list_value(); }

 private:
  static const std::string& empty_();
  int k_ = 0;
  double num_ = 0;
  bool b_ = false;
  std::string str_;
  Struct* st_ = nullptr;
  ListValue* li_ = nullptr;
};

class Struct : public Message {
 public:
  const Map<std::string, Value>& fields() const { return f_; }
  Map<std::string, Value>* mutable_fields() { return &f_; }
  int fields_size() const { return (int)f_.size(); }
  void Clear() override { f_.clear(); }
  void clear_fields() { f_.clear(); }
  void CopyFrom(const Struct& o) { if (this != &o) f_ = o.f_; }
  void Swap(Struct* o) { std::swap(f_, o->f_); }
  static const Struct& default_instance();

 private:
  Map<std::string, Value> f_;
};

class ListValue : public Message {
 public:
  const RepeatedPtrField<Value>& values() const { return v_; }
  const Value& values(int i) const { return v_.Get(i); }
  int values_size() const { return v_.size(); }
  RepeatedPtrField<Value>* mutable_values() { return &v_; }
  Value* mutable_values(int i) { return v_.Mutable(i); }
  Value* add_values() { return v_.Add(); }
  void Clear() override { v_.Clear(); }
  static const ListValue& default_instance();

 private:
  RepeatedPtrField<Value> v_;
};
}  // namespace protobuf
}  // namespace google
