// An object tree with symbolic kinds, and every dotted path.
#include "jwt_verify_lib/struct_utils.h"
#include "keys.h"
DEFINE_MODEL_JSON
#ifndef LEN
#define LEN 5
#endif
static pb::Value* add(pb::Struct* s, const char* n) {
  pb::Value& v = (*s->mutable_fields())[n];
  double d = sym_double("number");
  v.model_fill(d, sym_bool("bool"), sym_string(1, "string"));
  s->mutable_fields()->model_presence(n, sym_bool("present"));
  return &v;
}
static void kind(pb::Value* v) { v->model_kind(sym_range("kind", 1, 6)); }
extern "C" void sym_main() {
#ifdef PRIOR  // the tree that is looked at had other contents before
  pb::Struct root, built;
#else
  pb::Struct root, &built = root;
#endif
  pb::Value* a = add(&built, "a");
  pb::Value* ab = add(a->mutable_struct_value(), "b");
  pb::Value* abc = add(ab->mutable_struct_value(), "a");
  pb::Value* e = add(&built, "");
  pb::Value* dot = add(&built, "a.b");
  pb::Value* ee = add(a->mutable_struct_value(), "");
#ifdef DOTS
  // names with dots in them, which no dotted name reaches
  pb::Value* dots[2] = {add(&built, "a.b.a"), add(a->mutable_struct_value(), "b.a")};
  for (pb::Value* v : dots) v->model_kind(sym_range("dots", 2, 3));
#endif
  static const int nl = 2;
  uint64_t lk[nl];
  Str ls[nl];
  pb::Value* all[6] = {a, ab, abc, e, dot, ee};
  for (int i = 0; i < nl; i++) { lk[i] = sym_range("list_kind", 1, 6); ls[i] = sym_string(1, "item"); }
  for (pb::Value* v : all)
    for (int i = 0; i < nl; i++) { pb::Value* w = v->mutable_list_value()->add_values(); w->model_fill(0, 0, ls[i]); w->model_kind(lk[i]); }
  for (pb::Value* v : all) kind(v);
#ifdef DOTS
  Str path(LEN, 'a');
  for (int i = 0; i < LEN; i++) path[i] = "a.b"[sym_range("char", 0, 2)];
#else
  Str path = sym_string(sym_choose("len", LEN + 1), "path");
#endif
#ifdef PRIOR  // earlier lookups: elsewhere, and of another name here
  {
    Str other = "a.b";
    other[sym_range("where", 0, 2)] = (char)sym_u8("other");
    pb::Struct s;
    pb::Struct* r = &root;
    for (const char* n : {"a", "b"}) {
      setStr(r, "", "x");
      setStr(r, "b", "x");
      if (*n == 'a') r = (*r->mutable_fields())["a"].mutable_struct_value();
    }
    setStr(r, "a", "x");
    if (sym_choose("as_list", 2)) (*root.mutable_fields())["b"].mutable_list_value()->add_values()->set_string_value("y");
    (*s.mutable_fields())["a"].mutable_struct_value();
    Str v;
    double x;
    std::vector<Str> l;
    StructUtils e(s), h(root);
    e.GetString(path, &v);
    e.GetDouble(other, &x);
    h.GetString(other, &v);
    h.GetDouble(other, &x);
    h.GetStringList(other, &l);
    h.GetString(path, &v);
    h.GetStringList(path, &l);
    root = built;
  }
#endif
  // reference walk
  const pb::Struct* cur = &root;
  StructUtils::FindResult want = StructUtils::OK;
  const pb::Value* val = nullptr;
  size_t i = 0;
  for (;;) {
    size_t j = i;
    while (j < path.size() && path[j] != '.') j++;
    Str seg = path.substr(i, j - i);
    auto it = cur->fields().find(seg);
    if (it == cur->fields().end()) { want = StructUtils::MISSING; break; }
    if (j == path.size()) { val = &it->second; break; }
    if (it->second.kind_case() != pb::Value::kStructValue) { want = StructUtils::WRONG_TYPE; break; }
    cur = &it->second.struct_value();
    i = j + 1;
  }
  StructUtils g(root);
  auto typed = [&](pb::Value::KindCase k) { return val && val->kind_case() != k ? StructUtils::WRONG_TYPE : want; };
  switch (sym_choose("getter", 6)) {
    case 0: {
      const pb::Value* found = nullptr;
      StructUtils::FindResult r = g.GetValue(path, found);
      sym_assert(r == want, "the walk reports missing and wrong type as they are");
      if (val) { sym_reach("found"); sym_assert(found == val, "the walk finds the named value"); }
      if (want == StructUtils::WRONG_TYPE) sym_reach("wrong");
      break;
    }
    case 1: {
      Str s = "before";
      StructUtils::FindResult w = typed(pb::Value::kStringValue), r = g.GetString(path, &s);
      sym_assert(r == w, "a string is read exactly when the value is one");
      sym_assert(s == (w == StructUtils::OK ? val->string_value() : Str("before")), "the string is returned unchanged, or nothing is written");
      break;
    }
    case 2: {
      double d = 0.5, x = 0.5;
      StructUtils::FindResult w = typed(pb::Value::kNumberValue), r = g.GetDouble(path, &d);
      sym_assert(r == w, "a number is read exactly when the value is one");
      if (w == StructUtils::OK) x = val->number_value();
      uint64_t p, q;
      memcpy(&p, &d, 8); memcpy(&q, &x, 8);
      sym_assert(p == q, "the number is returned unchanged, or nothing is written");
      break;
    }
    case 3: {
      bool init = sym_bool("init"), b = init;
      StructUtils::FindResult w = typed(pb::Value::kBoolValue), r = g.GetBoolean(path, &b);
      sym_assert(r == w, "a boolean is read exactly when the value is one");
      sym_assert(b == (w == StructUtils::OK ? val->bool_value() : init), "the boolean is returned unchanged, or nothing is written");
      break;
    }
    case 4: {
      uint64_t n = 77;
      StructUtils::FindResult w = typed(pb::Value::kNumberValue), r = g.GetUInt64(path, &n);
      if (w == StructUtils::OK) sym_assert(r == StructUtils::OK || r == StructUtils::OUT_OF_RANGE, "an integer is read only from a number");
      else sym_assert(r == w, "an integer is read only from a number");
      if (r != StructUtils::OK) sym_assert(n == 77, "nothing is written when no integer is read");
      break;
    }
    case 5: {
      std::vector<Str> l;
      StructUtils::FindResult w = want, r = g.GetStringList(path, &l);
      std::vector<Str> wl;
      if (val) {
        if (val->kind_case() == pb::Value::kStringValue) wl.push_back(val->string_value());
        else if (val->kind_case() == pb::Value::kListValue && lk[0] == 3 && lk[1] == 3) { sym_reach("list"); wl.push_back(ls[0]); wl.push_back(ls[1]); }
        else w = StructUtils::WRONG_TYPE;
      }
      sym_assert(r == w, "a string list is read exactly when the value is a string or a list of strings");
      if (w == StructUtils::OK) {
        sym_assert(l.size() == wl.size(), "the list is returned unchanged");
        for (size_t k = 0; k < wl.size() && k < l.size(); k++) sym_assert(l[k] == wl[k], "the list is returned unchanged");
      }
      break;
    }
  }
}
