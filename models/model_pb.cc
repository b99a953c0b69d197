#include "google/protobuf/struct.pb.h"
#include "google/protobuf/util/json_util.h"
extern "C" { int model_map_reverse = 0; }
// the harness that needs JSON documents defines its own
__attribute__((weak)) bool model_json(const std::string&, google::protobuf::Struct*) { return false; }
namespace google {
namespace protobuf {
const std::string& Value::empty_() { static const std::string* e = new std::string; return *e; }
const Struct& Struct::default_instance() { static const Struct* s = new Struct; return *s; }
const ListValue& ListValue::default_instance() { static const ListValue* s = new ListValue; return *s; }
Value::~Value() { delete st_; delete li_; }
Value& Value::operator=(const Value& o) {
  if (this == &o) return *this;
  k_ = o.k_; num_ = o.num_; b_ = o.b_; str_ = o.str_;
  Struct* s = o.st_ ? new Struct(*o.st_) : nullptr;
  ListValue* l = o.li_ ? new ListValue(*o.li_) : nullptr;
  delete st_; delete li_;
  st_ = s; li_ = l;
  return *this;
}
const Struct& Value::struct_value() const { return k_ == kStructValue ? *st_ : Struct::default_instance(); }
const ListValue& Value::list_value() const { return k_ == kListValue ? *li_ : ListValue::default_instance(); }
Struct* Value::mutable_struct_value() { k_ = kStructValue; if (!st_) st_ = new Struct; return st_; }
ListValue* Value::mutable_list_value() { k_ = kListValue; if (!li_) li_ = new ListValue; return li_; }
namespace util {
namespace {
struct Doc { std::string text; bool ok; Struct val; Doc* next; };
Doc* docs;
}
Status JsonStringToMessage(absl::string_view input, Message* message, const JsonParseOptions&) {
  std::string text(input.data(), input.size());
  Doc* d = docs;
  for (; d; d = d->next) if (d->text == text) break;
  if (!d) {
    d = new Doc;
    d->text = text;
    d->ok = model_json(text, &d->val);
    d->next = docs;
    docs = d;
  }
  if (!d->ok) return Status(false);
  static_cast<Struct*>(message)->CopyFrom(d->val);
  return Status(true);
}
}  // namespace util
}  // namespace protobuf
}  // namespace google
extern "C" void model_json_reset() {
  using namespace google::protobuf::util;
  while (docs) { Doc* n = docs->next; delete docs; docs = n; }
}
