// Model of JsonStringToMessage: the JSON parser is an oracle.  For each distinct
// document the harness (model_json) says whether it parses and what it holds.
#pragma once
#include <string>
#include "absl/strings/string_view.h"
#include "google/protobuf/struct.pb.h"
namespace google {
namespace protobuf {
namespace util {
class Status {
 public:
  Status(bool ok = true) : ok_(ok) {}
  bool ok() const { return ok_; }
  int code() const { return ok_ ? 0 : 3; }
  absl::string_view message() const { return ok_ ? "" : "invalid JSON"; }
  std::string ToString() const { return ok_ ? "OK" : "INVALID_ARGUMENT: invalid JSON"; }
 private:
  bool ok_;
};
struct JsonParseOptions {
  bool ignore_unknown_fields = false;
  bool case_insensitive_enum_parsing = false;
};
using JsonOptions = JsonParseOptions;
Status JsonStringToMessage(absl::string_view input, Message* message, const JsonParseOptions& options);
inline Status JsonStringToMessage(absl::string_view input, Message* message) { return JsonStringToMessage(input, message, JsonParseOptions()); }
}  // namespace util
}  // namespace protobuf
}  // namespace google
// Supplied by the harness: fill *out and return true, or return false for a
// document that is not a JSON object.  Called once per distinct document text.
bool model_json(const std::string& text, google::protobuf::Struct* out);
extern "C" void model_json_reset();
