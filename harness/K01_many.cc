// Long lists of entries in regular patterns.
#include "keys.h"
#include "openssl/rsa.h"
DEFINE_MODEL_JSON
#ifndef NE
#define NE 20
#endif
extern "C" void sym_main() {
  keysValid();
  pb::Struct* d = addDoc("DOC");
  pb::ListValue* l = (*d->mutable_fields())["keys"].mutable_list_value();
  int type = sym_choose("type", 6), period = 1 + sym_choose("period", 4), phase = sym_choose("phase", period), broken = sym_choose("broken", 4);
  bool named = sym_choose("named", 2), twins = sym_choose("twins", 2);
  KeySpec* k = new KeySpec[NE];
  std::vector<KeySpec*> want;
  for (int i = 0; i < NE; i++) {
    bool good = i % period == phase;
    if (period == 4) good = !good;  // mostly good
    k[i].type = type;
    k[i].idx = twins ? 0 : i;
    k[i].material();
    if (named) k[i].kid = twins ? "k" : Str("k") + (char)('A' + i % 26) + (char)('A' + i / 26);
    pb::Value* v = l->add_values();
    if (!good && broken == 0) { v->set_string_value("s"); continue; }
    pb::Struct* e = v->mutable_struct_value();
    if (!good && broken == 1) continue;  // empty
    k[i].toJwk(e);
    if (good) { want.push_back(&k[i]); continue; }
    if (broken == 2) setStr(e, "kty", "none");
    else setNum(e, "alg", 1), setStr(e, "alg", "XX");
  }
  JwksPtr js = Jwks::createFrom("DOC", Jwks::JWKS);
  const auto& keys = js->keys();
  sym_assert(keys.size() == want.size(), "exactly one key per well-formed entry");
  for (size_t i = 0; i < want.size() && i < keys.size(); i++) {
    const Jwks::Pubkey& p = *keys[i];
    const KeySpec& w = *want[i];
    Str rep = type == KRSA ? model_rep_rsa(p.rsa_.get()) : type == KOCT ? p.hmac_key_ : type == KOKP ? p.okp_key_raw_ : model_rep_ec(p.ec_key_.get());
    sym_assert(p.kid_ == w.kid && p.alg_ == w.alg && rep == w.rep(), "the keys come in document order");
  }
  sym_assert(js->getStatus() == Status::Ok, "a set with a key is Ok");
  sym_reach("kept");
}
