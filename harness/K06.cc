// Maps of names to certificates.
#include "keys.h"
DEFINE_MODEL_JSON
#ifndef NM
#define NM 3
#endif
enum { C_RSA, C_EC, C_NOKEY, C_GARBAGE, C_OVERLAP, C_NOHEAD, C_NOTAIL, C_TRAIL, C_LEAD, C_EMPTY, C_KIND, C_TWIST, NCERT };
extern "C" void sym_main() {
  keysValid();
#ifdef FAULTS
  model_faults = true;
#endif
#ifdef MANY  // all good but perhaps one
  int n = NM, odd = sym_choose("odd", 4), oddKind = sym_choose("cert", C_TWIST);
  static const int where[4] = {0, 1, NM / 2, NM - 1};
#else
  int n = sym_choose("members", NM + 1);
#endif
  pb::Struct* d = addDoc(kDoc);
  bool emptyName = n && sym_choose("emptyname", 2);
  int kind[NM + 1];
  KeySpec spec[NM + 1];
  Str name[NM + 1];
  bool shape = n > 0;
  for (int i = 0; i < n; i++) {
#ifdef MANY
    kind[i] = i == where[odd] ? oddKind : C_RSA;
#else
    kind[i] = sym_choose("cert", n == 1 ? NCERT : C_TWIST);
#endif
    KeySpec& k = spec[i];
    k.idx = i;
    k.type = kind[i] == C_EC ? KEC256 : KRSA;
    k.material();
    name[i] = emptyName && i == n - 1 ? Str() : Str(1, 'a' + i) + (NM > 9 ? Str("-") : sym_string(1, "name"));
    Str t = k.certText(), pre = "-----BEGIN CERTIFICATE-----\n", suf = "\n-----END CERTIFICATE-----\n";
    switch (kind[i]) {
      case C_RSA: case C_EC: model_register_x509(t, true, k.pub()); break;
      case C_NOKEY: model_register_x509(t, false, k.pub()); break;
      case C_OVERLAP: t = pre.substr(0, pre.size() - 1) + suf; break;
      case C_NOHEAD: t = t.substr(1); break;
      case C_NOTAIL: t = t.substr(0, t.size() - 1); break;
      case C_TRAIL: t += sym_string(1, "after"); break;
      case C_LEAD: t = sym_string(1, "before") + t; break;
      case C_TWIST: {  // one byte of the header or footer differs
        size_t p = sym_choose("at", pre.size() + suf.size());
        char& c = p < pre.size() ? t[p] : t[t.size() - 1 - (p - pre.size())];
        char old = c;
        c = (char)sym_u8("other");
        sym_assume(c != old);
        break;
      }
      case C_EMPTY: t = ""; break;
    }
    pb::Value& v = (*d->mutable_fields())[name[i]];
    v.model_fill(1, true, t);
    uint64_t vk = 3;
    if (kind[i] == C_KIND) { vk = sym_range("kind", 1, 5); vk += vk >= 3; }  // anything but a string
    v.model_kind(vk);
    shape = shape && kind[i] < C_NOHEAD && !name[i].empty();
  }
  model_map_reverse = sym_choose("reverse", 2);
#ifdef PRIOR  // another document loaded before: of any form, or a map of the same names or certificates
  int prior = sym_choose("before", 4);
  if (prior == 0) priorLoads();
  else {
    Str text = relText(kDoc, prior);
    pb::Struct* q = addDoc(text);
    KeySpec o[NM + 1];
    for (int i = 0; i < n; i++) {
      o[i].idx = 6 + i;
      o[i].material();
      if (prior != 3) model_register_x509(o[i].certText(), true, o[i].pub());
      else if (kind[i] == C_RSA) o[i] = spec[n - 1 - i];
      Str as = name[prior == 2 ? n - 1 - i : i];
      if (as.empty()) as = "z";
      setStr(q, as.c_str(), o[i].certText());
    }
    kept() = Jwks::createFrom(text, Jwks::JWKS);
  }
#endif
  JwksPtr js = Jwks::createFrom(kDoc, Jwks::JWKS);
  model_faults = false;
  Status s = js->getStatus();
  if (!shape) {
    sym_reach("no_shape");
    sym_assert(s == Status::JwksNoKeys, "a document that is no certificate map has no keys");
    sym_assert(js->keys().empty(), "a document that is no certificate map yields no keys");
    return;
  }
  bool good = true, parse = false, key = false;
  for (int i = 0; i < n; i++) {
    good = good && kind[i] == C_RSA;
    parse = parse || kind[i] == C_GARBAGE || kind[i] == C_OVERLAP;
    key = key || kind[i] == C_EC || kind[i] == C_NOKEY;
  }
#ifdef FAULTS
  if (s != Status::Ok) good = false;
#endif
  if (!good) {
    sym_reach("failed");
    sym_assert(s != Status::Ok, "a map with an unusable certificate is an error");
#ifndef FAULTS
    sym_assert((s == Status::JwksX509ParseError && parse) || (s == Status::JwksX509GetPubkeyError && key), "the status names what is wrong with a certificate");
#endif
    sym_assert(js->keys().empty(), "a map with an unusable certificate yields no keys");
    return;
  }
  sym_reach("loaded");
  sym_assert(s == Status::Ok, "a map of RSA certificates loads");
  sym_assert(js->keys().size() == (size_t)n, "one key per certificate");
  bool seen[NM + 1] = {};
  for (auto& p : js->keys()) {
    bool found = false;
    for (int i = 0; i < n; i++)
      if (!seen[i] && p->kid_ == name[i]) {
        seen[i] = found = true;
        sym_assert(model_rep_rsa(p->rsa_.get()) == spec[i].rep(), "the key of a certificate is loaded under its name");
        sym_assert(p->alg_.empty(), "a certificate key has no alg");
        sym_assert(p->kty_ == "RSA", "a certificate key is RSA");
        break;
      }
    sym_assert(found, "every key is loaded under the name of its certificate");
  }
}
