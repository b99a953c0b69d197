// Abstract BoringSSL: key objects are records of their public parameters and
// every verification primitive is an unknown but consistent predicate of its
// exact arguments.  A harness registers the argument tuples it cares about
// ("genuine") together with their truth value; any other tuple gets an
// arbitrary value of its own.
#pragma once
#include <stdint.h>
#include <string>
enum { MS_RSA_PKCS1 = 1, MS_RSA_PSS, MS_ECDSA, MS_ED25519, MS_HMAC };
enum { MD_NONE = 0, MD_SHA256 = 256, MD_SHA384 = 384, MD_SHA512 = 512, MD_SHA1 = 1, MD_SHA224 = 224 };
// canonical key representations
std::string model_key_rsa(const std::string& n, const std::string& e);
std::string model_key_ec(int nid, const std::string& x, const std::string& y);
// representation of a loaded key
std::string model_rep_rsa(const void* rsa);
std::string model_rep_ec(const void* ec_key);
// signature argument of an ECDSA query
std::string model_sig_ec(const std::string& r, const std::string& s);
void model_register_sig(int scheme, int md, const std::string& key, const std::string& data, const std::string& sig, bool valid);
// tag: md-sized
void model_register_hmac(int md, const std::string& key, const std::string& data, const std::string& tag);
// Documents the PEM/X509 parsers accept.  type: EVP_PKEY_RSA / EC / ED25519 / other
struct ModelPubKey { int type = 0; std::string n, e, x, y, raw; int nid = 0; };
void model_register_pem(const std::string& text, const ModelPubKey& k);
void model_register_x509(const std::string& text, bool has_pubkey, const ModelPubKey& k);
// predicates of key material: truth value is chosen by this hook when set
extern bool (*model_rsa_check_hook)(const std::string& n, const std::string& e);
extern bool (*model_ec_point_hook)(int nid, const std::string& x, const std::string& y);
extern int model_err;          // entries in the error queue
extern int64_t model_crypto_live;  // live library objects
extern int model_verify_calls; // verification primitives invoked
extern bool model_faults;      // library allocations may fail
// when set, called before every verification primitive with its tuple
extern void (*model_query_hook)(int scheme, int md, const std::string& key, const std::string& data, const std::string& sig);
void model_crypto_reset();
