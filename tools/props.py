#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks as C
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


VF = ["src/verify.cc", "jwt_verify_lib/verify.h"]
JF = ["src/jwt.cc", "jwt_verify_lib/jwt.h"]
KF = ["src/jwks.cc", "jwt_verify_lib/jwks.h"]
SF = ["src/struct_utils.cc", "jwt_verify_lib/struct_utils.h"]
LF = ["simple_lru_cache/simple_lru_cache_inl.h", "simple_lru_cache/simple_lru_cache.h"]

p("V01", "A token is accepted only on a genuine signature by a matching key",
  "Signature verification succeeds only if some key of the key set that matches the token (equal key ids where both name one, equal alg where the key names one) validates the token's exact decoded signature over exactly header-section '.' payload-section. The primitive used is the one the token's alg names: RS = RSA PKCS#1 v1.5, PS = RSA-PSS with MGF1 of the same hash, ES = ECDSA on the key's curve, HS = HMAC, EdDSA = Ed25519, with SHA-256/384/512 as the alg's number says. No other key, scheme, hash, padding, data or signature value may lead to acceptance.",
  ["inputs", "configurations"], "every key set of the stated sizes (types, alg and kid labels symbolic), every token alg/kid/signature, every truth assignment of the cryptographic predicates",
  "Tests use a dozen fixed tokens signed by fixed keys; they cannot show that no other combination of alg, key, hash and bytes is accepted.",
  VF + KF, [("key loop and per-type dispatch", "src/verify.cc verifyJwtWithoutTimeChecking"), ("per-scheme primitives", "src/verify.cc verifySignature*")], ["verifyJwtWithoutTimeChecking", "verifyJwt"])
p("V02", "Every matching key is tried and the failure status tells why",
  "If any key matching the token validates its signature, verification succeeds, whatever the other keys in the set are and in whatever order they come. If at least one key matches by key id and alg but none validates, the status is the verification failure; if no key matches, or the set is empty, it is the kid/alg mismatch. A key without a key id or without an alg label, and a token without a key id, match everything in that respect.",
  ["inputs", "configurations"], "every order, type, kid and alg label of up to three keys and every token kid",
  "Tests try a few two-key sets; order and label combinations are not enumerated.",
  VF, [("kid and alg filter", "src/verify.cc verifyJwtWithoutTimeChecking")], ["verifyJwtWithoutTimeChecking"])
p("V03", "A key only verifies algorithms of its own type and curve",
  "An RSA key validates only RS*/PS* tokens, an EC key only the ES* alg of its own curve (P-256/ES256, P-384/ES384, P-521/ES512), a symmetric key only HS*, an Ed25519 key only EdDSA. This holds also for keys that carry no alg label, for keys loaded from PEM or X.509, and for keys given an unrelated alg label at load time; such a token is answered with a verification failure or mismatch and never with success.",
  ["inputs", "configurations"], "every (key type, curve, load path, alg label) x every implemented token alg",
  "Alg confusion needs a key without alg label and a token of another family; the test tokens are all produced by the matching family.",
  VF + KF, [("per-type dispatch on the token's alg", "src/verify.cc verifyJwtWithoutTimeChecking")], ["verifyJwtWithoutTimeChecking"])
p("V04", "Signatures must have exactly the length and encoding their alg fixes",
  "An ES256/ES384/ES512 token verifies only if its signature is exactly 64/96/132 bytes, read as the big-endian halves r and s; an HS token only if the signature equals the complete HMAC tag; an EdDSA token only if it is 64 bytes, any other length being reported as the Ed25519 wrong-length status when an Ed25519 key is tried. RSA signature bytes are passed on unaltered at their full length.",
  ["inputs"], "every signature length from 0 to twice the required one and every byte value",
  "Tests use well-formed signatures and a handful of corrupted ones; truncation, extension and odd lengths are not covered.",
  VF, [("r/s split", "src/verify.cc verifySignatureEC"), ("tag comparison", "src/verify.cc verifySignatureOct"), ("length check", "src/verify.cc verifySignatureEd25519")], ["verifyJwtWithoutTimeChecking"])
p("V05", "The token validity window is exact for every 64-bit time and skew",
  "A token is not-yet-valid exactly when now + skew < nbf and expired exactly when it has a non-zero exp and now > exp + skew, both evaluated as mathematical integers, with not-yet-valid reported first; otherwise the time check passes. The default skew is 60 seconds.",
  ["inputs"], "all 2^64 values of nbf, exp, now and skew",
  "Tests probe the boundary for small numbers only; wrap-around at the top of the 64-bit range is out of their reach.",
  JF, [("time comparison", "src/jwt.cc Jwt::verifyTimeConstraint")], ["Jwt::verifyTimeConstraint", "verifyJwt"])
p("V06", "Full verification is the conjunction of audience, time and signature",
  "Each full-verification entry point succeeds exactly when every check it includes succeeds: audience (when audiences are passed), then the time window at the given time and skew (60 s by default, and the wall clock's current Unix second when no time is passed), then the signature. It returns the status of the first check that fails in that order, and no check is skipped or replaced by another's outcome.",
  ["inputs", "configurations"], "every combination of outcomes of the three checks, every now/skew, every entry point",
  "Tests exercise one failing check at a time, with constants for now and skew.",
  VF + JF + ["src/check_audience.cc"], [("overloads", "src/verify.cc verifyJwt")], ["verifyJwt"])
p("V07", "Audience comparison ignores only one scheme prefix and one trailing slash",
  "A token's audiences are allowed exactly when the configured list is empty, or some token audience equals some configured one after removing, from each, one leading \"http://\" or \"https://\" and one trailing '/'. The comparison is otherwise byte-exact and case sensitive, never a prefix or substring match, and independent of list order, duplicates and sizes.",
  ["inputs", "configurations"], "every pair of audience strings up to the stated lengths and lists up to the stated sizes",
  "Tests compare a dozen literal strings.",
  ["src/check_audience.cc", "jwt_verify_lib/check_audience.h"], [("sanitising", "src/check_audience.cc sanitizeAudience"), ("set lookup", "src/check_audience.cc areAudiencesAllowed")], ["CheckAudience::areAudiencesAllowed"])
p("V08", "Verification is a pure function and leaves no residue",
  "Verifying changes neither the token nor the key set and gives the same answer when repeated or interleaved with verification of other tokens. A failed verification leaves no entry in the crypto library's per-thread error queue, every library object created during verification is released, and if a library call fails to allocate or initialise, the token is rejected and nothing crashes.",
  ["inputs", "histories", "fault_sequences"], "every key type and scheme, every outcome, every single or multiple library failure",
  "Tests check return values only; leaks, queue residue and library failures are invisible to them.",
  VF, [("UniquePtr ownership and ERR_clear_error", "src/verify.cc")], ["verifyJwtWithoutTimeChecking"])
p("V09", "Concurrent requests may share keys and tokens without a data race",
  "Verifying a token against a key set writes to no memory that existed before the call: not to the token, the key set or the audience lists, nor to any global or static variable, except thread-local or atomic data, data under a held lock and guarded one-time initialisation. Likewise parsing, copying, loading and checking audiences write only to the object being built or assigned. Hence any number of threads may verify with one key set, or work on objects of their own, without a data race.",
  ["schedules", "inputs"], "every interleaving of any number of threads (by absence of shared writes), every key type, alg, outcome and entry point within the bounds",
  "The tests are single-threaded; a race shows only under particular schedules, if at all.",
  VF + JF + KF, [("const access to token and key set", "src/verify.cc verifyJwtWithoutTimeChecking"), ("objects built locally", "src/jwt.cc, src/jwks.cc")], ["verifyJwt, Jwt::parseFromString, Jwks::createFrom"])
p("T01", "A token is exactly three non-empty dot-separated sections, kept verbatim",
  "Parsing succeeds only if the text consists of exactly three non-empty sections separated by exactly two dots; every other text is rejected as badly formatted. The header and payload sections used as signed data, and the whole token text, are kept byte for byte as received.",
  ["inputs"], "every byte string up to the stated length, every placement of dots",
  "Tests list a few malformed strings; leading, trailing and doubled dots are not all tried.",
  JF, [("split", "src/jwt.cc Jwt::parseFromString")], ["Jwt::parseFromString"])
p("T02", "Only the thirteen implemented algorithms pass the header check",
  "A token whose header lacks an alg, or whose alg is not a string, is rejected as bad alg; one whose alg is any string other than exactly ES256, ES384, ES512, HS256, HS384, HS512, RS256, RS384, RS512, PS256, PS384, PS512 or EdDSA is rejected as not implemented. A kid that is present must be a string; an absent kid reads as empty. Accepted values are exposed unchanged.",
  ["inputs"], "every string up to the stated length as alg (any case, prefix, suffix, \"none\"), every JSON kind for alg and kid",
  "Tests try a few names; near misses (case, truncation, embedded NUL) are unbounded.",
  JF, [("allow-list", "src/jwt.cc isImplemented")], ["Jwt::parseFromString"])
p("T03", "Claims are extracted faithfully and each malformed part has its own status",
  "On success iss, sub, jti (strings), iat, nbf, exp (numbers) and aud (a string or a list of strings, in order) are exactly those of the payload, absent ones reading as empty or zero, and the signature is the base64url decoding of the third section. Base64 or JSON errors in header, payload or signature, and a claim of the wrong JSON type or a number out of range, are rejected with the status of that part; the first failing part in the order header, payload, claims, signature decides.",
  ["inputs"], "every JSON kind for every claim, every decoding outcome for every section, jointly",
  "Tests break one claim at a time with one wrong kind.",
  JF + SF, [("claim extraction", "src/jwt.cc Jwt::parseFromString")], ["Jwt::parseFromString"])
p("T04", "JSON numbers convert to 64-bit integers exactly or are refused",
  "A numeric claim is accepted exactly when it is a number v with 0 <= v < 2^64, and its value is then v with the fraction dropped. Negative values, 2^64 and above, infinities and NaN are reported out of range and leave the destination unchanged.",
  ["inputs"], "all 2^64 bit patterns of the double",
  "A test can only try sample doubles; rounding at 2^53 and 2^64 and NaN are the rare cases.",
  SF, [("range check and cast", "src/struct_utils.cc StructUtils::GetUInt64")], ["StructUtils::GetUInt64"])
p("T05", "A token object depends only on the text it was last given",
  "After parsing a text, every field and the status equal those of a freshly created object given the same text, whatever the object held or failed on before. Copies and assignments equal their source and later changes to one do not affect the other; assigning an object to itself leaves it unchanged.",
  ["histories", "inputs"], "every pair of earlier and later token (valid or failing at any stage)",
  "Tests reuse an object rarely and compare few fields.",
  JF, [("re-parse on copy", "src/jwt.cc Jwt::operator="), ("field assignment", "src/jwt.cc Jwt::parseFromString")], ["Jwt::parseFromString", "Jwt copy and assignment"])
p("K01", "Loading a key set keeps exactly the valid keys, in order",
  "Loading a JWKS document yields, in document order, exactly one key per well-formed entry of \"keys\" with its kid and alg; malformed or unsupported entries and non-object entries are skipped without affecting the others. The status is Ok exactly when at least one key was kept; otherwise it is the first entry's error, or no-valid-keys if there is none to report; a document that is not JSON, has no \"keys\" or whose \"keys\" is not a list gets its own status and no keys.",
  ["inputs"], "every list of up to three entries, each valid or failing in any way, in any order",
  "Tests load fixed documents with at most one bad entry.",
  KF, [("entry loop", "src/jwks.cc Jwks::createFromJwksCore"), ("first-error status", "jwt_verify_lib/status.h WithStatus")], ["Jwks::createFrom"])
p("K02", "An RSA JWK is accepted only with valid n, e and an RSA alg",
  "An RSA entry yields a key exactly when its alg, if any, begins with RS or PS, n and e are strings of valid base64url, e is 3 or 65537 and the key passes the crypto library's public-key check; the loaded modulus and exponent are then exactly the decoded values. Every other entry is refused with the status naming what is wrong.",
  ["inputs"], "every JSON kind of n, e and alg, every exponent value up to the stated size, both outcomes of the library check",
  "Tests use one good key and a few broken ones.",
  KF, [("RSA entry", "src/jwks.cc extractJwkFromJwkRSA"), ("key construction", "src/jwks.cc KeyGetter::createRsaFromJwk")], ["Jwks::createFrom"])
p("K03", "An EC JWK gets the curve its alg and crv agree on",
  "An EC entry yields a key exactly when its alg, if any, begins with ES, alg and crv agree (ES256/P-256, ES384/P-384, ES512/P-521, either may be absent, both absent means P-256), x and y are strings of valid base64url and the point lies on that curve; the key then has exactly that curve, crv name and point. Every other entry is refused with the status naming what is wrong.",
  ["inputs"], "every JSON kind and string of alg, crv, x, y up to the stated length, both outcomes of the on-curve check",
  "Tests use fixed curve/alg pairs.",
  KF, [("EC entry", "src/jwks.cc extractJwkFromJwkEC")], ["Jwks::createFrom"])
p("K04", "Symmetric and Ed25519 JWKs are loaded exactly or refused",
  "An oct entry yields a key exactly when its alg, if any, is HS256, HS384 or HS512 and k is a string decoding to a non-empty value, which is the key byte for byte. An OKP entry yields a key exactly when its alg, if any, is EdDSA, crv is Ed25519 and x decodes to exactly 32 bytes, which are the key. Every other entry, and any other kty, is refused with the status naming what is wrong.",
  ["inputs"], "every JSON kind and value of kty, alg, crv, k, x; every decoded length around the required one",
  "Tests use fixed keys and few malformed ones.",
  KF, [("oct entry", "src/jwks.cc extractJwkFromJwkOct"), ("OKP entry", "src/jwks.cc extractJwkFromJwkOKP"), ("dispatch", "src/jwks.cc extractJwk")], ["Jwks::createFrom"])
p("K05", "PEM loading is exact, and adding a PEM key is all or nothing",
  "Loading a PEM public key yields exactly one key of the type found in the document, carrying the key id and alg passed by the caller, or an error status and no key. Adding a PEM key to an existing set appends that key after the others on success and otherwise returns the error and leaves the set and its status unchanged.",
  ["inputs", "histories"], "every outcome of the PEM parser (RSA, EC, Ed25519, other type, garbage), every prior set, sequences of additions",
  "Tests add one or two good keys.",
  KF, [("PEM", "src/jwks.cc Jwks::createFromPemCore"), ("append", "src/jwks.cc Jwks::addKeyFromPem")], ["Jwks::createFrom", "Jwks::createFromPem", "Jwks::addKeyFromPem"])
p("K06", "An X.509 key map loads completely or not at all",
  "A document without \"keys\" is read as a kid-to-certificate map exactly when it is non-empty and every member has a non-empty name and a string value with the PEM certificate header and footer. It then yields one RSA key per member under that member's name, and if any certificate cannot be parsed or has no RSA key, an error status and no keys at all.",
  ["inputs"], "every map of up to three members, each good or failing in any way, in any iteration order",
  "Tests load one good map and a few fully bad ones; partial failure depends on map order.",
  KF, [("shape test", "src/jwks.cc shouldCheckX509"), ("load", "src/jwks.cc createFromX509")], ["Jwks::createFrom"])
p("S01", "Typed lookup of dotted names finds exactly the named value",
  "Looking up a dotted name walks one object level per segment, reporting missing when a segment does not exist and wrong type when a non-final segment is not an object. The typed getters succeed exactly when the value found has the requested JSON kind and then return it unchanged; on any other outcome of a scalar getter the caller's variable is untouched.",
  ["inputs"], "every object tree of the stated depth with symbolic kinds and every dotted path up to the stated length",
  "Tests look up a handful of fixed paths.",
  SF, [("walk", "src/struct_utils.cc StructUtils::GetValue")], ["StructUtils"])
p("U01", "Every status has its own non-empty description",
  "Each status value converts to a non-empty text, different statuses have different texts, and the conversion is stable from call to call. An object that records statuses reports Ok until its first failure and then keeps reporting that first failure.",
  ["inputs", "histories"], "every pair of status values; every sequence of up to four recorded statuses",
  "Tests check a couple of texts.",
  ["src/status.cc", "jwt_verify_lib/status.h"], [("text table", "src/status.cc getStatusString"), ("first error wins", "jwt_verify_lib/status.h WithStatus::updateStatus")], ["getStatusString", "WithStatus"])
p("C01", "The cache is a map from key to the last value inserted",
  "A lookup returns the value most recently inserted under that key unless it was removed, evicted or expired since, and never a value of another key or a replaced one; a key not present returns null. Inserting over an existing key replaces it, and lookups of other keys are unaffected.",
  ["histories", "inputs"], "every sequence of operations of the stated length over symbolic keys, units and capacity",
  "Tests run fixed scripts; collisions of keys and capacity boundaries are sampled.",
  LF, [("table", "simple_lru_cache_inl.h lookupWithOptions/insertPinned")], ["SimpleLRUCache lookup/insert"])
p("C02", "A pinned value stays alive; every value is destroyed exactly once",
  "A value obtained by lookup or pinned insertion is not destroyed until every one of its pins has been released, whatever is inserted, removed, evicted, expired or resized meanwhile. Every value handed to the cache is destroyed exactly once: when it is removed, evicted or expired while unpinned, at its last release if it was removed meanwhile or the cache is overfull, or at clear; destroyed values are never touched again.",
  ["histories"], "every sequence of operations of the stated length, several pins, several deferred values under one key",
  "A use after free or double destruction needs a particular order of pins, removals and releases.",
  LF, [("pin counts and deferred list", "simple_lru_cache_inl.h releaseWithOptions/remove")], ["removeElement callback"])
p("C03", "Size, pinned, deferred and entry counters are exact",
  "After every operation the reported size is the sum of units of all live values (in the cache or awaiting their last release), the pinned size the sum over pinned values still in the cache, the deferred size and count those of removed values still pinned, and the entry count the number of keys present. This includes changes of a value's size while it is pinned or deferred, and removal of pinned values.",
  ["histories", "inputs"], "every sequence of operations of the stated length with symbolic unit sizes",
  "Tests assert the counters along a few scripts with fixed units.",
  LF, [("counters", "simple_lru_cache_inl.h units_/pinned_units_")], ["size/pinnedSize/deferredSize/deferredEntries/entries"])
p("C04", "Over capacity, exactly the least recently released values are evicted",
  "When an insertion, a resize of the cache or of a value leaves it over capacity, unpinned values are destroyed in order of least recent use (last insertion or release) until it fits or only pinned values remain, and not one more. Where a cache overrides the test for being overfull, that test decides. A value released while the cache is over capacity is destroyed at that release. A cache within capacity evicts nothing.",
  ["histories", "inputs"], "every order of accesses of up to four values with symbolic units and capacity",
  "Tests use unit-size entries and a fixed access pattern.",
  LF, [("garbage collection", "simple_lru_cache_inl.h garbageCollect"), ("LRU list", "simple_lru_cache_inl.h Elem::link/unlink")], ["removeElement callback, lookups"])
p("C05", "Age-based mode orders and expires by insertion time only",
  "In age-based mode values are evicted and expire in order of insertion; looking a value up or releasing it changes neither its insertion time nor its place. A pinned value that expires disappears from lookups at once but is destroyed only at its last release.",
  ["histories", "inputs"], "every sequence of operations of the stated length with symbolic times and age limit",
  "Tests sleep through one or two fixed schedules.",
  LF, [("mode flag", "simple_lru_cache_inl.h lru_"), ("expiry", "simple_lru_cache_inl.h discardIdle")], ["setAgeBasedEviction, lookups, getInsertionTime"])
p("C06", "Idle expiry removes exactly the values idle for longer than the limit",
  "With a maximum idle time set, a lookup or an explicit expiry removes exactly the unpinned values whose time since last use (last insertion or release) exceeds the limit, and setting a limit does so at once; a value used more recently, or exactly at the limit, stays. With no limit (negative or infinite), nothing expires; pinned values never expire in this mode.",
  ["histories", "inputs"], "every sequence of operations of the stated length with symbolic non-decreasing times and every idle limit",
  "Tests sleep around one limit; exact boundaries are out of reach of real time.",
  LF, [("expiry", "simple_lru_cache_inl.h discardIdle/removeExpiredEntries"), ("limit", "simple_lru_cache_inl.h setTimeout")], ["setMaxIdleSeconds, lookups, removeExpiredEntries"])
p("C07", "Removal operations take out exactly what they name",
  "Removing a key makes it unfindable and touches no other key; removing all empties the cache for lookups, removing unpinned removes exactly the unpinned values, and clearing an unpinned cache destroys everything and leaves it empty. Whatever is removed, the order in use, the limits and the capacity stay as set. Unpinned values are destroyed at once and pinned ones at their last release; removing an absent key does nothing.",
  ["histories"], "every sequence of operations of the stated length over pinned and unpinned values",
  "Tests run each operation on one arrangement.",
  LF, [("removal", "simple_lru_cache_inl.h remove/removeAll/removeUnpinned/clear")], ["removeElement callback, lookups"])
p("C08", "Timeouts and ages convert exactly for every value",
  "A non-negative timeout in seconds becomes that many microseconds with the fraction dropped, saturating at the largest representable value; a negative or infinite one, or NaN, means none. The reported age of the value first in line for eviction is the clock's current reading minus its last use, zero when there is none, for every pair of times the clock can give, and a value's reported last-use or insertion time is the clock reading at that operation, or -1 for an absent key.",
  ["inputs"], "every double as timeout; every pair of clock readings",
  "Tests try a few timeouts and short sleeps.",
  LF, [("conversion", "simple_lru_cache_inl.h setTimeout"), ("age", "simple_lru_cache_inl.h ageOfLRUItemInMicroseconds/getLastUseTime")], ["setMaxIdleSeconds, ageOfLRUItemInMicroseconds, getLastUseTime"])
p("C09", "Lookups that do not update recency, and mode changes, keep the cache sound",
  "A lookup and release made without updating the eviction order leave recency, order and timestamps as they were while counting and protecting pins as usual. Mixing such accesses with ordinary ones, also on the same entry, with expiry and with capacity changes, or switching between idle and age-based eviction while entries exist, never crashes, never corrupts or loses entries and never destroys a pinned value.",
  ["histories", "configurations"], "every sequence of operations of the stated length with either option and mode switches at any point",
  "Tests use the option in one script and never switch modes with pinned entries.",
  LF, [("options", "simple_lru_cache_inl.h lookupWithOptions/releaseWithOptions"), ("list links", "simple_lru_cache_inl.h Elem::link/unlink")], ["lookupWithOptions/releaseWithOptions, setAgeBasedEviction/setMaxIdleSeconds"])
p("C10", "Iteration, scoped lookups and in-use queries reflect the contents",
  "Iterating visits every key present exactly once with its current value and time, and nothing else. A scoped lookup holds exactly one pin from construction to destruction when it finds a value and none otherwise; an in-use query is true exactly for a key, or key and value, that is present or removed but still pinned.",
  ["histories"], "every sequence of operations of the stated length followed by each query",
  "Tests query a few fixed arrangements.",
  LF, [("iterator", "simple_lru_cache_inl.h SimpleLRUCacheConstIterator"), ("scoped lookup", "simple_lru_cache_inl.h ScopedLookup"), ("in use", "simple_lru_cache_inl.h stillInUse")], ["begin/end, ScopedLookup, stillInUse"])
p("C11", "Diagnostic reports agree with the cache's contents",
  "The cache's summary states its current pinned, deferred and total sizes. Its debug output states the number of entries, the number of removed entries still pinned, the total size and the capacity, and reports each live value, in the cache or awaiting its last release, exactly once, and no other, with its pin count, whether it awaits its last release and, while in the cache, its last-use or insertion time; producing a report changes nothing in the cache.",
  ["histories"], "every sequence of operations of the stated length with pinned, deferred and removed values, followed by each report",
  "Tests print one report and check none of its numbers over histories.",
  LF, [("reports", "simple_lru_cache_inl.h debugOutput/debugIterator/summary")], ["summary, debugOutput"])
p("R01", "Untrusted tokens and key documents cannot crash the library",
  "Parsing any token text, loading any key document or PEM text, checking any audience lists and verifying any parsed token with any loaded key set always returns a status: no out-of-bounds or dangling access, no uninitialised read, no integer or conversion undefined behaviour, no failed assertion, no exception and no endless loop. The same holds when a token failed to parse and is verified all the same.",
  ["inputs"], "every byte string up to the stated length as token; every JSON shape of the stated size as header, payload, key entry or certificate map; every outcome of the crypto library",
  "Tests and fuzzing sample inputs; absence of memory errors needs all of them.",
  JF + KF + VF + SF, [("input validation", "src/jwt.cc Jwt::parseFromString, src/jwks.cc")], ["Jwt::parseFromString, Jwks::createFrom, verifyJwt"])

TECH = "bounded symbolic execution of the compiled IR of the real sources with an SMT solver (z3; cvc5 cross-check), counterexamples replayed natively"
if __name__ == "__main__":
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
    with open(f"{V}/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        c = C.CHECKS.get(x["id"])
        if c:
            checks.append(dict(property=x["id"], quick_cmd=f"python3 run_check.py {x['id']}", thorough_cmd=f"python3 run_check.py {x['id']} --thorough",
                               technique=TECH, level="model_checking",
                               level_note="Decided for every input within the stated bounds (" + "; ".join(dict.fromkeys(r["bounds"] for r in c["quick"] if r.get("bounds"))) + "). Trusts the IR executor, z3, clang and the stubs listed in DESIGN.md; outside: " + (c.get("outside") or "larger sizes than the bounds") + "."))
        else:
            na.append(dict(property=x["id"], reason=C.NOT_APPLICABLE.get(x["id"], "check under construction")))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")
    print(len(checks), "checks,", len(na), "not claimed")
