COMMON_ASSUMPTIONS = [
    "clang 18's translation to LLVM IR at -O1, the IR executor (engine/, validated by replaying sampled paths natively) and z3 are right",
    "operator new does not fail; libstdc++'s trees and hash containers are replaced by models with the same interface (models/model_std.cc)",
]
CRYPTO = "BoringSSL is a stub (models/model_crypto.cc): signature predicates, key validity and certificate parsing are uninterpreted, chosen by the solver; object ownership, error queue and NULL results follow its documentation"
PB = "protobuf Struct/Value and the JSON parser are a model: a document is any tree the harness builds, of any JSON kind; that text and tree correspond is protobuf's business"
ABSL = "the abseil functions used (base64, split, strip, join, time) are re-implemented in models/model_absl.cc for the symbolic side; native replay uses the real library"
CLOCK = "the clock is a stub that returns any instant not before the last, constant during one operation"
SECT = "header and payload sections fixed, signature bytes symbolic"
CHECKS = {}


def check(id, quick, thorough=(), outside="", assume=(), files=()):
    CHECKS[id] = dict(quick=list(quick), thorough=list(quick) + list(thorough), outside=outside, assumptions=list(assume), files=list(files))


def R(harness, defs="", reach="", bounds="", **kw):
    return dict(harness=harness, defs=defs.split(), reach=reach.split(), bounds=bounds, **kw)


AR = "accepted rejected"
check("V01", [
    R("V01.cc", "NKEYS=2 KIDLEN=1", AR, "2 keys of any of 6 types, kids of 0-1 symbolic bytes, key alg absent or 5 symbolic bytes, any of 13 token algs, every signature of the alg's length, every truth assignment of the signature predicates"),
    R("V01.cc", "NKEYS=1 KIDLEN=0 SAMEFAM PRIOR", AR, "1 key, after the same or another token was verified against the same or another set, with any outcome"),
    R("V01.cc", "NKEYS=1 KIDLEN=2 PADDED", AR, "1 key, kids of 0-2 bytes, four spellings (padded or not) of the signed sections"),
    R("long.cc", "PART=1", AR + " mismatch", "1 key and a token with names, header or payload of 19 lengths from 16 to 20001 bytes, with one symbolic byte in one of three places of the names", max_inst=30000000),
], [
    R("V01.cc", "NKEYS=1 KIDLEN=4 PADDED", AR, "1 key, kids of 0-4 bytes, four spellings of the signed sections"),
    R("V01.cc", "NKEYS=3 KIDLEN=1 SAMEFAM", AR, "3 keys, each of the token's family or another, kids of 0-1 bytes", time=3000),
], "larger key sets, longer kids; the strength of the cryptographic primitives", [CRYPTO, PB], ["src/verify.cc"])
check("V02", [
    R("V01.cc", "NKEYS=3 KIDLEN=1 SAMEFAM FEWALGS EXACT", AR + " mismatch", "3 keys in every order, each of the token's type or of one other, kids of 0-1 bytes, alg label absent, right or wrong; one alg per family"),
    R("V02.cc", "NKEYS=20", AR + " mismatch", "20 keys in 4 patterns of matching ones, any subset of which validates; 7 algs"),
    R("V02.cc", "NKEYS=130 BIG", AR, "130 keys, of which all or only the last match, any subset of which validates; 2 algs", max_inst=600000000),
    R("long.cc", "PART=1 EXACT", AR + " mismatch", "the long tokens and names of V01", max_inst=30000000),
    R("V02.cc", "NKEYS=4 PRIOR", AR + " mismatch", "4 keys in the same patterns, after another token, of the same or another name and alg, was judged by the same set"),
], [
    R("V02.cc", "NKEYS=130", AR + " mismatch", "130 keys in 4 patterns", time=3000, max_inst=600000000),
    R("V02.cc", "NKEYS=4 EACH", AR + " mismatch", "4 keys, each matching or differing in type, key id or alg", time=3000),
    R("V01.cc", "NKEYS=2 KIDLEN=1 EXACT", AR + " mismatch", "2 keys of any type, alg label absent or 5 symbolic bytes, all 13 algs"),
    R("V01.cc", "NKEYS=3 KIDLEN=1 SAMEFAM EXACT", AR + " mismatch", "3 keys, all 13 algs", time=3000),
], "larger key sets, longer kids", [CRYPTO, PB], ["src/verify.cc"])
check("V03", [R("V03.cc", "", AR + " confused", "1 key of 6 types over 6 load paths (JWKS with and without crv, PEM, PEM added, PEM without labels, X.509) with each of 15 labels, 13 token algs, signature of the key's or the alg's length; what the library says about any bytes is arbitrary"),
             R("V03.cc", "PRIOR", AR + " confused", "the same after a token of the key's own family was judged")],
      outside="sets of several keys (V01)", assume=[CRYPTO, PB], files=["src/verify.cc"])
check("V04", [R("V04.cc", "", AR + " ed25519_length", "1 usable key, each of 13 algs, every signature length from 0 to twice the right one plus 2, every byte value"),
             R("V04.cc", "PRIOR", AR + " ed25519_length", "the same after another signature of the right length was judged")],
      outside="longer signatures", assume=[CRYPTO, PB], files=["src/verify.cc"])
check("V05", [R("V05.cc", "", "early late ok", "none: every 64-bit value of nbf, exp, now and clock skew"), R("V05.cc", "PRIOR", "early late ok", "the same after another check")], files=["src/jwt.cc"], outside="nothing")
check("V06", [R("V06.cc", "", "ok early late audience mismatch bad clock", "all 5 entry points, every 64-bit nbf, exp, now, skew, every outcome of the signature, 0-2 configured and 0-2 token audiences out of three, one RSA or symmetric key"),
              R("V06.cc", "TWICE", "ok early late audience mismatch bad clock", "two verifications, each by any entry point, with other times, claims, audiences and clock")],
      outside="other key types (V01), other audience strings (V07)", assume=[CRYPTO, PB, CLOCK], files=["src/verify.cc"])
check("V07", [
    R("V07.cc", "NC=1 NT=1 LEN=10", "allowed refused", "one configured and one token audience, each any string of 0-10 bytes", src=["check_audience.cc"]),
    R("V07.cc", "NC=1 NT=1 LEN=2 FORMS", "allowed refused", "one configured and one token audience: 10 scheme prefixes, doubled, cut or odd, x 0-2 symbolic bytes x 0-2 slashes", src=["check_audience.cc"]),
    R("V07.cc", "NC=2 NT=2 LISTS", "allowed refused", "0-2 configured and 0-2 token audiences, each a symbolic byte with or without scheme and slash", src=["check_audience.cc"]),
    R("V07.cc", "NC=1 NT=1 LISTS PRIOR", "allowed refused", "the same with 0-1 each, after another check by this or another checker", src=["check_audience.cc"]),
    R("V07.cc", "LONG", "allowed refused", "one audience each of 18 lengths from 16 to 4097 bytes with one symbolic byte each, and lists of 40 of which one pair may be equal", src=["check_audience.cc"]),
], [
    R("V07.cc", "NC=1 NT=1 LEN=12", "allowed refused", "one audience each, any string of 0-12 bytes", src=["check_audience.cc"], time=3000),
    R("V07.cc", "NC=3 NT=2 LISTS", "allowed refused", "0-3 configured and 0-2 token audiences", src=["check_audience.cc"], time=3000),
], "longer strings and lists", [ABSL], ["src/check_audience.cc"])
check("V08", [
    R("V08.cc", "NKEYS=1", AR, "1 key of the token's family, 13 algs, every outcome; repeated and interleaved with a second token"),
    R("V08.cc", "NKEYS=2", AR, "2 keys, the second of any type; the second token is of its family"),
    R("V08.cc", "NKEYS=2 FAULTS", AR, "2 keys; any subset of the library calls made fails"),
], outside="larger key sets; concurrent use", assume=[CRYPTO, PB], files=["src/verify.cc"])
check("V09", [
    R("V09.cc", "", "ok failed", "a shared key set of 1 key of the token's family and a shared token, 13 algs, signatures of the right and a wrong length, every outcome; 5 verification entry points, parsing, copying, loading (JWKS, PEM, certificate map), audience check and status text"),
    R("V09.cc", "NKEYS=2", "ok failed", "shared key sets of 2 keys, the second of any type, either named or not"),
], [R("V09.cc", "NKEYS=3", "ok failed", "shared key sets of 3 keys, the second and third of any type", time=3000)],
      outside="writes inside BoringSSL, protobuf and abseil; reads of data another thread writes; destruction while in use", assume=[CRYPTO, PB, ABSL, "one thread at a time is executed: no store to shared memory outside a held lock, an atomic operation or a guarded initialisation means that no interleaving can race"], files=["src/verify.cc"])
check("T01", [
    R("T01.cc", "LEN=6", "three_sections bad", "every byte string of 0-6 bytes"),
    R("T01.cc", "LEN=11 DOTS", "three_sections bad parsed", "every string of 0-11 bytes over '.' and 'A'"),
    R("T01.cc", "LEN=8 B64", "three_sections bad parsed", "every string of 0-8 bytes over dots, padding, dash, underscore and digits"),
    R("T01.cc", "LEN=7 DOTS PRIOR", "three_sections bad", "every string of 0-7 bytes over '.' and 'A', after one of four other texts or the same with one byte changed"),
    R("long.cc", "PART=0 WHAT=6,7,8", "parsed", "good tokens with one section of 19 lengths from 16 to 20001 bytes with one symbolic byte"),
], [
    R("T01.cc", "LEN=8", "three_sections bad", "every byte string of 0-8 bytes", time=3000),
    R("T01.cc", "LEN=14 DOTS", "three_sections bad parsed", "every string of 0-14 bytes over '.' and 'A'", time=3000),
], "longer texts", [PB, ABSL], ["src/jwt.cc"])
check("T02", [R("T02.cc", "LEN=7", "bad_alg not_implemented bad_kid ok", "alg of 0-7 and kid of 0-3 symbolic bytes, each present or absent and of any JSON kind"),
             R("long.cc", "PART=0 WHAT=3", "parsed", "key ids of 19 lengths from 16 to 20001 bytes with one symbolic byte"),
             R("T02.cc", "LEN=6 PRIOR", "bad_alg not_implemented bad_kid ok", "alg of 0-6 bytes, after a token with another header, implemented or not, was parsed")],
      [R("T02.cc", "LEN=16", "bad_alg not_implemented bad_kid ok", "alg of 0-16 symbolic bytes")],
      "longer alg names", [PB, ABSL], ["src/jwt.cc"])
check("T03", [
    R("T03.cc", "", "hdr64 pay64 aud sig ok", "all seven claims jointly present or absent and of any JSON kind, 0-2 audience elements of any kind, each section good or bad"),
    R("T03.cc", "FOCUS", "aud sig ok", "one claim at a time with 0-2 symbolic bytes, six numbers in and out of range, 0-3 audience elements of any kind"),
    R("T03.cc", "TEXTS=4", "hdr64 pay64 sig ok", "each section in turn of 1-4 arbitrary bytes, the others good"),
    R("T03.cc", "FOCUS PRIOR", "aud sig ok", "the second run after another token was parsed that shares its header, its payload, both or neither, or after the same one"),
    R("long.cc", "PART=0 WHAT=0,1,2,4,5,6,9", "parsed bad", "string claims, audiences and signatures of 19 lengths from 16 to 20001 bytes with one symbolic byte, audience lists of 16 to 258 entries"),
], outside="longer strings and lists; other numbers (T04)", assume=[PB, ABSL], files=["src/jwt.cc", "src/struct_utils.cc"])
check("T04", [R("T04.cc", "", "accepted refused", "none: all 2^64 bit patterns of the double"), R("T04.cc", "PRIOR", "accepted refused", "the same after any other number was read")], outside="nothing", assume=[PB], files=["src/struct_utils.cc"])
check("T05", [
    R("T05.cc", "", "ok ok_after_failure", "every pair of two tokens, each failing at any of 20 stages or good, in seven patterns of reuse, copy and assignment; claim bytes symbolic"),
    R("T05.cc", "PRESENCE", "ok", "both tokens good, every combination of present claims in the second"),
], outside="longer histories; longer strings", assume=[PB, ABSL], files=["src/jwt.cc"])
check("K01", [R("K01.cc", "", "kept first nothing notjson", "lists of 3 entries, each of 4 good types or broken in one of 9 ways; documents that are no JSON, have no keys, have keys of another kind, an empty list or extra members"),
               R("K01_many.cc", "NE=130", "kept", "lists of 130 entries of one of 6 types in 10 periodic patterns of good and broken ones, named, unnamed or all alike", max_inst=60000000),
               R("K01.cc", "NE=2 PRIOR", "kept first nothing notjson", "lists of 2 entries, after another document of one of four forms was loaded")],
      [R("K01.cc", "NE=4", "kept first nothing notjson", "lists of 4 entries", time=3000)],
      "longer lists; every way an entry can be broken (K02-K04)", [CRYPTO, PB, ABSL], ["src/jwks.cc"])
FOC = "labels (kty, alg, kid, crv) and key material vary in turn, the other fixed; "
check("K02", [R("K_entry.cc", "RSA_ ANYTEXT=2", "kept refused parse", FOC + "every member absent or of any JSON kind, alg of 0-5 symbolic bytes, n of 0-2 and e of 1-9 symbolic bytes, undecodable or text of 1-2 symbolic characters, both outcomes of the library check"),
              R("K_entry.cc", "RSA_ LONG", "kept refused", "moduli of 29 lengths from 15 to 2049 bytes with symbolic first and last byte"),
              R("K_entry.cc", "RSA_ PRIOR", "kept refused parse", "the same after another document of one of four forms, or the same with one member changed, was loaded")],
      [R("K_entry.cc", "RSA_ ANYTEXT=4", "kept refused parse", "n and e also of any text of up to 4 characters", time=3000),
       R("K_entry.cc", "RSA_ JOINT", "kept refused parse", "labels and key material vary jointly", time=3000)],
      "longer moduli and exponents", [CRYPTO, PB, ABSL], ["src/jwks.cc"])
check("K03", [R("K_entry.cc", "EC_ ANYTEXT=3", "kept refused parse clash unsupported", FOC + "every member absent or of any JSON kind, alg and crv of 0-6 symbolic bytes, coordinates of 0-2 symbolic bytes, undecodable or text of 1-3 symbolic characters, both outcomes of the on-curve check"),
              R("K_entry.cc", "EC_ LONG", "kept refused", "coordinates of 29 lengths from 15 to 2049 bytes with symbolic first and last byte"),
              R("K_entry.cc", "EC_ PRIOR", "kept refused parse clash unsupported", "the same after another document of one of four forms, or the same with one member changed, was loaded")],
      [R("K_entry.cc", "EC_ JOINT", "kept refused parse clash unsupported", "labels and key material vary jointly", time=3000)],
      "longer coordinates", [CRYPTO, PB, ABSL], ["src/jwks.cc"])
check("K04", [
    R("K_entry.cc", "OCT_ ANYTEXT=4", "kept refused parse", FOC + "alg of 0-6 symbolic bytes, k of 0-4 symbolic bytes, undecodable or text of 1-4 symbolic characters"),
    R("K_entry.cc", "OKP_ ANYTEXT=2", "kept refused parse length", FOC + "alg of 0-6, crv of 0-8 symbolic bytes, x of 0, 31, 32 (padded or not), 33, 64 bytes, undecodable or text of 1-2 symbolic characters"),
    R("K_entry.cc", "OCT_ LONG", "kept refused", "oct: keys of 29 lengths from 15 to 2049 bytes with symbolic first and last byte"),
    R("K_entry.cc", "OCT_ PRIOR", "kept refused parse", "oct: the same without arbitrary texts, after another document of one of four forms, or the same with one member changed, was loaded"),
    R("K_entry.cc", "OKP_ PRIOR", "kept refused parse length", "OKP: likewise"),
    R("K_entry.cc", "OTHER_", "refused rsa", "kty of 0-4 symbolic bytes and of any JSON kind"),
], [R("K_entry.cc", "OCT_ JOINT", "kept refused parse", "oct: labels and key material vary jointly", time=3000),
    R("K_entry.cc", "OKP_ JOINT", "kept refused parse length", "OKP: labels and key material vary jointly", time=3000)],
      "longer keys", [CRYPTO, PB, ABSL], ["src/jwks.cc"])
check("K05", [
    R("K05.cc", "", "loaded refused added not_added", "7 kinds of PEM document with and without labels; five prior sets and two additions with kid of 0-1 symbolic bytes and alg absent, symbolic or fixed"),
    R("K05.cc", "FAULTS ADDS=1", "loaded refused added not_added", "one addition or load; any subset of the library calls made fails"),
    R("K05.cc", "ADDS=1 PRIOR", "loaded refused added not_added", "one addition or load after another document of one of four forms was loaded"),
    R("K05.cc", "ADDS=1 MANY=130", "added not_added", "one addition to a set of 130 keys", max_inst=60000000),
], [R("K05.cc", "ADDS=3", "loaded refused added not_added", "three additions", time=3000)],
      "longer sequences; crv of an Ed25519 PEM key given an ES label", [CRYPTO, PB], ["src/jwks.cc"])
check("K06", [
    R("K06.cc", "", "loaded failed no_shape", "maps of 0-3 members, each good or bad in one of 10 ways (a single one also with any one byte of its header or footer changed), one of them possibly unnamed, names of 2 bytes with one symbolic, both iteration orders"),
    R("K06.cc", "FAULTS NM=2", "loaded failed no_shape", "maps of 0-2 members; any subset of the library calls made fails"),
    R("K06.cc", "NM=20 MANY", "loaded failed no_shape", "maps of 20 members, at most one of which is bad in one of 10 ways"),
    R("K06.cc", "NM=2 PRIOR", "loaded failed no_shape", "maps of 0-2 members after another document of one of four forms, or a map with the same names or certificates, was loaded"),
], [R("K06.cc", "NM=4", "loaded failed no_shape", "maps of 0-4 members", time=3000)],
      "larger maps; certificate contents", [CRYPTO, PB, ABSL], ["src/jwks.cc"])
check("S01", [
    R("S01.cc", "LEN=4", "found wrong list", "a tree of depth 3 with six nodes, each absent or of any kind, and every path of 0-4 bytes", src=["struct_utils.cc"]),
    R("S01.cc", "DOTS LEN=5", "found wrong list", "the same tree, every path of 5 bytes over 'a', '.', 'b'", src=["struct_utils.cc"]),
    R("S01.cc", "DOTS LEN=3 PRIOR", "found wrong list", "every path of 3 bytes over 'a', '.', 'b' after lookups of the same and any other name in the tree before it was changed, and in another", src=["struct_utils.cc"]),
    R("long.cc", "PART=2", "found missing", "names of 13 lengths from 16 to 257 bytes with one symbolic byte, and paths of up to 65 segments", src=["struct_utils.cc"]),
], [R("S01.cc", "DOTS LEN=8", "found wrong list", "every path of 8 bytes over 'a', '.', 'b'", src=["struct_utils.cc"], time=3000)],
      "deeper trees, longer paths", [PB, ABSL], ["src/struct_utils.cc"])
check("U01", [
    R("U01.cc", "", "same different", "every pair of status values", src=["status.cc"]),
    R("U01.cc", "RECORD", "reset", "every sequence of four recorded or reset statuses", src=["status.cc"]),
], outside="longer sequences of recorded statuses", files=["src/status.cc"])
OPNAMES = dict(INS="insert", INSP="pinned insert", LOOK="lookup", LOOKN="lookup without update", REL="release", REM="remove", REMALL="remove all", REMUNP="remove unpinned",
               MAXS="capacity change", UPD="value resize", CLR="clear", EXP="explicit expiry", IDLE="idle limit change", AGE="age limit change",
               TOUCH="lookup and release", TOUCHN="lookup and release without update", NOW="age query")


def C(p, depth, ops, reach="", time=None, **kw):
    # ops: "A B C" for each of depth steps, or (depth None) "A B, C, D E" step by step
    d = [f"PROP={p}"]
    if depth: d += [f"DEPTH={depth}", "OPS=(" + "|".join(ops.split()) + ")"]
    else: d += ["SHAPE=" + ",".join("|".join(x.split()) for x in ops.split(","))]
    for k, v in kw.items():
        if k in ("UNITS", "TBITS", "MODE", "PRE", "NK", "CAP", "OVER"): d.append(f"{k}={v}")
        elif v is True: d.append(k)
    if "UNITS" not in kw and "CAP" not in kw: d.append("CAP=1000")
    if depth: b = f"every sequence of {depth} operations ({', '.join(OPNAMES[o] for o in ops.split())})"
    else: b = "every sequence of the form " + "; ".join(" or ".join(OPNAMES[o] for o in x.split()) for x in ops.split(","))
    if kw.get("MANY"): b += f" on few of {kw['NK']} keys present, of which none, a third, all but one or three are pinned"
    elif kw.get("PRE"): b += f" after {kw['PRE']} insertions"
    if not kw.get("MANY"): b += f" over {kw.get('NK', 2)} symbolic keys"
    b += ", new sizes of 11 and capacities of 7 bits" if kw.get("MANY") else f", units of {kw['UNITS']} bits, capacity of {kw['UNITS'] + 2} bits (negative and zero included)" if "UNITS" in kw else ", unit sizes, ample capacity"
    if kw.get("TIMES"): b += ", any time below 2^32 us between operations, limits none, 0 and 1800.25 s"
    if kw.get("MODE"): b += ", age-based from the start"
    if kw.get("OVER") is not None: b += f", a cache that also counts as overfull with more than {kw['OVER']} entries"
    if kw.get("TWIN"): b += ", another cache in use meanwhile"
    if kw.get("KEYREF"): b += ", keys that live in the values"
    if kw.get("DELETER"): b += ", cache with deleter"
    r = dict(harness="C.cc", defs=d, src=[], models=["std", "absl", "clock", "pb"], ub_in_harness=True, reach=reach.split(), bounds=b)
    if time: r["time"] = time
    return r


CACHE_MODELS = ["std", "absl", "clock", "pb"]
LIMIT = dict(harness="C_limit.cc", src=[], ub_in_harness=True, models=CACHE_MODELS, reach=["expired", "kept", "nolimit", "boundary"], bounds="one value; every double as time-out, every pair of clock instants")
AGE1 = dict(harness="C_limit.cc", defs=["AGE"], src=[], ub_in_harness=True, models=CACHE_MODELS, reach=["age"], bounds="one value; every pair of clock instants")

DEL = dict(harness="C_del.cc", src=[], ub_in_harness=True, models=CACHE_MODELS, reach=["plain", "default", "given"], bounds="the plain cache and the one with a deleter, default or given; three values inserted, removed or removed while pinned")


TWINS = dict(C01=("INS INSP TOUCH REL REM UPD MAXS", "found evicted", {}), C02=("INS INSP LOOK REL REM REMALL MAXS", "released_dead", {}),
             C03=("INS INSP LOOK REL REM UPD MAXS", "resized", {}), C04=("INS INSP TOUCH REL MAXS UPD", "evicted", {}),
             C05=("INS INSP LOOK REL EXP AGE", "expired", dict(MODE=1, TIMES=True)), C06=("INS INSP LOOK REL EXP IDLE", "expired", dict(TIMES=True)),
             C07=("INSP LOOK REL REM REMALL REMUNP CLR", "found", {}), C08=("INS LOOK REL NOW AGE", "age", dict(TIMES=True)),
             C09=("INS LOOK LOOKN REL AGE MAXS", "found", {}), C10=("INS INSP REL TOUCH REM", "iterated", dict(SCOPED=True)), C11=("INSP LOOK REL REM UPD", "reported deferred", {}))


MANY = dict(C01=("INS INSP TOUCH REL REM UPD MAXS", "found evicted", {}), C02=("REM REMALL REMUNP MAXS INS UPD CLR", "released_dead evicted", {}),
            C03=("INS INSP LOOK REL REM UPD MAXS REMALL", "evicted resized", {}), C04=("INS INSP TOUCH LOOK REL MAXS UPD", "evicted", {}),
            C05=("AGE,EXP LOOK TOUCH INS", "expired evicted", dict(MODE=1, TIMES=True)), C06=("IDLE,EXP LOOK TOUCH", "expired", dict(TIMES=True)),
            C07=("REM REMALL REMUNP CLR", "found", {}), C08=("REM TOUCH MAXS INS,NOW", "age", {}),
            C09=("LOOKN TOUCHN MAXS,REL MAXS", "found evicted", {}), C10=("INS REM INSP UPD REMALL LOOK", "iterated", dict(SCOPED=True, REVERSE=True)),
            C11=("INS REM REMALL", "reported deferred", {}))


def cache(id, quick, thorough=()):
    ops, reach, kw = MANY[id]
    n = 12 if "TIMES" in kw or id == "C09" else 20
    quick = quick + [C(int(id[1:]), None if "," in ops else 1, ops, reach, PRE=n, NK=n, MANY=True, **kw)]
    ops, reach, kw = TWINS[id]
    quick = quick + [C(int(id[1:]), 3, ops, reach, PRE=1, TWIN=True, **(kw if "TIMES" in kw or id == "C11" else dict(kw, UNITS=4)))]
    check(id, quick, thorough, "longer histories, more keys, other value types, concurrent use (the cache is not thread-safe)", [CLOCK], [])


T = dict(TIMES=True)
cache("C01", [C(1, 4, "INS INSP TOUCH REL REM UPD MAXS", "found evicted", UNITS=16),
              C(1, 5, "INS INSP LOOK REL REM REMALL REMUNP UPD", "found"),
              C(1, 3, "INS INSP TOUCH REL REM EXP IDLE AGE", "found expired", PRE=1, **T),
              C(1, 4, "INS INSP LOOK REL TOUCH REM REMUNP", "found evicted", MODE=1, UNITS=8)],
      [C(1, 6, "INS TOUCH INSP REL REM", "found", time=3000),
       C(1, 5, "INS INSP TOUCH REL REM UPD MAXS", "found evicted", UNITS=16, time=3000),
       C(1, 4, "INS INSP LOOK REL TOUCH REM UPD", "found", NK=3, UNITS=8, time=3000)])
cache("C02", [C(2, 4, "INS INSP LOOK REL REM REMALL MAXS", "found released_dead", UNITS=8),
              C(2, 3, "INS INSP TOUCH REL REM REMUNP CLR", "found released_dead", UNITS=8, DELETER=True),
              C(2, 5, "INS INSP LOOK LOOKN REL REM REMALL REMUNP", "found released_dead"),
              C(2, 3, "INS INSP LOOK LOOKN REL EXP IDLE AGE REM", "found expired", PRE=1, **T),
              C(2, 4, "INS INSP LOOK REL REM UPD", "found released_dead", NK=1, UNITS=8, MODE=1),
              C(2, None, "INSP LOOKN, LOOK LOOKN, REM INS MAXS, REM INS UPD MAXS, REL, REL REM", "found evicted", NK=1, UNITS=8, PRE=1),
              C(2, 4, "INS INSP LOOK REL REM REMALL REMUNP MAXS", "found released_dead evicted", UNITS=8, KEYREF=True),
              C(2, 2, "LOOK REL REM UPD CLR EXP AGE", "released_dead", UNITS=8, PRE=2, KEYREF=True, TIMES=True), DEL],
      [C(2, 6, "INS INSP LOOK REL REM MAXS", "found evicted", NK=1, UNITS=8, time=3000),
       C(2, 6, "INS INSP LOOK LOOKN REL REM REMUNP", "found released_dead", time=3000),
       C(2, 4, "INS INSP LOOK LOOKN REL EXP IDLE AGE REM", "found expired", PRE=1, time=3000, **T)])
cache("C03", [C(3, 3, "INS INSP LOOK REL REM UPD MAXS", "found resized", PRE=1, UNITS=40),
              C(3, None, "INSP, INSP, LOOK REM INS, REM UPD REMALL, UPD, REL UPD", "found resized", UNITS=40),
              C(3, 4, "INS INSP LOOKN REL REM REMALL REMUNP CLR", "found released_dead", MODE=1),
              C(3, 3, "INSP LOOK LOOKN REL EXP IDLE AGE", "found expired", PRE=1, UNITS=8, **T)],
      [C(3, 5, "INSP LOOK REL REM UPD", "found resized", NK=1, UNITS=40, time=3000),
       C(3, 4, "INS INSP LOOK REL REM UPD MAXS", "found resized", PRE=1, UNITS=40, time=3000)])
cache("C04", [C(4, 2, "INS INSP TOUCH LOOK REL MAXS UPD", "evicted", NK=3, PRE=3, UNITS=16),
              C(4, None, "MAXS, INS INSP, INS INSP, UPD TOUCH, MAXS UPD", "evicted", NK=3, UNITS=16),
              C(4, None, "TOUCH LOOK TOUCHN, REL TOUCH, INS INSP, REL, MAXS INS", "evicted", NK=2, PRE=2, UNITS=8),
              C(4, 3, "INS INSP LOOK LOOKN REL REM MAXS", "evicted", NK=2, PRE=2, UNITS=8),
              C(4, 3, "INS INSP TOUCH LOOK REL MAXS", "evicted", NK=3, PRE=2, OVER=2, UNITS=8)],
      [C(4, 3, "INS INSP TOUCH LOOK REL MAXS UPD", "evicted", NK=3, PRE=3, UNITS=16, time=3000),
       C(4, 3, "INS TOUCH MAXS", "evicted", NK=4, PRE=4, UNITS=16, time=3000)])
cache("C05", [C(5, 3, "INS INSP LOOK REL TOUCH EXP AGE", "expired", PRE=1, MODE=1, **T),
              C(5, 2, "INS INSP TOUCH MAXS", "evicted", NK=3, PRE=2, MODE=1, UNITS=16),
              C(5, 4, "INS LOOK REL EXP AGE REM", "expired", PRE=1, MODE=1, **T),
              C(5, 4, "INS INSP LOOK LOOKN REL MAXS", "evicted", PRE=1, MODE=1, UNITS=8),
              C(5, 3, "INS INSP LOOK REL UPD", "evicted", NK=3, PRE=2, OVER=2, MODE=1),
              C(5, None, "AGE, INS INSP, LOOK LOOKN INSP, LOOK TOUCH TOUCHN, EXP AGE, LOOK REL", "expired", MODE=1, **T)],
      [C(5, 4, "INS INSP LOOK REL TOUCH EXP AGE", "expired", PRE=1, MODE=1, time=3000, **T),
       C(5, 3, "INS INSP TOUCH MAXS UPD", "evicted", NK=3, PRE=2, MODE=1, UNITS=16, time=3000)])
cache("C06", [C(6, 3, "INS INSP LOOK REL TOUCH EXP IDLE", "expired", PRE=1, **T),
              C(6, 3, "INS LOOK LOOKN REL TOUCH TOUCHN EXP IDLE", "expired", PRE=2, **T),
              C(6, None, "IDLE, INS, INS LOOKN TOUCHN, LOOKN LOOK REL, EXP LOOK IDLE", "expired", **T),
              C(6, None, "IDLE, INS INSP, REM UPD MAXS LOOK, REL INS, EXP TOUCH", "expired", UNITS=8, **T), LIMIT],
      [C(6, 4, "INS INSP LOOK REL TOUCH EXP IDLE", "expired", PRE=1, time=3000, **T),
       C(6, 4, "INS LOOK LOOKN REL TOUCH TOUCHN EXP IDLE", "expired", PRE=2, time=3000, **T)])
cache("C07", [C(7, 3, "INSP LOOK REL REM REMALL REMUNP CLR", "found", PRE=2),
              C(7, 4, "INSP LOOK LOOKN REL REM REMALL REMUNP CLR IDLE AGE", "found", PRE=2),
              C(7, None, "IDLE AGE, INS LOOKN LOOK, LOOK LOOKN INS REL, REM REMALL REMUNP CLR, EXP LOOK", "found expired", **T),
              C(7, None, "AGE MAXS, INS, INS LOOK, REM REMALL REMUNP CLR, INS, INS TOUCH", "found evicted", UNITS=8)],
      [C(7, 3, "INSP LOOK REL REM REMALL REMUNP CLR AGE IDLE", "found", PRE=2, time=3000, **T),
       C(7, 4, "INSP LOOK LOOKN REL REM REMALL REMUNP CLR", "found", NK=3, PRE=3, time=3000)])
cache("C08", [C(8, 3, "INS LOOK REL TOUCH NOW AGE IDLE EXP", "age", PRE=1, **T),
              C(8, 4, "INS INSP LOOK LOOKN REL TOUCHN NOW REM", "age", **T), AGE1, LIMIT,
              C(8, None, "INS INSP, INS INSP LOOKN, MAXS UPD LOOK, NOW, REL MAXS, NOW", "age", UNITS=8, **T),
              C(8, None, "INS INSP, INS INSP LOOKN, MAXS UPD LOOK, NOW, REL MAXS, NOW", "age", MODE=1, UNITS=8, **T)],
      [C(8, 4, "INS LOOK LOOKN REL TOUCH NOW AGE IDLE EXP", "age", PRE=1, time=3000, **T)])
cache("C09", [C(9, 3, "INS LOOK LOOKN REL EXP IDLE AGE MAXS", "expired", PRE=1, STRICT=True, UNITS=8, **T),
              C(9, None, "LOOKN LOOK, LOOKN LOOK, REL INS, REL INS, REL INS, REL MAXS, MAXS LOOK", "found evicted", PRE=1, STRICT=True, UNITS=8, **T),
              C(9, 4, "INS LOOK LOOKN REL IDLE AGE REM REMUNP", "found", PRE=1)],
      [C(9, 4, "INS LOOK LOOKN REL EXP IDLE AGE MAXS", "expired", PRE=1, STRICT=True, UNITS=8, time=3000, **T),
       C(9, 5, "INS LOOK LOOKN REL IDLE AGE REM REMUNP", "found", PRE=1, time=3000)])
cache("C10", [C(10, 5, "INS INSP REL TOUCH REM", "iterated scoped", SCOPED=True, REVERSE=True),
              C(10, 4, "INS INSP LOOKN REL TOUCH TOUCHN REM REMALL UPD", "iterated scoped", NK=3, SCOPED=True),
              C(10, None, "INSP, INSP, INSP REM, INSP REM, REL REM INS, REL", "iterated", REVERSE=True),
              C(10, 3, "INS INSP REL TOUCH TOUCHN EXP AGE IDLE", "iterated scoped", PRE=1, SCOPED=True, **T)],
      [C(10, 6, "INS INSP REL TOUCH REM", "iterated scoped", SCOPED=True, REVERSE=True, time=3000)])
cache("C11", [C(11, 3, "INS INSP LOOK LOOKN REL REM REMALL UPD MAXS", "reported deferred", UNITS=3),
              C(11, 5, "INSP LOOK REL REM REMALL", "reported deferred"),
              C(11, 4, "INS INSP LOOK REL REM", "reported deferred", MODE=1, NK=3, REVERSE=True)],
      [C(11, 4, "INS INSP LOOK LOOKN REL REM REMALL UPD MAXS", "reported deferred", UNITS=3, time=3000)])
HOST = "tokens of every alg, good or with sections missing, undecodable, not JSON or of any kind, verified against a key of every type by every entry point"
check("R01", [
    R("R01.cc", "", "parsed unparsed rejected", HOST),
    R("V07.cc", "NC=1 NT=1 LEN=2 FORMS ONLY_CRASH", "allowed refused", "audience checks: 10 scheme prefixes x 0-2 symbolic bytes x 0-2 slashes on both sides", src=["check_audience.cc"]),
    R("R01.cc", "FAULTS", "parsed unparsed rejected", "the same while any subset of the library calls made fails")] +
    [R("K_entry.cc", t + "_ FAULTS ONLY_CRASH", "refused", t + " key entries of every shape (bounds as K02-K04) while any subset of the library calls made fails") for t in ("RSA", "EC", "OKP", "OCT")],
    outside="longer texts; protobuf, BoringSSL and abseil themselves; memory exhaustion; every other check also rejects crashes on the inputs it covers", assume=[CRYPTO, PB, ABSL, CLOCK], files=["src/jwt.cc", "src/jwks.cc", "src/verify.cc", "src/struct_utils.cc", "src/check_audience.cc"])
NOT_APPLICABLE = {}
