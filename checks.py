from vplib import H
G89 = "dstulib/gost/gost89.c"
CHECKS = {}
NOT_APPLICABLE = {
 "C19": "not reached: the Key-6 parser sits on libcrypto's template-driven DER decoder and on 10000 rounds of hashing; the container model it needs was not finished within the session, and no other technique was substituted (its one defect found by reading is repaired, see KNOWN_FINDINGS.txt)",
 "C26": "not reached: the attribute walk needs models of libcrypto's X509_ATTRIBUTE, ASN1_TYPE and DER decoding of curve attributes that were not finished within the session, and no other technique was substituted (its two defects found by reading are repaired, see KNOWN_FINDINGS.txt)"}
def check(pid, **kw): CHECKS[pid] = kw

check("C01", entry=["gost_init", "gostcrypt", "gostdecrypt", "gost_enc", "gost_dec", "gost_key", "gost_key_nomask", "gost_get_key", "magma_key", "gost_enc_with_key", "gost_destroy"],
  outside="ECB over more than 4 blocks in one call.",
  assumptions=["S-box entries are 4-bit values (the packed format cannot express others)",
               "decomposition: C01 parts 1 (tables implement the substitution for every S-box and word) and 2/3 (32 rounds over arbitrary tables) compose by substitution of equals"],
  harnesses=[
    H("tables", "c01.c", [G89], defs=["PART=1"], unwind=300, solvers=["z3", "cadical"], bounds="all S-boxes, all 32-bit words"),
    H("encrypt", "c01.c", [G89], defs=["PART=2"], solvers=["z3", "cadical"], bounds="all tables, keys, masks, blocks; 32 rounds"),
    H("decrypt", "c01.c", [G89], defs=["PART=3"], solvers=["z3", "cadical"], bounds="all tables, keys, masks, blocks; 32 rounds"),
    H("inverse", "c01.c", [G89], defs=["PART=4"], solvers=["z3", "cvc5"], bounds="all tables, keys, masks, blocks"),
    H("keys", "c01.c", [G89], defs=["PART=5"], solvers=["z3", "cadical"], bounds="all keys, masks, RNG success or failure"),
    H("ecb", "c01.c", [G89], models=["gost_uf.c"], remove={G89: ["gostcrypt", "gostdecrypt"]}, defs=["PART=6", "UF_NOSBOX"], solvers=["minisat", "cadical"], bounds="0..4 blocks, in place or not, block cipher uninterpreted"),
  ])

CIPHER = ["engine/cipher.c", G89, "dstulib/params.c"]
UFX = {G89: ["gostcrypt", "gostdecrypt"]}
UFA = {G89: ["gostcrypt", "gostdecrypt", "kboxinit"], "dstulib/params.c": ["dstu_get_sbox"]}
CM = ["gost_uf.c", "evp_cipher.c", "asn1_basic.c", "ossl_core.c"]
FS = []
def c02(name, l, mx, extra=(), **kw):
    return H(name, "c02.c", CIPHER, models=CM, remove=UFX, unwind=mx + 9,
             unwindset=[("kboxinit.0", 257)], opts=FS,
             defs=["UF_NOSBOX", "MAXLEN=%d" % mx] + ["L%d=%d" % (i, x) for i, x in enumerate(l)] + list(extra), **kw)
def chains(ns, k=4):
    """chunk-length sequences from position 0 whose steps cover every (position mod 8, length)"""
    todo = {(p, n) for p in range(8) for n in ns}
    out = []
    while todo:
        pos, seq = 0, []
        while len(seq) < k:
            cand = sorted((n for n in ns if (pos, n) in todo), reverse=len(out) % 2 == 0)
            if not cand:
                # steer to a position that still has work
                want = [p for p in range(8) if any((p, n) in todo for n in ns)]
                if not want or len(seq) == k - 1: break
                n = ((want[0] - pos) % 8) or 8
            else: n = cand[0]
            todo.discard((pos, n)); seq.append(n); pos = (pos + n) % 8
        out.append(tuple(seq + [0] * (k - len(seq))))
    return out
C02Q = chains([1, 3, 7, 8, 9, 16, 17])
C02T = [l for l in chains(list(range(1, 18)) + [23, 24, 25]) if l not in C02Q]
check("C02", entry=["dstu_cipher_init", "dstu_cipher_do_cipher", "gost_enc_cfb", "gost_dec_cfb"],
  outside="Single chunks longer than 25 bytes except the listed 72 (quick) and 136 (thorough) byte ones; zero-length updates; partially overlapping buffers (libcrypto's callers do not use them).",
  assumptions=["block cipher uninterpreted (its definition is C01's subject)", "EVP layer as in model/evp_cipher.c (libcrypto 3.0 legacy-method path)"],
  harnesses=[c02("%s_%s" % ("ed"[1 - e], "_".join(map(str, l))), l, sum(l), ["ENC=%d" % e] + (["WITH_COPY"] if i % 5 == 0 else []),
                 solvers=["minisat"], tier=t, timeout=400,
                 bounds="chunks %s, %s, in place or separate%s" % (list(l), "encrypt" if e else "decrypt", ", context copied after the first chunk" if i % 5 == 0 else ""))
             for t, ls in (("quick", C02Q + [(3, 72, 5, 0)]), ("thorough", C02T + [(3, 136, 5, 0), (0, 128, 1, 0)]))
             for i, l in enumerate(ls) for e in (0, 1)])

UWS = [("kboxinit.0", 257), ("dstu_get_sbox.0", 257)]
def c03(o, i, tier="quick"):
    abs = "B" in o
    return H(o, "c03.c", CIPHER, models=CM, remove=UFA if abs else UFX, unwind=66, unwindset=[] if abs else UWS,
             defs=['OPS="%s"' % o, "ENC=%d" % (i % 2)] + (["UF_ABS"] if abs else []), memsafe=False,
             solvers=["cadical"], timeout=300, tier=tier, bounds="operation sequence %s (%s)" % (o, "encrypt" if i % 2 else "decrypt"))
C03Q = "CUFX CUKX CUVX CUNX CUSX CUBX cKVX cVKX cFX CSUVX CSUKX CSUFX CSUNX CSUSX CSUCX cVKSX cKSVX cIKX CUBSX CWSX".split()
C03T = [a + b for a in ("CUF", "CUK", "CUV", "CUN", "CUS", "CUB", "CUI") for b in ("UFX", "UKX", "UVX", "UNX", "USX", "UBX", "UIX", "KVX", "VKX")]
check("C03", entry=["dstu_cipher_init", "dstu_cipher_ctrl", "dstu_cipher_do_cipher"],
  outside="Operation sequences not listed (quick: 20 sequences; thorough: all two-operation histories after a bind with data in between); EVP_CIPHER_CTX_copy (C02).",
  assumptions=["block cipher uninterpreted in key, S-box and block (its definition is C01's subject)", "EVP layer as in model/evp_cipher.c"],
  harnesses=[c03(o, i) for i, o in enumerate(C03Q)] + [c03(o, i, "thorough") for i, o in enumerate(C03T)])
def c04(name, *defs, **kw):
    abs = "UF_ABS" in defs
    return H(name, "c04.c", CIPHER, models=CM, remove=UFA if abs else UFX, unwind=98, unwindset=[] if abs else UWS, defs=list(defs), solvers=["cadical"], timeout=300, **kw)
check("C04", entry=["dstu_cipher_set_asn1_parameters", "dstu_cipher_get_asn1_parameters", "dstu_cipher_ctrl", "dstu_get_sbox", "pack_sbox"],
  outside="Parameter sequences longer than 96 bytes; the outer DER header, which libcrypto's decoder fixes.",
  assumptions=["block cipher uninterpreted", "EVP layer as in model/evp_cipher.c"],
  harnesses=[c04("export_default", "PART=1", bounds="all keys, IVs, data"),
             c04("export_custom", "PART=1", "CUSTOM", bounds="all keys, IVs, S-boxes, data"),
             c04("import_used", "PART=2", "UF_ABS", bounds="all IVs and S-boxes into a used context"),
             c04("prf", "PART=4", bounds="all control commands and lengths")] +
            [c04("malformed_%d" % n, "PART=3", "UF_ABS", "LEN=%d" % n, bounds="all sequences of %d bytes, all types" % n) for n in (2, 12, 77, 78, 79, 96)])
GH = "dstulib/gost/gosthash.c"
def c05(name, *defs, **kw):
    defs = ["UF_NOSBOX"] + list(defs)
    return H(name, "c05.c", [GH, G89, "dstulib/params.c"], models=["gost_uf.c", "ossl_core.c"], remove=UFX, unwind=80, unwindset=[("finish_hash.*", 10)], defs=defs, **kw)
check("C05", entry=["hash_block", "finish_hash", "hash_step"],
  outside="Messages of 2^57 bytes and more; one step or one finalisation at a time, from every intermediate state (induction over blocks is by the shape of hash_block's loop, C06 decides the chunking).",
  assumptions=["block cipher uninterpreted in key, block (and S-box in step_sbox)", "memory safety of the same code is decided in C06"],
  harnesses=[c05("step", "PART=1", bounds="all states, blocks", memsafe=False, solvers=["cadical"]),
             c05("start", "PART=4", bounds="start_hash on any used state, init_gost_hash_ctx", memsafe=False, solvers=["cadical"])] +
            [c05("buf%d" % n, "PART=2", "LEFT=%d" % n, bounds="block completed by %d buffered bytes" % n, memsafe=False, solvers=["cadical"], tier="quick" if n in (1, 5, 17, 31) else "thorough") for n in range(1, 32)] +
            [c05("final%d" % n, "PART=3", "LEFT=%d" % n, bounds="finalisation with %d buffered bytes, all states and lengths" % n, memsafe=False, solvers=["cadical"], timeout=600, tier="quick" if n in (0, 13, 31) else "thorough") for n in range(32)])
def c06a(p, a, b, tier):
    return H("chunk_%d_%d_%d" % (p, a, b), "c06a.c", [GH, G89, "dstulib/params.c"], models=["gost_uf.c", "ossl_core.c", "bytes.c"], remove=UFX, unwind=max(80, a + b + 8),
             memsafe=p + a + b < 32, timeout=800, defs=["UF_NOSBOX", "P=%d" % p, "N1=%d" % a, "N2=%d" % b], solvers=["cadical"], tier=tier, bounds="%d bytes buffered, then %d + %d bytes" % (p, a, b))
C06Q = [(0,0,5),(0,5,0),(5,0,7),(0,1,31),(0,31,1),(0,32,1),(0,33,31),(5,27,5),(5,26,1),(5,27,32),(31,1,1),(1,30,33),(17,15,17),(0,40,24),(16,16,0),(9,0,0)]
C06T = [(31,2,64),(5,28,40),(0,64,64),(3,96,32),(0,128,128),(0,64,32),(7,25,64),(0,96,1),(31,64,1),(1,63,1)]
C06T += [(p, a, b) for p in range(0, 32, 3) for a in (1, 31 - p % 7, 32, 33) for b in (1, 31, 32) if (p, a, b) not in C06Q]
ALLSRC = ["engine/%s.c" % f for f in "ameth cipher md pmeth rbg sign err".split()] + ["dstulib/%s.c" % f for f in "asn1 compress key params gost/gost89 gost/gosthash".split()]
def dig(o, key=0, tier="quick", uf=True):
    return H("ctx_%s%s" % (o, "_key%d" % key if key else ""), "c07.c", ["engine/md.c", G89, "dstulib/params.c"], models=["hash_uf.c", "gost_uf.c", "evp_md.c", "evp_pkey.c", "asn1_basic.c", "ossl_core.c"],
             remove=UFA, unwind=66, defs=["UF_ABS", 'OPS="%s"' % o] + (["KEY=%d" % key] if key else []), memsafe=False, solvers=["cadical"], timeout=300, tier=tier,
             native_repo=ALLSRC, bounds="operation sequence %s%s" % (o, ["", ", DSTU LE key with S-box", ", DSTU BE key without S-box", ", DSTU BE key with S-box", ", key of another type"][key]))
check("C06", entry=["hash_block", "dstu_md_init", "dstu_md_update", "dstu_md_final", "dstu_md_copy", "dstu_md_cleanup"],
  outside="Single updates longer than 40 bytes (thorough: 192), operation sequences not listed.",
  assumptions=["block cipher uninterpreted in the chunk_* harnesses; digest uninterpreted in S-box and message in the ctx_* harnesses (its definition is C05's subject)", "EVP layer as in model/evp_md.c (libcrypto 3.0 legacy-method path)"],
  harnesses=[c06a(*x, tier="quick") for x in C06Q] + [c06a(*x, tier="thorough") for x in C06T] +
            [dig(o) for o in "IUEUF IUCUuFf IUCufUF ISUCuFf IUiuCFf IUCsuFf IUFINUF IUSNUF ISUFNUF IUCZuf".split()])
def c07p(n, part, **kw):
    return H(n, "c07p.c", [G89, "dstulib/params.c"], models=["ossl_core.c"], defs=["PART=%d" % part], unwind=66, unwindset=[("kboxinit.*", 257), ("dstu_get_sbox.*", 257)], solvers=["cadical"], native=["-lcrypto"], **kw)
check("C07", entry=["pack_sbox", "unpack_sbox", "dstu_get_sbox", "is_default_sbox", "copy_sbox", "dstu_md_init", "dstu_md_ctrl"],
  outside="Operation sequences not listed; digest contexts shared between keys through EVP_PKEY_CTX re-binding.",
  assumptions=["digest uninterpreted in S-box and message (its definition is C05's subject)", "EVP layer as in model/evp_md.c and model/evp_pkey.c (libcrypto 3.0 legacy-method path)"],
  harnesses=[c07p("unpack_pack", 1, bounds="all packed S-boxes"), c07p("pack_unpack", 2, bounds="all S-boxes"), c07p("readback", 3, bounds="all S-boxes"), c07p("default", 4, bounds="all packed S-boxes")] +
            [dig(o, k) for o in ("KIUF", "KISUF") for k in (1, 2, 3, 4)] + [dig("KIUSNUF", 1), dig("KIUXUF", 3), dig("IUXUF"), dig("ISUF"), dig("IUSUF"), dig("ISSUF"), dig("KIUCuF", 1, "thorough"), dig("KIUCufF", 3)])

check("C24", entry=["mac_block", "get_mac", "gost_mac", "gost_mac_iv"],
  outside="Data longer than 40 bytes; MAC lengths outside 1..64 bits.",
  assumptions=["PART 1 (one block) and PART 2 (composition over an uninterpreted block function) compose by substitution of equals"],
  harnesses=[H("block", "c24.c", [G89], defs=["PART=1"], solvers=["z3", "cadical"], bounds="all tables, keys, masks, states, blocks")] +
    [H("len%d" % n, "c24.c", [G89], remove={G89: ["mac_block"]}, defs=["PART=2", "LEN=%d" % n], solvers=["cadical"], unwind=42,
       tier="quick" if n < 26 else "thorough", bounds="%d bytes, every bit length 1..64, zero or arbitrary start vector" % n) for n in list(range(0, 26)) + [32, 33, 40]])

EC = ["engine/sign.c", "engine/pmeth.c", "engine/ameth.c", "dstulib/key.c", "dstulib/params.c", "dstulib/compress.c"]
ECM = ["bn_ec.c", "toy_native.c", "evp_pkey.c", "asn1_basic.c", "asn1_oct.c", "ossl_core.c"]
EL = EC + ["engine/err.c", "dstulib/asn1.c"]
def c08(name, toy, tlen, extra=(), **kw):
    kw.setdefault("solvers", ["minisat" if toy in (0, 3) else "cadical"])
    return H(name, "c08.c", EC, models=ECM, defs=["TOY=%d" % toy, "TLEN=%d" % tlen] + list(extra), unwind=34,
             unwindset=[("EC_POINT_set_affine_coordinates.0", 600), ("bn_truncate_bits.*", 9)], loopcalls=[("BN_rand_range", int([x for x in extra if x.startswith("K=")][0][2:]) + ("GOOD" not in extra))], native_models=["toy_native.c"], native_repo=EL, opts=["--slice-formula"], memsafe="EQ" in extra or "SMALL=5" in extra, **kw)
TOYS = ["m=5 a=1 n=13", "m=9 a=0 n=131 (order one byte shorter than the field)", "m=9 a=1 n=263", "m=5 pentanomial a=0 n=7", "m=7 a=1 n=59"]
def c08v(toy, be, tlen, k, extra=(), tier="quick", **kw):
    nm = "t%d_%s_h%d_k%d%s" % (toy, "be" if be else "le", tlen, k, "".join("_" + x.replace("=", "").lower() for x in extra))
    return c08(nm, toy, tlen, (["BE"] if be else []) + ["K=%d" % k] + list(extra), tier=tier,
               bounds="curve %s, %d digest bytes, %d nonces, all keys, digests, nonces%s" % (TOYS[toy], tlen, k, " " + " ".join(extra) if extra else ""),
               replay="model" if "FAULT" in extra else "openssl", **kw)
check("C08", entry=["dstu_do_sign", "dstu_pkey_sign", "hash_to_field", "field_to_bn", "bn_encode"],
  outside="Curves other than the listed toy curves; digests longer than 4 bytes; more than 3 consecutive unusable nonces; allocation failures.",
  assumptions=["big-number and curve arithmetic of libcrypto as in model/bn_ec.c (tables checked against libcrypto by the self-test tools/selftest.py)", "the generator returns numbers below the order"],
  harnesses=[c08v(0, 0, 1, 1, ["EQ", "GOOD"]), c08v(3, 1, 1, 1, ["EQ", "GOOD"]), c08v(0, 1, 1, 1), c08v(0, 1, 2, 2, ["GOOD"]), c08v(3, 0, 2, 2, ["GOOD"]),
             c08v(1, 0, 2, 1, ["GOOD"]), c08v(2, 1, 1, 1, ["GOOD"]), c08v(2, 0, 3, 1, ["GOOD"]), c08v(4, 1, 2, 1, ["GOOD"]), c08v(4, 0, 4, 1, ["GOOD"]),
             c08v(0, 0, 1, 1, ["SMALL=1"]), c08v(2, 1, 2, 1, ["SMALL=5"]), c08v(4, 0, 1, 1, ["GOOD", "SLACK=3"]),
             c08v(3, 0, 1, 1, ["GOOD", "FAULT"]), c08v(2, 1, 1, 1, ["GOOD", "FAULT"])] +
            [c08v(t, b, l, k, tier="thorough", timeout=5000) for t in (0, 3) for b in (0, 1) for l, k in ((1, 2), (3, 2))] +
            [c08v(t, b, l, k, ["GOOD"], tier="thorough", timeout=5000) for t in range(5) for b in (0, 1) for l, k in ((2, 1), (3, 1), (1, 2), (2, 2), (4, 1), (2, 3))])

def c09(toy, be, slen, tlen=1, extra=(), tier="quick", **kw):
    nm = "t%d_%s_s%d_h%d%s" % (toy, "be" if be else "le", slen, tlen, "".join("_" + x.replace("=", "").lower() for x in extra))
    kw.setdefault("solvers", ["minisat" if toy in (0, 3) else "cadical"])
    return H(nm, "c09.c", EC, models=ECM, defs=["TOY=%d" % toy, "TLEN=%d" % tlen, "SLEN=%d" % slen] + (["BE"] if be else []) + list(extra), unwind=34,
             unwindset=[("EC_POINT_set_affine_coordinates.0", 600), ("bn_truncate_bits.*", 9)], loopcalls=[("BN_rand_range", 2)], native_models=["toy_native.c", "d2i_flag.c"], native_repo=EL,
             opts=["--slice-formula"], memsafe=kw.pop("memsafe", False), replay="model" if "FAULT" in extra else "openssl", tier=tier,
             bounds="curve %s, every public point of the curve, %d digest bytes, signatures of %d bytes %s%s" % (TOYS[toy], tlen, slen, "in an octet string" if "DER" in extra else "raw", " " + " ".join(extra) if extra else ""), **kw)
check("C09", entry=["dstu_do_verify", "dstu_pkey_verify", "hash_to_field", "field_to_bn"],
  outside="Curves other than the listed toy curves; signatures longer than 8 bytes; BER constructed octet strings (first byte 0x24); non-minimal DER lengths.",
  assumptions=["big-number and curve arithmetic of libcrypto as in model/bn_ec.c", "raw (not DER) signatures of even length are also read, as the code documents"],
  harnesses=[c09(0, b, n, 1, ["DER"]) for b, n in ((0, 2), (1, 2), (1, 3), (0, 4), (1, 0), (0, 1))] +
            [c09(0, b, n, 1, [], memsafe=n != 2) for b, n in ((0, 2), (1, 2), (0, 1), (0, 0), (1, 4), (0, 3))] +
            [c09(2, 0, 4, 1, ["DER"]), c09(1, 1, 2, 2, ["DER"]), c09(2, 1, 6, 1, ["DER"]), c09(2, 0, 3, 1, ["DER"]), c09(3, 0, 2, 2, ["DER", "TRAIL=2"]), c09(4, 1, 2, 1, ["DER"]), c09(4, 0, 4, 3, ["DER"]),
             c09(0, 0, 2, 1, ["DER", "NOPUB"]), c09(3, 0, 2, 1, ["DER", "FAULT"]), c09(4, 1, 2, 1, ["DER", "FAULT"])] +
            [c09(t, b, n, l, ["DER"], tier="thorough", timeout=5000) for t in range(5) for b in (0, 1) for n in (2, 4, 6, 8) for l in (1, 2, 3) if (t, b, n, l) not in ((0, 0, 2, 1), (0, 1, 2, 1), (2, 0, 4, 1), (1, 1, 2, 2), (2, 1, 6, 1), (4, 1, 2, 1), (4, 0, 4, 3), (0, 0, 4, 1))] +
            [c09(t, b, n, 2, [], tier="thorough", timeout=5000) for t in range(5) for b in (0, 1) for n in (2, 4, 5, 6)] +
            [c09(t, b, n, 2, ["DER", "FAULT"], tier="thorough", timeout=5000) for t in (0, 2, 4) for b in (0, 1) for n in (2, 4)])

def c10(toy, part, extra=(), tier="quick", **kw):
    nm = "t%d_%s%s" % (toy, {1: "compress", 2: "expand"}[part], "".join("_" + x.replace("=", "").lower() for x in extra))
    return H(nm, "c10.c", ["dstulib/compress.c", "dstulib/params.c"], models=["bn_ec.c", "toy_native.c", "ossl_core.c"], defs=["TOY=%d" % toy, "PART=%d" % part] + list(extra), unwind=34,
             unwindset=[("EC_POINT_set_affine_coordinates.0", 600)], native_models=["toy_native.c"], solvers=["minisat" if toy in (0, 3) else "cadical"],
             opts=["--slice-formula"], replay="model" if "FAULT" in extra else "openssl", tier=tier,
             bounds="curve %s, %s %s" % (TOYS[toy], "every point" if part == 1 else "every string", " ".join(extra)), **kw)
C10E = {0: "LEN=1", 1: "LEN=2", 2: "LEN=2", 3: "LEN=1", 4: "LEN=1"}
check("C10", entry=["dstu_point_compress", "dstu_point_expand", "bn_trace", "bn_encode"],
  outside="Curves other than the listed toy curves; strings longer than 4 bytes; the point at infinity.",
  assumptions=["big-number and field arithmetic of libcrypto as in model/bn_ec.c", "the solution of the quadratic equation is the half-trace (odd field degree, as in all DSTU curves)"],
  harnesses=[c10(t, 1) for t in range(5)] + [c10(t, 1, ["ANYPOINT"]) for t in (0, 2, 3)] + [c10(t, 2, [C10E[t], "CANON"]) for t in range(5)] + [c10(t, 2, [C10E[t]]) for t in range(5)] +
            [c10(1, 2, ["LEN=1"]), c10(2, 2, ["LEN=3"]), c10(0, 2, ["LEN=0"]), c10(0, 2, ["LEN=4"]), c10(4, 1, ["EXTRA=2"]), c10(2, 1, ["EXTRA=1"]),
             c10(0, 1, ["FAULT"]), c10(0, 2, ["LEN=1", "FAULT"])])

def c23(name, part, curve, extra=(), **kw):
    return H(name, "c23.c", ["dstulib/params.c"], models=["bn_wide.c", "ossl_core.c"], defs=["PART=%d" % part, "CURVE=%d" % curve] + list(extra), unwind=514, memsafe=False,
             opts=["--max-field-sensitivity-array-size", "128"], native_repo=["dstulib/params.c", G89], replay="openssl", **kw)
check("C23", entry=["group_from_nid", "group_from_named_curve", "curve_nid_from_group"],
  outside="Curves that differ from a standard one in b or the field polynomial only are compared by libcrypto's EC_GROUP_cmp (trusted); one representative per kind.",
  assumptions=["EC_GROUP objects of libcrypto as in model/bn_wide.c", "spec/curves.h is the standard's table (checked mathematically when it was generated)"],
  harnesses=[c23("curve%d" % i, 1, i, bounds="curve %d" % i) for i in range(10)] + [c23("recognise%d" % i, 2, i, bounds="curve %d, any order, either base point" % i) for i in range(10)] +
            [c23("other_id", 3, 0, bounds="all other identifiers")] + [c23("other_degree%d" % i, 4, i, tier="quick" if i in (0, 1, 4, 6) else "thorough", bounds="one curve of another kind") for i in range(9)] +
            [c23("fault%d" % i, 1, i, ["FAULT"], bounds="every single failing step, curve %d" % i) for i in (1, 6)] + [c23("recognise_fault%d" % i, 2, i, ["FAULT"], bounds="every single failing step, curve %d" % i) for i in (2, 8)])

def c14(toy, be=0, extra=(), tier="quick", **kw):
    nm = "t%d_%s%s" % (toy, "be" if be else "le", "".join("_" + x.replace("=", "").lower() for x in extra))
    k = int(([x for x in extra if x.startswith("K=")] or ["K=2"])[0][2:])
    return H(nm, "c14.c", EC, models=ECM, defs=["TOY=%d" % toy] + (["BE"] if be else []) + list(extra), unwind=66, loopcalls=[("BN_rand_range", k + 1)],
             unwindset=[("EC_POINT_set_affine_coordinates.0", 600)], native_models=["toy_native.c"], native_repo=EL, solvers=["cadical"], opts=["--slice-formula"],
             memsafe=True, replay="model" if "FAULT" in extra else "openssl", tier=tier, bounds="curve %s, %d draws %s" % (TOYS[toy], k, " ".join(extra)), **kw)
check("C14", entry=["dstu_generate_key", "dstu_add_public_key", "dstu_pkey_keygen", "DSTU_KEY_new", "DSTU_KEY_set", "DSTU_KEY_CTX_copy"],
  outside="Arithmetic on curves other than the toy ones; more than 3 draws; allocation failures.",
  assumptions=["big-number and curve arithmetic of libcrypto as in model/bn_ec.c", "the generator returns numbers below the order"],
  harnesses=[c14(t, b, e) for t, b, e in ((0, 0, []), (2, 1, ["SETBOX"]), (1, 0, ["K=3", "SETBOX", "TWICE"]), (3, 1, ["SETBOX", "VIA_COPY", "KEEP"]), (4, 0, ["VIA_COPY"]),
             (0, 1, ["FAULT", "SETBOX"]), (4, 0, ["FAULT", "VIA_COPY"]), (2, 0, ["ADDPUB"]), (3, 0, ["ADDPUB", "FAULT"]))])

def c27(name, part, extra=(), be=0, **kw):
    return H(name, "c27.c", ["engine/pmeth.c", "engine/ameth.c", "engine/sign.c", "dstulib/key.c", "dstulib/params.c"], models=["bn_wide.c", "evp_pkey.c", "evp_md.c", "ossl_core.c"],
             defs=["PART=%d" % part] + (["BE"] if be else []) + list(extra), unwind=514, loopcalls=[("BN_rand_range", 2)], memsafe=False,
             opts=["--max-field-sensitivity-array-size", "160", "--slice-formula"], native_repo=EL + [G89], replay="openssl", **kw)
check("C27", entry=["dstu_pkey_ctrl", "dstu_pkey_ctrl_str", "dstu_pkey_copy", "DSTU_KEY_CTX_set", "DSTU_KEY_CTX_copy", "dstu_pkey_keygen"],
  outside="Curve names other than the listed ones; S-box strings of lengths other than the listed ones; the all-zero table given as digits (refused).",
  assumptions=["big numbers of libcrypto as in model/bn_wide.c; scalar multiplication is a free term", "EVP layer as in model/evp_pkey.c"],
  harnesses=[c27("default", 3, [], bounds="any unknown binary control, default curve")] +
            [c27("curve_%s" % (n or "empty"), 1, ['NAME="%s"' % n] + e, be=i % 2, bounds="curve name %r" % n) for i, (n, e) in enumerate([("uacurve0", []), ("uacurve9", ["BEFORE"]), ("uacurve6", ["BEFORE", 'OTHERSET="Curve"']), ("rsaEncryption", ["BEFORE"]), ("nosuch", []), ("", ["BEFORE", 'OTHERSET=""']), ("uacurve", ["BEFORE", 'OTHERSET="sboxes"'])])] +
            [c27("sbox_str%d%s%s" % (n, "_%d" % bits if bits else "", "b" if "BEFORE" in e else ""), 2, ["LEN=%d" % n] + (["BITS=%d" % bits] if bits else []) + e, be=1, tier=t, bounds="any string of %d characters%s %s" % (n, " spelling a number of %d bits" % bits if bits else "", " ".join(e)), timeout=800)
             for n, bits, e, t in [(128, 512, ["DIGITS"], "quick"), (128, 504, ["DIGITS", "BEFORE"], "quick"), (128, 493, ["DIGITS"], "thorough"), (128, 5, ["DIGITS"], "quick"), (127, 508, ["DIGITS"], "thorough"), (130, 512, ["HEADDIGITS", "BEFORE"], "quick"), (129, 512, ["HEADDIGITS"], "thorough"), (0, 0, ["BEFORE"], "quick"), (3, 0, [], "thorough"), (128, 0, [], "thorough"), (128, 0, ["BEFORE"], "thorough"), (126, 0, [], "thorough"), (130, 0, ["BEFORE"], "thorough")]
                + [(128, i, ["DIGITS"], "thorough") for i in range(1, 512, 37)]] +
            [c27("sbox_ctrl", 3, ["TYPE=DSTU_SET_CUSTOM_SBOX"], bounds="any length, any table"), c27("sbox_ctrl_before", 3, ["TYPE=DSTU_SET_CUSTOM_SBOX", "BEFORE"], be=1, bounds="any length, any table, others set before"),
             c27("unknown_ctrl", 3, ["BEFORE"], bounds="any unknown binary control"), c27("digest", 4, ["BEFORE"], bounds="any digest identifier")] +
            [c14(2, 1, ["SETBOX", "TWICE", "VIA_COPY", "KEEP"]), c14(0, 0, ["TWICE", "VIA_COPY"])])
CHECKS["C14"]["harnesses"] += [c27("default_curve", 3, [], bounds="no curve chosen: the 257-bit one"), c27("default_curve_be", 4, [], be=1, bounds="no curve chosen: the 257-bit one")]

def c21(s, inner=0, **kw):
    k, c = s.split("/")
    return H("s" + s.replace("/", "_") + ("_inner" if inner else ""), "c21.c", ["keylib/keystore.c"], models=["ossl_core.c"], defs=["K%d=%s" % (i + 1, k[i]) for i in range(3)] + ["C%d=%s" % (i + 1, c[i]) for i in range(3)] + (["INNER"] if inner else []),
             unwind=40, memsafe=True, replay="both", bounds="three stores with %s keys and %s certificates, any of them left empty; any index" % (",".join(k), ",".join(c)), **kw)
check("C21", entry=["KeyStoreNew", "KeyStoreAppend", "KeyStoreFree", "KeyStoreSetKey", "KeyStoreSetCert", "KeyStoreGetKey", "KeyStoreGetCert", "KeyStoreKeyNum", "KeyStoreCertNum"],
  outside="Stores of more than 5 entries of a kind; setting an index outside the store (a precondition); allocation failures.",
  assumptions=["libcrypto's memory functions as in model/ossl_core.c"],
  harnesses=[c21(s, i) for i in (0, 1) for s in ("000/000", "111/111", "202/030", "013/310", "320/203", "040/004", "111/000", "000/121", "123/321")] + [c21("555/555", i, tier="thorough") for i in (0, 1)])

def c22(name, part, extra=(), **kw):
    return H(name, "c22.c", ["engine/dstu.c", "engine/md.c", "engine/cipher.c", "engine/pmeth.c", "engine/ameth.c", "engine/rbg.c"], models=["engine.c", "evp_md.c", "evp_cipher.c", "evp_pkey.c", "ossl_core.c"],
             defs=["PART=%d" % part] + list(extra), unwind=12, memsafe=True, replay="model" if part == 3 else "both",
             native_repo=["engine/dstu.c", "engine/md.c", "engine/cipher.c", "engine/pmeth.c", "engine/ameth.c", "engine/rbg.c", "engine/sign.c", "engine/err.c", "dstulib/key.c", "dstulib/params.c", "dstulib/asn1.c", "dstulib/compress.c", "dstulib/gost/gost89.c", "dstulib/gost/gosthash.c"], **kw)
check("C22", entry=["bind_engine", "dstu_bind", "dstu_engine_init", "dstu_engine_finish", "dstu_digests", "dstu_ciphers", "dstu_pkey_meths", "dstu_asn1_meths"],
  outside="Longer operation sequences; more than one engine object at a time; allocation failures; the loader of libcrypto.",
  assumptions=["ENGINE objects, reference counts and method tables of libcrypto as in model/engine.c"],
  harnesses=[c22("name", 1, bounds="any name of up to 7 characters or none"), c22("bindfault", 3, bounds="every single failing step of binding"),
             c22("seq4", 2, ["STEPS=4"], bounds="any 4 operations"), c22("seq3_again", 2, ["STEPS=3", "AGAIN"], bounds="any 3 operations, then destroyed and bound again"),
             c22("seq6", 2, ["STEPS=6"], tier="thorough", bounds="any 6 operations"), c22("seq5_again", 2, ["STEPS=5", "AGAIN"], tier="thorough", bounds="any 5 operations, then destroyed and bound again")])

from vplib import gen_rbg_state
def c15(prop, ops, extra=(), steps=0, **kw):
    st = steps or len(ops)
    return H(("ops" + ops if ops else "any%d" % steps) + "".join("_" + x.replace("=", "").lower() for x in extra), "c15.c", [G89, "dstulib/params.c"], extra=["rbg_tu.c"], gen=gen_rbg_state,
             remove={G89: ["gostcrypt", "kboxinit"]}, defs=["PROP=%d" % prop, "STEPS=%d" % st] + (["OPS=" + ",".join(ops)] if ops else []) + list(extra), unwind=66, memsafe=False, replay="openssl",
             opts=["--slice-formula"], bounds="%s %s (0, 1: bytes, 2: status, 3: cleanup, 4: seed, 5: add); faults, seeds and times arbitrary" % ("requests " + ops if ops else "any %d requests" % st, " ".join(extra)), **kw)
check("C15", entry=["dstu_rand_meth", "dstu_rbg_bytes", "dstu_rbg_status", "dstu_rbg_init", "dstu_rbg_get_bit", "dstu_rbg_cleanup", "dstu_rbg_seed", "dstu_rbg_add"],
  outside="Longer request sequences and requests; negative request sizes.", assumptions=["the block cipher is an arbitrary function of key, S-box and block (C01)", "seeding delivers 40 bytes or fails; libcrypto's own generator is trusted"],
  harnesses=[c15(15, o, e) for o, e in (("00", []), ("01", ["N2=3"]), ("20", []), ("031", []), ("030", ["N1=0"]), ("2320", []), ("3033", []), ("0415", []))] + [c15(15, "", ["N2=0"], steps=2)] +
            [c15(15, "", [], steps=2, tier="thorough", timeout=3000), c15(15, "", ["N2=0"], steps=3, tier="thorough", timeout=3000), c15(15, "00100", ["N2=4"], tier="thorough", timeout=3000)])
check("C16", entry=["dstu_rand_meth", "dstu_lock", "dstu_unlock", "do_rand_lock_init", "dstu_rbg_bytes", "dstu_rbg_status", "dstu_rbg_cleanup"],
  outside="Longer request sequences; state kept in function-level statics (none today); what the seeder of libcrypto does.", assumptions=["another thread can change the state only while the lock is free, and leaves it as it would be left when it releases the lock", "libcrypto's locks work"],
  harnesses=[c15(16, o, e) for o, e in (("00", []), ("01", ["N2=0"]), ("20", []), ("030", []), ("232", []), ("33", []), ("4250", []), ("0223", []))] +
            [c15(16, "", ["N2=0"], steps=2), c15(16, "", ["N2=0"], steps=3, tier="thorough", timeout=3000), c15(16, "0312", ["N2=3"], tier="thorough", timeout=3000)])

def c25(name, part, ca, cb, extra=(), **kw):
    return H(name, "c25.c", ["engine/ameth.c", "dstulib/key.c", "dstulib/params.c"], models=["bn_wide.c", "evp_pkey.c", "ossl_core.c"], defs=["PART=%d" % part, "CA=%d" % ca, "CB=%d" % cb] + list(extra), unwind=514,
             memsafe=True, opts=["--max-field-sensitivity-array-size", "128", "--slice-formula"], native_repo=EL + [G89], replay="openssl", **kw)
check("C25", entry=["dstu_asn1_param_cmp", "dstu_asn1_pub_cmp", "dstu_asn1_param_copy", "dstu_asn1_pkey_free"],
  outside="Curves other than the listed ones; scalars above 255 for the compared points; keys without a curve.",
  assumptions=["group and point comparison of libcrypto as in model/bn_wide.c; scalar multiplication is a free term", "EVP layer as in model/evp_pkey.c"],
  harnesses=[c25("cmp_%d_%d" % (a, b), 1, a, b, bounds="keys on curves %d and %d; any S-boxes, points, algorithms" % (a, b)) for a, b in ((6, 6), (0, 0), (6, 5), (9, 1))] +
            [c25("copy_%d" % a, 2, a, 0, bounds="from a key on curve %d to an empty one; any S-box" % a) for a in (6, 2)] + [c25("copy_%d_%d" % (a, b), 2, a, b, ["TO"], bounds="from a key on curve %d over one on curve %d; any S-boxes" % (a, b)) for a, b in ((6, 6), (3, 9))])

JKS = dict(objbits=10, models=["ossl_core.c"], memsafe=True, replay="model", opts=["--slice-formula"])
def c17(n, content, extra=(), **kw):
    return H("n%d_c%d%s" % (n, content, "".join("_" + x.replace("=", "").replace('"', '').lower() for x in extra)), "c17.c", ["keylib/jks.c"], loopcalls=[("d2i_X509", max(1, (n - 12) // 11) + 2)], defs=["PART=1", "NB=%d" % n, "CONTENT=%d" % content] + list(extra), unwind=max(n, content, 20) + 12,
             bounds="every string of %d bytes, protected keys of %d bytes%s" % (n, content, " " + " ".join(extra) if extra else ""), **JKS, **kw)
def ents(*e): return "ENTRIES=" + ",".join("{'%s',%s}" % (x[0], ",".join(map(str, x[1:]))) for x in e + (("E", 0, 0, 0, 0, 0),))
def c18(name, e, extra=(), **kw):
    n = 32 + sum((25 + x[1] + x[2] + sum(6 + x[1] + i + 5 for i in range(x[3]))) if x[0] == "K" else 10 + x[1] + x[2] for x in e)
    return H(name, "c17.c", ["keylib/jks.c"], defs=["PART=2", "NB=%d" % n, "VP_POOLSIZE=64", "MAXD=%d" % (3 + sum(2 + (x[2] - 40) // 20 for x in e if x[0] == "K" and x[4] == 1 and x[2] >= 40)), ents(*e)] + list(extra), unwind=260, **dict(JKS, opts=["--max-field-sensitivity-array-size", "300", "--slice-formula"]),
             bounds="entries %s (kind, name length, bytes, certificates, algorithm, keys) %s" % (list(e), " ".join(extra)), **kw)

K = lambda name=1, n=62, certs=0, alg=1, keys=1: ("K", name, n, certs, alg, keys)
C = lambda name=1, n=3: ("C", name, n, 0, 0, 0)
check("C17", entry=["parseJKS", "fromKeyProtector"], outside="Containers longer than 44 bytes (quick) or 64 bytes (thorough) with arbitrary structure; longer ones only in the shapes of C18.", assumptions=["libcrypto's decoders read only the bytes they are given and accept no empty string", "libcrypto and iconv as modelled in harness/c17.c"],
  harnesses=[c17(n, 41) for n in (0, 3, 11, 12, 31, 33, 36, 44)] + [c17(n, 41, tier="thorough", timeout=5000) for n in (52, 56, 64)] +
            [c18("len%d" % n, [K(1, n)]) for n in (0, 1, 19, 39, 40, 41)] + [c18("cut%d" % n, [K(1, 41, 1)], ["CUT=%d" % n]) for n in (1, 20, 21, 32, 80)] + [c18("key2", [K(0, 61, 0, 1, 2), K(3, 41, 1)]), c18("failsig", [K(1, 45, 1), C()], ["FAILSIG=0"])] +
            [c17(12, 41, ["FAULT", 'PWD="a3"'])] + [c17(36, c, ["FAULT"], tier="thorough", timeout=5000) for c in (0, 39, 40, 61)])
check("C18", entry=["parseJKS", "fromKeyProtector", "parseKey", "parseCert", "toUTF16BE"], outside="More than 3 entries; protected keys longer than 82 bytes; passwords longer than 4 characters; what the decoders of certificates and keys do with their bytes.",
  assumptions=["SHA-1 is an arbitrary function; libcrypto's decoders and iconv as modelled in harness/c17.c", "a protected key of an unknown algorithm is skipped (current behaviour, not judged)"],
  harnesses=[c18("empty", []), c18("key", [K(2, 62, 1)]), c18("key2", [K(0, 61, 0, 1, 2), K(3, 41, 1)]), c18("certs", [C(0, 4), C(5, 1)]), c18("mixed", [C(), K(1, 60, 2), C(2, 9)]),
             c18("pbes1", [K(1, 50, 0, 2), C()]), c18("unknown", [K(1, 50, 1, 3)])] +
            [c18("len%d" % n, [K(1, n)]) for n in (0, 1, 39, 40, 41, 59, 60)] + [c18("len%d" % n, [K(1, n)], tier="thorough") for n in (19, 20, 21, 79, 80, 81, 82)] +
            [c18("magic", [C()], ["BADMAGIC=1"]), c18("version", [C()], ["BADVER=1"]), c18("jceks", [C()], ["MAGIC=0xcecececeu"]),
             c18("tag0", [C(), C()], ["BADTAG=0"]), c18("tag1", [C(), K()], ["BADTAG=1"]), c18("sig0", [K()], ["FAILSIG=0"]), c18("sig1", [K(), K()], ["FAILSIG=1"]),
              c18("failcert", [K(1, 45, 2), C()], ["FAILCERT=0"]), c18("failcert2", [C(), C()], ["FAILCERT=0"]), c18("faildecode", [K(1, 45, 1), K(2, 41, 1)], ["FAILK8=0"]), c18("failsig", [K(1, 45, 1), C()], ["FAILSIG=0"])] +
            [c18("cut%d" % n, [C(1, 2)], ["CUT=%d" % n]) for n in (1, 20)] + [c18("kcut%d" % n, [K(1, 41, 1)], ["CUT=%d" % n]) for n in (21, 32, 80)] +
            [c18("pwd_" + w, [], ['PWD="%s"' % w]) for w in ("a", "aa", "2", "3", "4", "a2", "2a", "3a", "a4", "aaaa", "23", "22a", "x", "ai", "i", "ax")] +
            [c18("pwdkey_" + w, [K(1, 41)], ['PWD="%s"' % w]) for w in ("", "2a")])

def c20(ns, nb, nch=0, ngr=0, fail=None, where=0, **kw):
    t1 = ns * nb; n = t1 + t1 * nch + t1 * nch * ngr
    return H("s%d_b%d%s%s" % (ns, nb, "_c%d" % nch if nch else "", "_g%d" % ngr if ngr else "") + ("_%s%d" % (fail.lower(), where) if fail else ""), "c20.c", ["keylib/pkcs12.c"], models=["ossl_core.c"],
             defs=["NS=%d" % ns, "NBG=%d" % nb, "NCH=%d" % nch, "NGR=%d" % ngr] + (["FAIL=F_" + fail, "FWHERE=%d" % where] if fail else []),
             unwind=n + 6, memsafe=True, replay="model", bounds="%d safes of %d bags, %d bags in each nested one, %d in those; any kinds, right or wrong password%s" % (ns, nb, nch, ngr, "; failing step %s %d" % (fail, where) if fail else ""), **kw)
def c20f(ns, nb, nch=0, ngr=0, **kw):
    t1 = ns * nb; n = t1 + t1 * nch + t1 * nch * ngr
    return [c20(ns, nb, nch, ngr, **kw)] + [c20(ns, nb, nch, ngr, f, **kw) for f in ("DECODE", "AUTH")] + [c20(ns, nb, nch, ngr, f, w, **kw) for f in ("UNPACK", "UNPACK2", "MISSING") for w in range(ns)] + [c20(ns, nb, nch, ngr, f, w, **kw) for f in ("DECRYPT", "OBJECT") for w in range(n)]
check("C20", entry=["parsePKCS12"], outside="More safes, bags or nesting than listed; more than one failing step besides the integrity check; an empty container may be refused or accepted; libcrypto's own decoding and decryption.",
  assumptions=["libcrypto's PKCS#12 functions as modelled in harness/c20.c", "the key store itself as in model/kstore.h (C21 decides the real one)"],
  harnesses=[c20(1, 3), c20(2, 2), c20(1, 1, 1, 1), c20(3, 1), c20(1, 2, 1), c20(2, 1, 2)] + c20f(2, 1, 1))

NATIVE_WRAPS = ["-DWRAPS"] + ["-Wl,--wrap=" + f for f in "BN_bin2bn BN_copy BN_GF2m_arr2poly BN_CTX_new EC_GROUP_new_curve_GF2m EC_GROUP_get_curve EC_GROUP_get_curve_GF2m EC_GROUP_get_order EC_GROUP_set_generator EC_POINT_new EC_POINT_mul EC_POINT_invert EC_POINT_set_affine_coordinates EC_POINT_set_affine_coordinates_GF2m EC_KEY_new EC_KEY_set_group EC_KEY_set_private_key EC_KEY_set_public_key".split()]
def c11(part, curve, be, extra=(), memsafe=False, **kw):
    nm = "p%d_%d_%s%s" % (part, curve, "be" if be else "le", "".join("_" + x.replace("=", "").lower() for x in extra))
    return H(nm, "c11.c", ["engine/ameth.c", "dstulib/key.c", "dstulib/params.c"] if part < 5 else ["dstulib/key.c", "dstulib/params.c"], models=["dstu_codec.c", "asn1_basic.c", "asn1_oct.c", "bn_wide.c", "evp_pkey.c", "ossl_core.c"],
             defs=["NOCTXFAULT", "PART=%d" % part, "CURVE=%d" % curve, "BE=%d" % be] + list(extra), unwind=514, memsafe=memsafe, opts=["--max-field-sensitivity-array-size", "160", "--slice-formula"], timeout=kw.pop("timeout", 240),
             native_repo=EL + [G89], native=[x for x in NATIVE_WRAPS if not x.endswith("BN_CTX_new")] + (["-Wl,--wrap=i2d_DSTU_AlgorithmParameters"] if any("FAILENC" in x for x in extra) else []), replay="openssl", bounds="curve %d, %s %s" % (curve, "big-endian" if be else "little-endian", " ".join(extra)), **kw)

NC = [163, 167, 173, 179, 191, 233, 257, 307, 367, 431]
FSZ = [(n + 7) // 8 for n in NC]
check("C12", entry=["dstu_asn1_priv_encode", "dstu_asn1_priv_decode", "dstu_asn1_param_encode", "dstu_asn1_param_decode", "dstu_add_public_key", "asn1_from_key", "key_from_asn1"], outside="Scalars of the listed sizes only; structures by hand with at most 54 scalar bytes; single failing steps on curve 0 only; running out of memory; the DER text of PKCS#8 and of the parameters (libcrypto's decoder, and the templates of dstulib/asn1.c).", assumptions=["libcrypto's numbers, groups and points as in model/bn_wide.c (scalar multiples of the base point are distinct free terms)", "libcrypto's ASN.1 structures, PKCS#8 and SubjectPublicKeyInfo as in model/dstu_codec.c: the DER text of the parameters is opaque and reads back as the structure written", "the point codec maps two points to arbitrary different encodings and refuses everything else (C10 decides it)"],
  harnesses=[c11(1, i, i & 1, ["DBITS=%d" % b, "KIND=%d" % k]) for i, b, k in ((0, 1, 0), (1, 8, 1), (2, 172, 2), (3, 64, 2), (4, 9, 0), (5, 230, 2), (6, 255, 0), (7, 300, 1), (8, 366, 2), (9, 428, 2))] +
            [c11(1, i, b, ["CUSTOM", "DBITS=%d" % d, "KIND=%d" % k]) for i, b, d, k in ((0, 0, 160, 2), (1, 1, 7, 0), (5, 0, 232, 2), (9, 1, 430, 0))] +
            [c11(1, 0, 0, ["NOKEY"]), c11(1, 0, 1, ["FAILENC=1"]), c11(1, 1, 0, ["FAILENC=2"])] +
            [c11(2, i, b, ["LEN=%d" % n, "KIND=2"]) for i, b, n in ((0, 0, 0), (1, 1, 1), (2, 0, 2), (6, 1, 20), (9, 0, 21), (0, 0, 54))] +
            [c11(2, i, b, ["LEN=4", "BAD=%d" % x]) for i, b, x in ((0, 0, 1), (1, 1, 2), (2, 0, 3), (3, 1, 4), (4, 0, 5))] +
            [c11(1, 0, 0, ["DBITS=160", "FAULT=%d" % f, "KIND=2"], tier="quick" if f % 2 else "thorough") for f in range(1, 30)])
check("C11", entry=["dstu_asn1_pub_encode", "dstu_asn1_pub_decode", "dstu_asn1_param_encode", "dstu_asn1_param_decode", "asn1_from_key", "key_from_asn1"], outside="The public point is 3 times the base point with an arbitrary encoding; bytes after the octet string; single failing steps on curve 0 only; running out of memory; the DER text of SubjectPublicKeyInfo and of the parameters (libcrypto's decoder, and the templates of dstulib/asn1.c).", assumptions=["libcrypto's numbers, groups and points as in model/bn_wide.c (scalar multiples of the base point are distinct free terms)", "libcrypto's ASN.1 structures, PKCS#8 and SubjectPublicKeyInfo as in model/dstu_codec.c: the DER text of the parameters is opaque and reads back as the structure written", "the point codec maps two points to arbitrary different encodings and refuses everything else (C10 decides it)"],
  harnesses=[c11(3, i, b, ["KIND=%d" % k]) for i, b, k in [(i, i & 1, i % 3) for i in range(10)] + [(0, 1, 2), (9, 0, 2)]] +
            [c11(3, i, b, ["CUSTOM", "KIND=%d" % k]) for i, b, k in ((0, 0, 2), (1, 1, 0), (5, 0, 0), (9, 1, 2))] +
            [c11(3, 0, 0, ["NOKEY"]), c11(3, 1, 1, ["NOKEY", "CUSTOM"])] +
            [c11(4, i, b, ["LEN=%d" % (o + 2), "OCT=%d" % o, "KIND=2"]) for i, b, o in ((0, 0, FSZ[0]), (1, 1, FSZ[1]), (6, 0, FSZ[6]), (2, 0, FSZ[2] - 1), (3, 1, FSZ[3] + 1), (0, 0, 0), (0, 1, 1))] +
            [c11(4, 0, 0, ["LEN=0"])] + [c11(4, i, b, ["LEN=%d" % n, "TAG=%d" % t]) for i, b, n, t in ((1, 1, 23, 3), (2, 0, 24, 0x30), (0, 1, 23, 5), (0, 0, 1, 4))] +
            [c11(4, i, b, ["LEN=%d" % n, "OCT=%d" % FSZ[i]]) for i, b, n in ((0, 0, 2), (1, 1, FSZ[1] + 1), (0, 1, FSZ[0]))] +
            [c11(4, i, b, ["LEN=%d" % (FSZ[i] + 2), "OCT=%d" % FSZ[i], "BAD=%d" % x]) for i, b, x in ((0, 0, 1), (1, 1, 2), (2, 0, 3), (3, 1, 4), (4, 0, 5))] +
            [c11(3, 0, 0, ["FAULT=%d" % f, "KIND=2"], tier="quick" if f % 2 else "thorough") for f in range(1, 24)])
check("C13", entry=["asn1_from_key", "key_from_asn1", "group_from_asn1"], outside='Custom curves are the standard ones with the negated base point; bad integers between -300 and 0 (exponents) and -70000 and 70000 (coefficient); single failing steps on curve 0 only; running out of memory; the DER templates of dstulib/asn1.c; exponents beyond int.', assumptions=["libcrypto's numbers, groups and points as in model/bn_wide.c (scalar multiples of the base point are distinct free terms)", "libcrypto's ASN.1 structures, PKCS#8 and SubjectPublicKeyInfo as in model/dstu_codec.c: the DER text of the parameters is opaque and reads back as the structure written", "the point codec maps two points to arbitrary different encodings and refuses everything else (C10 decides it)"],
  harnesses=[c11(5, i, b, ["KIND=%d" % k]) for i, b, k in [(i, i & 1, (i + 1) % 3) for i in range(10)]] +
            [c11(5, i, b, ["CUSTOM", "KIND=%d" % k]) for i, b, k in [(i, 1 - (i & 1), (i + 2) % 3) for i in range(10)]] +
            [c11(6, i, b, ["BAD=%d" % x] + e) for i, b, x, e in [(0, 0, 1, []), (1, 1, 1, [])] + [(0, 0, 2, ["LEN=%d" % n]) for n in (0, 1, 63, 65)] +
              [(i, b, x, ["CUSTOM", "V=%d" % v]) for i, b, x, v in ((0, 0, 3, 0), (0, 1, 3, -163), (0, 1, 4, 2), (0, 0, 4, -1), (1, 0, 4, 257), (1, 0, 5, 0), (1, 1, 5, -6), (0, 0, 6, 0), (0, 0, 6, -3), (0, 1, 7, 0), (0, 0, 7, -6), (0, 0, 8, 0), (0, 1, 8, -7))] +
              [(i, b, x, ["CUSTOM"]) for i, b, x in ((0, 0, 3), (1, 1, 3), (0, 1, 4), (5, 0, 4), (1, 0, 5), (6, 1, 5), (0, 0, 6), (9, 1, 6), (2, 0, 7), (3, 1, 7), (5, 0, 8), (9, 1, 8), (0, 0, 10))] +
              [(i, b, 9, ["CUSTOM", "LEN=%d" % n]) for i, b, n in ((0, 0, 21), (1, 1, 21), (2, 0, 21), (5, 1, 31), (9, 0, 0))]] +
            [c11(5, 0, 0, ["CUSTOM", "FAULT=%d" % f, "KIND=2"], tier="quick" if f % 2 else "thorough") for f in range(1, 24)])
