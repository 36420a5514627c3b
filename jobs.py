import os
from run import Job, HARN
JOBS = []
LEVEL = {}
COMMON_ASSUMPTIONS = ["machine model: x86_64 LP64, two's complement (CBMC bit-precise, no mathematical-integer abstraction)"]

def J(*a, **k):
    JOBS.append(Job(*a, **k))

AX = "-DSV_VENDOR_AXIS_COMMUNICATIONS"
GOP2 = "-DMAX_GOP_LENGTH=2"

# ---- byte level of the TLV writer ----
T = "tlv_bytes.c"
J("write_byte", T, "h_write_byte", ["C01"], enforce=["write_byte"], checks="mem", unwind=10)
J("read_byte", T, "h_read_byte", ["C01"], enforce=["read_byte"], checks="mem", unwind=10)
J("epb_step", T, "h_epb_step", ["C01"], contracts=["write_byte", "read_byte"], checks="mem", unwind=10)
J("escape_credit", T, "h_escape_credit", ["C01", "C06"], contracts=["write_byte"], checks="mem", unwind=10)
J("write_byte_many", T, "h_write_byte_many", ["C01"], contracts=["write_byte_many"], checks="mem", unwind=14, kind="bounded", bound="source of at most 5 bytes (each iteration is one write_byte)")
J("read_bits", T, "h_read_bits", ["C02"], contracts=["read_64bits", "read_64bits_signed", "read_32bits", "read_16bits", "read_8bits"], checks="mem", unwind=10)

# ---- TLV encoders and decoders ----
T = "tlv.c"
D = [AX, GOP2]
TL = ["tlv_list_encode_or_get_size"]
TD = ["tlv_decode"]
LOG = dict(calls=["write_byte:vf_write_byte"])
FS = ["--max-field-sensitivity-array-size", "420"]
def TJ(name, entry, props, defs=(), **k):
    k.setdefault("unwind", 60)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    if name[:4] in ("dec_", "safe"): k["alt"], defs = "-DDIRECT", list(defs) + ["-DDIRECT"]
    J(name, T, entry, props, defs=D + list(defs), **k)
for hs in (32, 64):
    for ts in (0, 1):
        TJ("enc_general_%d_ts%d" % (hs, ts), "h_enc_general", ["C01", "C02"], ["-DLOGMODE", "-DHS=%d" % hs, "-DHAS_TS=%d" % ts], contracts=TL + ["encode_general"], unwind=150, **LOG)
        TJ("dec_general_%d_ts%d" % (hs, ts), "h_dec_general", ["C02"], ["-DHAS_TS=%d" % ts, "-DHS=%d" % hs], contracts=TD + ["decode_general"], unwind=140)
for v, ts in ((1, 0), (2, 0), (2, 1)):
    TJ("dec_general_v%d_ts%d" % (v, ts), "h_dec_general", ["C02"], ["-DGVER=%d" % v, "-DHAS_TS=%d" % ts], contracts=TD + ["decode_general"], unwind=140)
B8 = "payload sizes 1..8, any content"
for n in ("signature", "hash_list", "arbitrary", "public_key", "crypto", "vendor"):
    TJ("enc_" + n, "h_enc_" + n, ["C01", "C02"], ["-DNMAX=12", "-DLOGMODE"], contracts=TL + ["encode_" + n], kind="bounded", bound="payload of at most 12 bytes", **LOG)
TJ("enc_crypto_escaped", "h_enc_crypto", ["C01"], ["-DNMAX=4", "-DEPB=1"], contracts=TL + ["encode_crypto_info", "write_byte"], kind="bounded", bound="payload of at most 4 bytes")
for n in ("signature", "hash_list", "arbitrary", "crypto"):
    for z in (0, 1, 8):
        if not (n == "crypto" and z == 0):
            TJ("dec_%s_%d" % (n, z), "h_dec_" + n, ["C02"], ["-DNMAX=8", "-DN=%d" % z], contracts=TD + ["decode_" + n], kind="bounded", bound=B8)
for z, z2, o in ((5, 5, 0), (5, 3, 0), (3, 5, 0), (5, 5, 1)):
    TJ("dec_public_key_%d_%d_%d" % (z, z2, o), "h_dec_public_key", ["C02", "C18"], ["-DNMAX=8", "-DN=%d" % z, "-DN2=%d" % z2, "-DOLDVER=%d" % o], contracts=TD + ["decode_public_key"], kind="bounded", bound=B8)
for z, z2 in ((178, 178), (178, 451)):
    TJ("dec_public_key_%d_%d" % (z, z2), "h_dec_public_key", ["C02", "C18"], ["-DNMAX=%d" % max(z, z2), "-DN=%d" % z, "-DN2=%d" % z2, "-DOLDVER=0"], contracts=TD + ["decode_public_key"], kind="bounded", bound="key of the size of an ECDSA P-256 key, any content, after one of that size or of RSA 2048", unwind=460, flags=["--max-field-sensitivity-array-size", "700"])
for i, l in enumerate(("3,0,-1,2,1", "-1,1,3,0,2", "2,2,2,2,2")):
    TJ("enc_product_%d" % i, "h_enc_product", ["C01", "C02"], ["-DLENS=" + l, "-DLOGMODE"], contracts=TL + ["encode_product_info"], kind="bounded", bound="string lengths " + l, **LOG)
    TJ("dec_product_%d" % i, "h_dec_product", ["C02"], ["-DLENS=" + l], contracts=TD + ["decode_product_info"], kind="bounded", bound="string lengths " + l)
for r in range(5):
    TJ("enc_product_long_%d" % r, "h_enc_product_long", ["C02"], ["-DEPB=0", "-DROT=%d" % r], contracts=["encode_product_info"], unwind=310, flags=["--max-field-sensitivity-array-size", "1400"], kind="bounded", bound="strings of 253..256 and 300 characters", tier="quick" if r in (0, 2) else "thorough")
for z in (127, 128, 129, 132):
    TJ("dec_hash_list_big_%d" % z, "h_dec_hash_list_big", ["C03"], ["-DN=%d" % z], contracts=["decode_hash_list"])
for l in (254, 255, 300):
    TJ("enc_length_%d" % l, "h_enc_length", ["C02"], ["-DLEN=%d" % l, "-DEPB=0"], contracts=TL + TD, unwind=320)
for z, z2 in ((1, 3), (3, 0)):
    TJ("enc_list_%d_%d" % (z, z2), "h_enc_list", ["C02"], ["-DEPB=0", "-DN=%d" % z, "-DN2=%d" % z2], contracts=TL)
for t, n in ((1, "general"), (2, "public_key"), (3, "product"), (4, "hash_list"), (5, "signature"), (6, "arbitrary"), (7, "crypto"), (129, "vendor")):
    for z in {1: (1, 2, 3, 8, 12, 13, 20, 21, 29), 3: (1, 2, 3, 4, 5, 9, 14, 17, 26)}.get(t, (1, 2, 3, 4, 5, 6, 8, 12, 16)):
        TJ("safe_%s_%d" % (n, z), "h_safe_tag", ["C03"], ["-DTAG=%d" % t, "-DRSIZE=%d" % z, "-DSLOTMAX=16"], contracts=["tlv_decode", "decode_" + n], kind="bounded", bound="one TLV of selected sizes 1..29 bytes, any content", cost=z, unwind=20)
for z in (4, 7, 9):
    for e in (0, 1):
        TJ("find_safe_%d_%d" % (z, e), "h_find_safe", ["C03"], ["-DRSIZE=%d" % z, "-DEPB=%d" % e], contracts=["tlv_find_tag"], kind="bounded", bound="any bytes, at most 9", unwind=z + 2)
for z, e, t in ((5, 0, 4), (5, 0, 1), (5, 0, 129), (1, 1, 1), (4, 1, 7), (4, 1, 2)):
    TJ("find_spec_%d_%d_%d" % (z, e, t), "h_find_spec", ["C02"], ["-DN=%d" % z, "-DEPB=%d" % e, "-DFTAG=%d" % t], contracts=["tlv_find_tag"], kind="bounded", bound="one TLV of at most 5 bytes before the one searched for", unwind=z + 3, unwindset=["escape.0:16", "put_be.0:9", "h_find_spec.0:9"], flags=["--max-field-sensitivity-array-size", "700"])
DECS = ["decode_%s:vf_decoder" % x for x in ("general", "public_key", "arbitrary_data", "product_info", "hash_list", "signature", "crypto_info", "axis_communications")]
for z in (8, 13):
    TJ("loop_decode_%d" % z, "h_loop_decode", ["C03"], ["-DRSIZE=%d" % z], contracts=TD + ["decode_tlv_header", "get_decoder"], kind="bounded", bound="any data of 8 or 13 bytes", unwind=z // 3 + 3, calls=DECS, rfp=True, internal=True)
    TJ("loop_optional_%d" % z, "h_loop_optional", ["C03", "C02"], ["-DRSIZE=%d" % z], contracts=["tlv_find_and_decode_optional_tags"], kind="bounded", bound="any data of 8 or 13 bytes", unwind=z // 3 + 3, calls=DECS, rfp=True, internal=True)
TJ("tlv_params", "h_tlv_params", ["C03"], contracts=TD + ["tlv_find_tag", "tlv_find_and_decode_optional_tags"])

# ---- common ----
def CJ(name, entry, props, defs=(), **k):
    k.setdefault("unwind", 40)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    J(name, "common.c", entry, props, defs=[AX, GOP2] + list(defs), **k)
PN = ["parse_nalu_info", "parse_h264_nalu_header", "parse_h265_nalu_header", "h264_get_payload_size", "remove_epb_from_sei_payload"]
for z in (1, 2, 3, 4, 5, 8, 24):
    CJ("parse_safe_%d" % z, "h_parse_safe", ["C04"], ["-DN=%d" % z, "-DTOUCH=%d" % (z + 2)], contracts=PN, kind="bounded", bound="NALU of 1..5, 8 or 24 bytes, any content", unwind=z + 4, unwindset=["memcmp.0:20"], cost=z)
for c in (0, 1):
    for sc, z in ((0, 1), (0, 2), (0, 3), (0, 6), (3, 3), (3, 4), (3, 5), (3, 9), (4, 4), (4, 5), (4, 6), (4, 10)):
        CJ("parse_class_%d_%d_%d" % (c, sc, z), "h_parse_class", ["C05"], ["-DCODEC=%d" % c, "-DSC=%d" % sc, "-DN=%d" % z, "-DTOUCH=1"], contracts=PN, kind="bounded", bound="at most 6 bytes after the start code, any content", unwind=z + 4)
    for i, (sc, ep, st, ze, bu) in enumerate(((4, 0, 1, 0, 0), (3, 1, 1, 0, 0), (0, 0, 1, 2, 0), (4, 1, 1, 1, 0), (4, 0, 1, 0, 1))):
        CJ("parse_sei_%d_%d" % (c, i), "h_parse_sei", ["C05", "C04"], ["-DCODEC=%d" % c, "-DSC=%d" % sc, "-DNEPB=%d" % ep, "-DSTOP=%d" % st, "-DZEROS=%d" % ze, "-DBADUUID=%d" % bu], contracts=PN, kind="bounded", bound="TLV part of 4 bytes, at most one escape", unwind=60)
for r in (0, 1, 3):
    CJ("payload_size_%d" % r, "h_payload_size", ["C05"], ["-DRUN=%d" % r], contracts=["h264_get_payload_size"], internal=True)
CJ("copy_nalu", "h_copy_nalu", ["C05"], contracts=["copy_nalu_except_pointers"])
HA = ["hash_and_add", "get_hash_wrapper", "update_hash", "simply_hash", "hash_and_copy_to_ref", "hash_with_reference", "check_and_copy_hash_to_hash_list", "update_num_nalus_in_gop_hash"]
for parts, li, ls in ((1, 0, 128), (2, 32, 128), (3, 64, 128), (1, 96, 128), (2, 128, 128), (2, -1, 128), (1, 32, 32), (2, 0, 31), (3, 0, 0)):
    CJ("hash_and_add_%d_%d_%d" % (parts, li, ls), "h_hash_and_add", ["C07", "C24"], ["-DPARTS=%d" % parts, "-DLISTIDX=%d" % li, "-DLISTSIZE=%d" % ls], contracts=HA, unwind=132)
for pl in ("1,3,1", "3,1,2", "1,1,5", "40,2,1", "2,40,0", "300,0,0", "1,300,0"):
    CJ("hash_and_add_parts_" + pl.replace(",", "_"), "h_hash_and_add", ["C07"], ["-DPARTS=%d" % sum(x != "0" for x in pl.split(",")), "-DPLENS=" + pl, "-DRAWMAX=%d" % (400 if "300" in pl else 80), "-DGC_STREAM=%d" % (302 if "300" in pl else 72)], contracts=HA, unwind=310 if "300" in pl else 132, kind="bounded", bound="parts of " + pl + " bytes", tier="thorough" if pl == "1,300,0" else "quick", cost=40, flags=["--max-field-sensitivity-array-size", "800"])
for parts in (1, 2):
    CJ("hash_and_add_fail_%d" % parts, "h_hash_and_add", ["C07"], ["-DPARTS=%d" % parts, "-DGC_FAIL", "-DLISTIDX=32"], contracts=HA, unwind=132)
CJ("hash_and_add_64", "h_hash_and_add", ["C07", "C24"], ["-DPARTS=2", "-DGC_HS=64", "-DLISTIDX=64"], contracts=HA, unwind=132)
CJ("hash_for_auth", "h_hash_for_auth", ["C07"], contracts=["hash_and_add_for_auth"] + HA[1:6], unwind=132)
CJ("hash_for_auth_64", "h_hash_for_auth", ["C07"], ["-DGC_HS=64"], contracts=["hash_and_add_for_auth"] + HA[1:6], unwind=132)
CJ("hash_for_auth_fail", "h_hash_for_auth", ["C07"], ["-DGC_FAIL"], contracts=["hash_and_add_for_auth"] + HA[1:6], unwind=132)
CJ("hash_params", "h_hash_params", ["C07"], contracts=HA + ["update_linked_hash", "hash_and_add_for_auth"], unwind=132)
CJ("hash_list", "h_hash_list", ["C24"], contracts=["check_and_copy_hash_to_hash_list"], unwind=132)
CJ("set_list_size", "h_set_list_size", ["C24"], contracts=["set_hash_list_size"], unwind=132)
CJ("linked_hash", "h_linked_hash", ["C24"], contracts=["update_linked_hash"], unwind=132)
CJ("linked_hash_64", "h_linked_hash", ["C24"], ["-DGC_HS=64"], contracts=["update_linked_hash"], unwind=132)
for w in (0, 20, 31, 33, 64):
    CJ("linked_hash_wrong_%d" % w, "h_linked_hash", ["C24"], ["-DWRONG=%d" % w], contracts=["update_linked_hash"], unwind=132)
CJ("flags", "h_flags", ["C25"], contracts=["update_validation_flags", "validation_flags_init", "gop_state_update", "gop_state_reset"])
CJ("versions", "h_versions", ["C20"], contracts=["signed_video_compare_versions"], calls=["version_str_to_bytes:vf_version_parse"], assumes=["sscanf(\"v%d.%d.%d\") reads the three numbers of a version string (libc)"])
for o, n in ((0, 3), (3, 3), (3, 5), (3, 1), (0, 1), (3, 0)):
    CJ("member_%d_%d" % (o, n), "h_member", ["C17"], ["-DOLD=%d" % o, "-DNEW=%d" % n], contracts=["struct_member_memory_allocated_and_copy"])
CJ("reset", "h_reset", ["C25"], contracts=["signed_video_reset", "gop_info_reset", "gop_state_reset", "validation_flags_init"], unwind=132)
CJ("create_free", "h_create_free", ["C25"], contracts=["signed_video_create", "signed_video_free"], unwind=132, calls=["version_str_to_bytes:vf_version_parse"])
CJ("golden", "h_golden", ["C05"], ["-DN=6"], contracts=["signed_video_is_golden_sei"], kind="bounded", bound="6 bytes", unwind=14)

# ---- authenticity report ----
def AJ(name, entry, props, defs=(), **k):
    k.setdefault("unwind", 20)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    J(name, "authenticity.c", entry, props, defs=[AX, GOP2] + list(defs), **k)
for nm in range(8):
    if nm < 6: AJ("product_%d" % nm, "h_product", ["C21"], ["-DLA=1", "-DLB=1", "-DDSTLEN=1", "-DNOMEM=%d" % nm], contracts=["transfer_product_info"], kind="bounded", bound="strings of at most 5 characters")
    if nm: AJ("get_report_nomem_%d" % nm, "h_get_report", ["C21"], ["-DLA=2", "-DLB=3", "-DNOMEM=%d" % nm], contracts=["signed_video_get_authenticity_report", "transfer_authenticity", "transfer_latest_validation", "transfer_product_info"], kind="bounded", bound="strings of at most 5 characters")
AJ("accumulate", "h_accumulate", ["C10"], contracts=["update_accumulated_validation"])
AJ("update_report", "h_update_report", ["C10", "C20"], contracts=["update_authenticity_report", "update_accumulated_validation", "create_local_authenticity_report_if_needed"])
for a, b in ((2, 3), (0, 0), (5, 5)):
    AJ("get_report_%d_%d" % (a, b), "h_get_report", ["C21"], ["-DLA=%d" % a, "-DLB=%d" % b], contracts=["signed_video_get_authenticity_report", "transfer_authenticity", "transfer_latest_validation", "transfer_accumulated_validation", "transfer_product_info", "signed_video_authenticity_report_free"], kind="bounded", bound="strings of at most 5 characters")
for a, b in ((-1, 3), (3, 3), (3, 5), (5, 2), (0, 0), (2, -1), (-1, -1)):
    AJ("copy_string_%d_%d" % (a, b), "h_copy_string", ["C21"], ["-DDSTLEN=%d" % a, "-DLB=%d" % b], contracts=["allocate_memory_and_copy_string"], kind="bounded", bound="strings of at most 5 characters")
AJ("fresh_report", "h_fresh_report", ["C21", "C25"], contracts=["create_local_authenticity_report_if_needed", "authenticity_report_init", "latest_validation_init", "accumulated_validation_init", "set_authenticity_shortcuts"])

# ---- NALU list ----
NL = "signed_video_h26x_nalu_list.c: "
def LJ(name, entry, props, defs=(), **k):
    k.setdefault("unwind", 12)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    k.setdefault("kind", "bounded")
    k.setdefault("bound", "lists of at most 4 items before the operation")
    J(name, "nalu_list.c", entry, props, defs=[AX, GOP2] + list(defs), **k)
LRF = ["h26x_nalu_list_refresh", "h26x_nalu_list_remove_and_free_item", "h26x_nalu_list_item_free"]
for z in (0, 1, 3):
    LJ("list_append_%d" % z, "h_append", ["C12"], ["-DK=%d" % z], contracts=["h26x_nalu_list_append", "h26x_nalu_list_item_create", "h26x_nalu_list_item_append_item", "get_validation_status_from_nalu"] + LRF)
for z, pos, nm in ((1, 0, 1), (3, 0, 2), (3, 1, 3), (3, 2, 1), (2, 1, 0)):
    LJ("list_add_missing_%d_%d_%d" % (z, pos, nm), "h_add_missing", ["C12"], ["-DK=%d" % z, "-DPOS=%d" % pos, "-DNM=%d" % nm], contracts=["h26x_nalu_list_add_missing", "h26x_nalu_list_item_append_item", "h26x_nalu_list_item_prepend_item", "is_in_list"] + LRF)
for z in (2, 4):
    LJ("list_remove_missing_%d" % z, "h_remove_missing", ["C12"], ["-DK=%d" % z], contracts=["h26x_nalu_list_remove_missing_items"] + LRF)
    LJ("list_read_%d" % z, "h_read", ["C12"], ["-DK=%d" % z], contracts=["h26x_nalu_list_get_next_sei_item", "h26x_nalu_list_get_stats", "h26x_nalu_list_num_pending_items", "h26x_nalu_list_get_str"])
    LJ("list_clean_up_%d" % z, "h_clean_up", ["C12"], ["-DK=%d" % z], contracts=["h26x_nalu_list_clean_up"] + LRF)
LJ("list_free_items", "h_free_items", ["C12"], ["-DK=3"], contracts=["h26x_nalu_list_free_items"] + LRF)
for z, w, t in ((0, 0, 0), (2, 0, 0), (1, 1, 0), (1, 2, 0), (0, 2, 0), (1, 0, 2)):
    LJ("list_copy_%d_%d_%d" % (z, w, t), "h_copy_last", ["C12", "C03"] if w else ["C12"], ["-DK=%d" % z, "-DWOEPB=%d" % w, "-DTRAILM=%d" % t], contracts=["h26x_nalu_list_copy_last_item"])

# ---- NALU list of old streams ----
def LLJ(name, entry, defs=(), props=(), **k):
    k.setdefault("unwind", 12)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    k.setdefault("kind", "bounded")
    k.setdefault("bound", "lists of at most 4 items before the operation")
    k["contracts"] = ["legacy_" + c for c in k["contracts"]]
    J("legacy_" + name, "legacy_list.c", entry, ["C23"] + list(props), defs=[AX, GOP2] + list(defs), **k)
for z in (0, 1, 3):
    LLJ("list_append_%d" % z, "h_append", ["-DK=%d" % z], contracts=["h26x_nalu_list_append", "h26x_nalu_list_item_create", "h26x_nalu_list_item_append_item", "get_validation_status_from_nalu"] + LRF)
for z, pos, nm in ((1, 0, 1), (3, 0, 2), (3, 1, 3), (3, 2, 1), (2, 1, 0)):
    LLJ("list_add_missing_%d_%d_%d" % (z, pos, nm), "h_add_missing", ["-DK=%d" % z, "-DPOS=%d" % pos, "-DNM=%d" % nm], contracts=["h26x_nalu_list_add_missing", "h26x_nalu_list_item_append_item", "h26x_nalu_list_item_prepend_item", "is_in_list"] + LRF)
for z in (2, 4):
    LLJ("list_remove_missing_%d" % z, "h_remove_missing", ["-DK=%d" % z], contracts=["h26x_nalu_list_remove_missing_items"] + LRF)
    LLJ("list_read_%d" % z, "h_read", ["-DK=%d" % z], contracts=["h26x_nalu_list_get_next_sei_item", "h26x_nalu_list_get_stats", "h26x_nalu_list_num_pending_items", "h26x_nalu_list_get_str"])
    LLJ("list_clean_up_%d" % z, "h_clean_up", ["-DK=%d" % z], contracts=["h26x_nalu_list_clean_up"] + LRF)
LLJ("list_free_items", "h_free_items", ["-DK=3"], contracts=["h26x_nalu_list_free_items"] + LRF)
for z, w, t in ((0, 0, 0), (2, 0, 0), (1, 1, 0), (1, 2, 0), (0, 2, 0), (1, 0, 2)):
    LLJ("list_copy_%d_%d_%d" % (z, w, t), "h_copy_last", ["-DK=%d" % z, "-DWOEPB=%d" % w, "-DTRAILM=%d" % t], contracts=["h26x_nalu_list_copy_last_item"])

# ---- validation ----
def VJ(name, entry, props, defs=(), **k):
    k.setdefault("unwind", 36)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    J(name, "auth.c", entry, props, defs=[AX, GOP2] + list(defs), **k)
B4 = dict(kind="bounded", bound="lists of at most 4 NALUs, hash lists of at most 3 hashes, any content, hash size 8 bytes")
H8 = ["-DGC_HS=8", "-DGHOST_MISSING"]
VJ("lost_sei", "h_lost_sei", ["C11"], contracts=["detect_lost_sei"])
for hs in (32, 64):
    VJ("compare_%d" % hs, "h_compare", ["C08"], ["-DGC_HS=%d" % hs, "-DNH=1"], contracts=["verify_gop_hash", "verify_linked_hash"], unwind=68)
for z in (3, 4):
    VJ("gop_hash_%d" % z, "h_gop_hash", ["C08"], ["-DK=%d" % z], contracts=["prepare_for_link_and_gop_hash_verification", "remove_used_in_gop_hash"], **B4)
VJ("gop_hash_fail", "h_gop_hash", ["C08"], ["-DK=3", "-DGC_FAIL"], contracts=["prepare_for_link_and_gop_hash_verification", "remove_used_in_gop_hash"], **B4)
VJ("update_link", "h_update_link", ["C24", "C08"], ["-DK=4"], contracts=["update_link_hash_for_auth"], **B4)
for kd in ("0,0,2", "1,0,2", "1,0,0,2", "0,1,2", "1,2,0,1", "0,0,0,2"):
    z = kd.count(",") + 1
    VJ("hash_list_" + kd.replace(",", ""), "h_hash_list", ["C09", "C08"], H8 + ["-DK=%d" % z, "-DKINDS=" + kd], contracts=["verify_hashes_with_hash_list"], unwind=10, **B4)
for z in (3, 4):
    VJ("pending_%d" % z, "h_pending", ["C13"], ["-DK=%d" % z], contracts=["has_pending_gop"], **B4)
VC = ["validate_authenticity", "verify_hashes_with_sei", "verify_hashes_without_sei", "verify_hashes_with_hash_list", "set_validation_status_of_pending_items_used_in_gop_hash", "prepare_for_validation", "decode_sei_data"]
for kd, st, r in (("1,0,2,1", "PPPP", "ROK"), ("1,2,1", "PPP", "ROK"), ("0,2,1", ".PP", "X"), ("0,0,2,1", "PPPP", "ROK"), ("2,1", "PP", "X"), ("2,0", "PP", "X"), ("1,0,1,2", "PPPP", "RLOST"), ("0,1,2", "PPP", "RLOST"), ("1,1,2", "PPP", "RLOST"), ("1,0,0,2", "PPPP", "ROK"), ("1,0,2", "PPP", "RMISS"), ("1,0,2,1", "NPPP", "X"), ("2,1,3,2", ".P_P", "X")):
    z = kd.count(",") + 1
    VJ("verdict_" + kd.replace(",", "") + ("" if st == "P" * z else "_" + st.replace(".", "o")), "h_verdict", ["C08", "C13", "C18"], H8 + ["-DK=%d" % z, "-DKINDS=" + kd, '-DDONE="%s"' % st, "-D" + r], contracts=VC, unwind=10, **B4)
RC = ["%s:vf_%s" % (x, x) for x in ("has_pending_gop", "prepare_for_validation", "update_link_hash_for_auth", "validate_authenticity", "is_recurrent_data_decoded")]
for kd in ("1,2", "1,1", "1,0", "1,0,2", "0,0,0,1", "3,0,1", "1,3"):
    z = kd.count(",") + 1
    VJ("rounds_" + kd.replace(",", ""), "h_rounds", ["C13", "C10"], H8 + ["-DK=%d" % z, "-DKINDS=" + kd] + (["-DRV"] if kd[-1] in "12" else []), contracts=["maybe_validate_gop", "validation_is_feasible"], unwind=10, calls=RC, internal=True, **B4)
VJ("recurrent", "h_recurrent", ["C08", "C18"], H8 + ["-DK=3"], contracts=["is_recurrent_data_decoded"], unwind=10, **B4)
for kd, st in (("2", "P"), ("0,2", "PP"), ("2,2", ".P"), ("1", "P")):
    z = kd.count(",") + 1
    VJ("prepare_" + kd.replace(",", ""), "h_prepare", ["C08", "C18", "C19"], H8 + ["-DK=%d" % z, "-DKINDS=" + kd, '-DDONE="%s"' % st], contracts=["prepare_for_validation", "decode_sei_data"], unwind=26, **B4)
AC = ["maybe_validate_gop:vf_maybe_validate_gop", "prepare_golden_sei:vf_prepare_golden_sei"]
for nk, nv in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (0, 0), (0, -1)):
    VJ("add_%d_%s" % (nk, str(nv).replace("-", "m")), "h_add", ["C12", "C17", "C07", "C08"], H8 + ["-DK=2", "-DKINDS=1,3", '-DDONE="P_"', "-DNKIND=%d" % nk, "-DNVALID=%d" % nv], contracts=["signed_video_add_nalu_and_authenticate", "signed_video_add_h26x_nalu", "register_nalu", "reregister_nalus", "h26x_nalu_list_copy_last_item"], unwind=10, calls=AC, internal=True, **B4)
VJ("add_params", "h_add_params", ["C17"], H8, contracts=["signed_video_add_nalu_and_authenticate"], unwind=10)
VJ("set_public_key", "h_set_key", ["C17", "C18"], H8, contracts=["signed_video_set_public_key"], unwind=10)
VJ("hashable", "h_hashable", ["C07", "C08"], H8, contracts=["update_hashable_data"], unwind=10)

# ---- validation of old streams ----
def LVJ(name, entry, defs=(), props=(), **k):
    k.setdefault("unwind", 10)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    k["contracts"] = ["legacy_" + c for c in k["contracts"]]
    J("legacy_" + name, "legacy_auth.c", entry, ["C23"] + list(props), defs=[AX, GOP2] + list(defs), **k)
LVJ("lost_sei", "h_decode", props=["C11"], contracts=["decode_sei_data"])
LVJ("hashable", "h_hashable", contracts=["update_hashable_data"])
LVJ("add_params", "h_add_params", contracts=["sv_add_nalu_and_authenticate", "get_nalu_list_items"])
for kd, sc in (("0,0,2", "000"), ("1,0,2,1", "1000"), ("1,0,2,1", "0000"), ("1,2,4", "100"), ("1,0,2", "000"), ("1,0,1,2", "1000"), ("1,2,2", "100"), ("0,2,1", "000"), ("4,0,2,1", "1000")):
    z = kd.count(",") + 1
    LVJ("hash_list_%s_%s" % (kd.replace(",", ""), sc), "h_hash_list", ["-DK=%d" % z, "-DKINDS=" + kd, '-DSEC="%s"' % sc, '-DDONE="%s"' % ("P" * z)], contracts=["verify_hashes_with_hash_list"], **B4)
for z in (3, 4):
    LVJ("without_sei_%d" % z, "h_without", ["-DK=%d" % z], contracts=["verify_hashes_without_sei"], **B4)
    LVJ("pending_%d" % z, "h_pending", ["-DK=%d" % z], contracts=["has_pending_gop"], **B4)
    LVJ("gop_hash_%d" % z, "h_gop_hash", ["-DK=%d" % z], contracts=["compute_gop_hash", "remove_used_in_gop_hash"], **B4)
for f in (1, 2, 3):
    LVJ("gop_hash_fail_%d" % f, "h_gop_hash", ["-DK=3", "-DFAILAT=%d" % f], contracts=["compute_gop_hash", "remove_used_in_gop_hash"], **B4)
for sg in (1, 0, -1):
    LVJ("verify_gop_hash_%s" % str(sg).replace("-", "m"), "h_verify_gop_hash", ["-DK=3", "-DSIG=%d" % sg], contracts=["verify_hashes_with_gop_hash", "set_validation_status_of_items_used_in_gop_hash"], **B4)
LVC = ["validate_authenticity", "verify_hashes_with_hash_list", "verify_hashes_with_gop_hash", "verify_hashes_without_sei", "set_validation_status_of_items_used_in_gop_hash", "prepare_for_validation", "decode_sei_data", "compute_gop_hash", "h26x_nalu_list_remove_missing_items"]
for ht in (1, 0):
    for kd, st, sc, r in (("1,0,2,1", "PPPP", "1000", "ROK"), ("1,2,1", "PPP", "100", "ROK"), ("0,2,1", ".PP", "000", "X"), ("1,0,1,2", "PPPP", "1000", "RLOST"), ("1,0,2,4", "PPPP", "1000", "ROK"), ("1,2,2", "PPP", "100", "X"), ("1,2", "PP", "00", "X"), ("0,1,2", "NPP", "000", "X")):
        z = kd.count(",") + 1
        LVJ("verdict_%d_%s_%s" % (ht, kd.replace(",", ""), sc), "h_verdict", ["-DHT=%d" % ht, "-DK=%d" % z, "-DKINDS=" + kd, '-DDONE="%s"' % st, '-DSEC="%s"' % sc, "-D" + r], contracts=LVC, **B4)
LRC = ["legacy_has_pending_gop:vf_has_pending_gop", "legacy_prepare_for_validation:vf_prepare", "legacy_validate_authenticity:vf_validate", "legacy_is_recurrent_data_decoded:vf_recurrent"]
for kd in ("1,2", "1,1", "1,0", "2,0", "2,3,0", "1,0,2", "3,0,1", "1,3"):
    z = kd.count(",") + 1
    LVJ("rounds_" + kd.replace(",", ""), "h_rounds", ["-DK=%d" % z, "-DKINDS=" + kd, '-DSEC="%s"' % ("0" * z)] + (["-DRV"] if kd in ("1,2", "1,1", "1,0,2", "3,0,1") else []), contracts=["maybe_validate_gop", "validation_is_feasible"], calls=LRC, internal=True, **B4)
LVJ("recurrent", "h_recurrent", ["-DK=3"], contracts=["is_recurrent_data_decoded"], **B4)
for kd, st in (("2", "P"), ("0,2", "PP"), ("2,2", ".P"), ("1", "P")):
    z = kd.count(",") + 1
    for ht in (0, 1):
        LVJ("prepare_%d_%s" % (ht, kd.replace(",", "")), "h_prepare", ["-DHT=%d" % ht, "-DK=%d" % z, "-DKINDS=" + kd, '-DDONE="%s"' % st], props=["C18", "C19"], contracts=["prepare_for_validation", "decode_sei_data", "compute_gop_hash"], **dict(B4, unwind=26))
for nk, nv in ((0, 1), (1, 1), (2, 1), (3, 1), (0, 0), (0, -1)):
    LVJ("add_%d_%s" % (nk, str(nv).replace("-", "m")), "h_add", ["-DK=2", "-DKINDS=1,3", '-DDONE="P_"', "-DNKIND=%d" % nk, "-DNVALID=%d" % nv, "-DREALLIST"], contracts=["sv_add_nalu_and_authenticate", "sv_add_h26x_nalu", "register_nalu", "h26x_nalu_list_copy_last_item"], calls=["legacy_maybe_validate_gop:vf_maybe", "legacy_update_authenticity_report:vf_update_report"], internal=True, **B4)
LVJ("report", "h_report", ["-DK=3", "-DREALLIST"], props=["C20", "C10"], contracts=["update_authenticity_report", "h26x_nalu_list_clean_up", "h26x_nalu_list_get_str"], **B4)

# ---- parsing, hashing and session of old streams ----
def LCJ(name, entry, defs=(), props=(), **k):
    k.setdefault("unwind", 40)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    k["contracts"] = ["legacy_" + c for c in k["contracts"]]
    J("legacy_" + name, "legacy_common.c", entry, ["C23"] + list(props), defs=[AX, GOP2] + list(defs), **k)
LPN = ["parse_nalu_info", "parse_h264_nalu_header", "parse_h265_nalu_header", "get_payload_size", "remove_epb_from_sei_payload"]
for z in (1, 2, 3, 4, 5, 8, 24):
    LCJ("parse_safe_%d" % z, "h_parse_safe", ["-DN=%d" % z, "-DTOUCH=%d" % (z + 2)], ["C04"], contracts=LPN, kind="bounded", bound="NALU of 1..5, 8 or 24 bytes, any content", unwind=z + 4, unwindset=["memcmp.0:20"], cost=z)
for c in (0, 1):
    for sc, z in ((0, 1), (0, 3), (0, 6), (3, 4), (3, 9), (4, 5), (4, 6), (4, 10)):
        LCJ("parse_class_%d_%d_%d" % (c, sc, z), "h_parse_class", ["-DCODEC=%d" % c, "-DSC=%d" % sc, "-DN=%d" % z, "-DTOUCH=1"], contracts=LPN, kind="bounded", bound="at most 6 bytes after the start code, any content", unwind=z + 4)
    for i, (sc, ep, st, ze, bu) in enumerate(((4, 0, 1, 0, 0), (3, 1, 1, 0, 0), (0, 0, 1, 2, 0), (4, 1, 1, 1, 0), (4, 0, 1, 0, 1))):
        LCJ("parse_sei_%d_%d" % (c, i), "h_parse_sei", ["-DCODEC=%d" % c, "-DSC=%d" % sc, "-DNEPB=%d" % ep, "-DSTOP=%d" % st, "-DZEROS=%d" % ze, "-DBADUUID=%d" % bu], ["C04"] if i == 1 else [], contracts=LPN, kind="bounded", bound="TLV part of 4 bytes, at most one escape", unwind=60)
for r in (0, 1, 3):
    LCJ("payload_size_%d" % r, "h_payload_size", ["-DRUN=%d" % r], contracts=["get_payload_size"], internal=True)
LCJ("copy_nalu", "h_copy_nalu", contracts=["copy_nalu_except_pointers"])
LHA = ["hash_and_add_for_auth", "get_hash_wrapper", "update_hash", "simply_hash", "hash_and_copy_to_ref", "hash_with_reference"]
LCJ("hash_for_auth", "h_hash_for_auth", contracts=LHA, unwind=132)
LCJ("hash_for_auth_64", "h_hash_for_auth", ["-DGC_HS=64"], contracts=LHA, unwind=132)
LCJ("hash_for_auth_fail", "h_hash_for_auth", ["-DGC_FAIL"], contracts=LHA, unwind=132)
LCJ("common_gop_hash", "h_gop_hash", contracts=["update_gop_hash", "reset_gop_hash"], unwind=132)
LCJ("common_gop_hash_fail", "h_gop_hash", ["-DGC_FAIL"], contracts=["update_gop_hash", "reset_gop_hash"], unwind=132)
LCJ("flags", "h_flags", contracts=["update_validation_flags", "gop_state_update", "gop_state_reset"])
LCJ("reset", "h_reset", props=["C25"], contracts=["sv_reset", "gop_info_reset", "gop_state_reset", "validation_flags_init", "reset_gop_hash"], unwind=132)
LCJ("reset_fail", "h_reset", ["-DGC_FAIL"], props=["C25"], contracts=["sv_reset", "gop_info_reset"], unwind=132)
for k in (0, 1):
    LCJ("create_free_%d" % k, "h_create_free", ["-DKEY=%d" % k], contracts=["sv_create", "sv_free", "gop_info_create"], unwind=132)

# ---- signing ----
def SJ(name, entry, props, defs=(), **k):
    k.setdefault("unwind", 66)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    J(name, "sign.c", entry, props, defs=[AX, GOP2] + list(defs), **k)
GEN = ["generate_sei_nalu", "h26x_set_nal_uuid_type"]
def worst(*z):
    # most bytes a group can become, the bytes before it being two zeros in the worst case
    return [x + (x + 1) // 2 if x else 0 for x in z]
BQ = dict(kind="bounded", bound="groups of TLVs of the sizes of the job, any content")
for nm, z, ms, opt in (("h264", (3, 4, 2, 5), 2, []), ("h265", (3, 4, 2, 5), 2, ["-DCODEC=SV_CODEC_H265"]), ("small", (0, 1, 0, 1), 1, []), ("golden", (3, 4, 2, 5), 2, ["-DGOLDEN=1", "-DUGOLDEN=1"]), ("using_golden", (3, 4, 2, 5), 2, ["-DUGOLDEN=1"]),
                       ("fallback", (3, 9, 2, 5), 2, ["-DMAXPAY=35"]), ("no_fallback", (3, 9, 2, 5), 2, ["-DMAXPAY=36"]), ("hash64", (3, 4, 2, 5), 2, ["-DHS=64"]), ("vendor_only", (0, 4, 9, 5), 2, []), ("full", (3, 4, 2, 5), 2, ["-DQTOTAL=60"]),
                       ("s254", (30, 100, 35, 72), 30, []), ("s255", (30, 100, 36, 72), 30, []), ("s256", (30, 100, 37, 72), 30, ["-DCODEC=SV_CODEC_H265"]), ("s510", (130, 150, 37, 176), 30, []), ("s511", (130, 150, 38, 176), 30, [])):
    big = max(z) > 20
    SJ("generate_" + nm, "h_generate", ["C06", "C14"] if nm == "full" else ["C06"], ["-DSIZES=%d,%d,%d,%d" % z, "-DMSHORT=%d" % ms] + opt, contracts=GEN, unwind=190 if big else 132, cost=20 if big else 10, flags=["--max-field-sensitivity-array-size", "1100"], **BQ)
    if nm in ("h264", "h265", "small", "s254", "s511", "golden"):
        SJ("generate_%s_escaped" % nm, "h_generate", ["C06"], ["-DSIZES=%d,%d,%d,%d" % z, "-DWRITTEN=%d,%d,%d,%d" % tuple(worst(*z)), "-DMSHORT=%d" % ms] + opt, contracts=GEN, unwind=290 if big else 132, cost=20 if big else 10, flags=["--max-field-sensitivity-array-size", "1100"], **BQ)
for f in range(1, 7):
    SJ("generate_fail_%d" % f, "h_generate", ["C06", "C14"], ["-DFAIL=%d" % f], contracts=GEN, unwind=132)
for t, d in ((0, 0), (1, 0), (3, 1), (3, 2), (60, 0), (60, 59)):
  for z in (5, 0):
    SJ("complete_%d_%d%s" % (t, d, "" if z else "_unsigned"), "h_complete", ["C14", "C06"], ["-DQTOTAL=%d" % t, "-DQDONE=%d" % d, "-DSIGZ=%d" % z], contracts=["complete_sei_nalu_and_add_to_prepend", "get_sign_and_complete_sei_nalu", "shift_sei_buffer_at_index"])
for t, d in ((0, 0), (3, 1), (59, 7), (60, 60)):
    SJ("queue_add_%d" % t, "h_add_payload", ["C14"], ["-DQTOTAL=%d" % t, "-DQDONE=%d" % d], contracts=["add_payload_to_buffer", "free_sei_data_buffer"])
for t, d, n, o in ((0, 0, 0, []), (1, 0, 0, []), (1, 1, 0, []), (3, 2, 0, []), (3, 0, 1, []), (3, 0, 2, []), (3, 1, 1, []), (60, 60, 0, []), (2, 1, 0, ["-DQUERY"]), (2, 0, 1, ["-DQUERY"]), (2, 1, 1, ["-DSIGERR"])):
    SJ("get_sei_%d_%d_%d%s" % (t, d, n, "_" + o[0][2:].lower() if o else ""), "h_get_sei", ["C14"], ["-DQTOTAL=%d" % t, "-DQDONE=%d" % d, "-DNSIG=%d" % n] + o, contracts=["signed_video_get_sei", "get_signature_complete_sei_and_add_to_prepend", "complete_sei_nalu_and_add_to_prepend", "get_sign_and_complete_sei_nalu", "shift_sei_buffer_at_index"])
for t, d in ((2, 0), (2, 1), (3, 2), (2, 2)):
    SJ("get_prepend_%d_%d" % (t, d), "h_get_prepend", ["C14"], ["-DQTOTAL=%d" % t, "-DQDONE=%d" % d, "-DNSIG=0"], contracts=["signed_video_get_nalu_to_prepend", "get_latest_sei", "shift_sei_buffer_at_index"])
SA = ["signed_video_add_nalu_part_for_signing_with_timestamp", "prepare_for_nalus_to_prepend", "add_payload_to_buffer"] + GEN
def SADD(name, t, d, c, *o):
    SJ("sign_add_" + name, "h_add", ["C02", "C14", "C07", "C17"], ["-DQTOTAL=%d" % t, "-DQDONE=%d" % d] + (["-DCONT"] if c else []) + ["-D" + x for x in o], contracts=SA, kind="bounded", bound="NALU parts of 3 bytes")
for c, nm in ((0, "nalu"), (1, "part")):
    SADD(nm + "_end", 0, 0, c)
    SADD(nm + "_recur", 0, 0, c, "RECUR=3", "FIRST=0")
    SADD(nm + "_end_queue", 2, 1, c)
    SADD(nm + "_full", 60, 0, c)
    SADD(nm + "_start", 0, 0, c, "ENABLED=0")
    SADD(nm + "_first_part", 2, 0, c, "LAST=0")
    SADD(nm + "_other", 2, 1, c, "FIRST=0")
    SADD(nm + "_other_part", 2, 1, c, "FIRST=0", "LAST=0")
    SADD(nm + "_nokey", 1, 0, c, "KEY=0")
    for f in (1, 3, 5, 6, 7):
        SADD(nm + "_fail_%d" % f, 1, 0, c, "FAIL=%d" % f)
for nm, o in (("end", []), ("golden", ["-DMAKE_GOLDEN"])):
    for t, d, f, k in ((0, 0, 0, 1), (2, 0, 0, 1), (2, 2, 0, 1), (1, 1, 1, 1), (1, 0, 5, 1), (1, 0, 6, 1), (1, 0, 0, 0)):
        SJ("sign_%s_%d_%d_%d%s" % (nm, t, d, f, "" if k else "_nokey"), "h_extra", ["C14", "C06"] + (["C24"] if nm == "end" else []), ["-DQTOTAL=%d" % t, "-DQDONE=%d" % d, "-DNSIG=%d" % (t - d if k and not f else 0), "-DFAIL=%d" % f, "-DKEY=%d" % k] + o, contracts=["signed_video_set_end_of_stream", "signed_video_generate_golden_sei"] + GEN)
SJ("sign_end_empty", "h_extra", ["C14"], ["-DQTOTAL=0", "-DQDONE=0", "-DNSIG=0", "-DNINGOP=0"], contracts=["signed_video_set_end_of_stream"] + GEN)
SJ("sign_end_fail", "h_extra", ["C14"], ["-DQTOTAL=1", "-DQDONE=0", "-DNSIG=0", "-DFAIL=7"], contracts=["signed_video_set_end_of_stream"] + GEN)
SJ("get_prepend_nomem", "h_get_prepend", ["C14"], ["-DQTOTAL=2", "-DQDONE=1", "-DNSIG=0", "-DFAIL=1"], contracts=["signed_video_get_nalu_to_prepend"])
SJ("settings", "h_settings", ["C17"], contracts=["signed_video_set_authenticity_level", "signed_video_set_recurrence_interval_frames", "signed_video_set_sei_epb", "signed_video_add_public_key_to_sei", "signed_video_set_max_sei_payload_size", "signed_video_set_using_golden_sei", "signed_video_set_hash_algo", "signed_video_set_product_info", "signed_video_set_private_key_new"])
SJ("sign_params", "h_sign_params", ["C17"], contracts=["signed_video_add_nalu_for_signing", "signed_video_add_nalu_for_signing_with_timestamp", "signed_video_get_sei", "signed_video_set_end_of_stream", "signed_video_generate_golden_sei"])

# ---- OpenSSL wrapper ----
def OJ(name, entry, props, defs=(), **k):
    k.setdefault("unwind", 70)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    k.setdefault("assumes", ["OpenSSL functions behave as documented (contract stubs; every documented failure is considered)"])
    J(name, "openssl.c", entry, props, defs=[AX, GOP2] + list(defs), **k)
OJ("ossl_verify", "h_verify", ["C22", "C08"], contracts=["openssl_verify_hash"])
OJ("ossl_sign", "h_sign", ["C22", "C15"], contracts=["openssl_sign_hash"], kind="bounded", bound="signature memory of at most 9 bytes")
for i, f in enumerate(("openssl_hash_data", "openssl_init_hash", "openssl_update_hash", "openssl_finalize_hash")):
    for o in (1, 0):
        OJ("ossl_%s_%d" % (f[8:], o), "h_hash_ops", ["C22"] + (["C07"] if i != 3 else []), ["-DOP=%d" % i, "-DST_OID=%d" % o], contracts=[f])
for o in (1, 0):
    OJ("ossl_set_algo_%d" % o, "h_set_algo", ["C22"], ["-DST_OID=%d" % o], contracts=["openssl_set_hash_algo", "obj_to_oid_and_type", "openssl_get_hash_algo_encoded_oid", "openssl_get_hash_size"])
    for n in (3, 2, 4, 0):
        OJ("ossl_set_oid_%d_%d" % (o, n), "h_set_oid", ["C22"], ["-DST_OID=%d" % o, "-DNEWLEN=%d" % n], contracts=["openssl_set_hash_algo_by_encoded_oid", "oid_to_type"], kind="bounded", bound="OIDs of at most 4 bytes, any content")
OJ("ossl_handle", "h_handle", ["C22"], contracts=["openssl_create_handle", "openssl_free_handle"])
OJ("ossl_private_key", "h_private_key", ["C22", "C17"], contracts=["openssl_private_key_malloc"])
OJ("ossl_public_key", "h_public_key", ["C22", "C17"], contracts=["openssl_public_key_malloc"])
OJ("ossl_read_pubkey", "h_read_pubkey", ["C22", "C17"], contracts=["openssl_read_pubkey_from_private_key"])
for r in (0, 1):
    OJ("ossl_keygen_%d" % r, "h_keygen", ["C22"], ["-DRSAKEY=%d" % r, '-DDIR="d"'], contracts=["signed_video_generate_rsa_private_key" if r else "signed_video_generate_ecdsa_private_key", "write_private_key_to_file", "write_private_key_to_buffer"])
for i, d in enumerate(("", "a", "a/", "/", "ab/c")):
    OJ("ossl_path_%d" % i, "h_path", ["C22"], ['-DDIR="%s"' % d], contracts=["get_path_to_key"], kind="bounded", bound="directory names of at most 4 characters")
OJ("ossl_oid_str", "h_oid_str", ["C22", "C03"], contracts=["openssl_encoded_oid_to_str"])

# ---- unthreaded signing plugin ----
def UJ(name, entry, defs=(), **k):
    k.setdefault("unwind", 66)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    J(name, "unthreaded.c", entry, ["C15"], defs=list(defs), **k)
UF = ["sv_signing_plugin_sign", "unthreaded_openssl_sign_hash"]
UB = dict(kind="bounded", bound="signatures of at most 6 (one job 256) bytes, queue lengths of the jobs, any content")
for n, sl in ((0, 0), (0, 1), (1, 1), (3, 5), (58, 60), (59, 59), (60, 60)):
    UJ("plug_sign_%d_%d" % (n, sl), "h_sign", ["-DOUTIDX=%d" % n, "-DSLOTS=%d" % sl], contracts=UF, **UB)
UJ("plug_sign_full_size", "h_sign", ["-DOUTIDX=1", "-DSIGZ=6"], contracts=UF, **UB)
UJ("plug_sign_256", "h_sign", ["-DOUTIDX=1", "-DSIGZ=255", "-DMAXSIG=256", "-DHSZ=64"], contracts=UF, unwind=262, **UB)
UJ("plug_sign_empty", "h_sign", ["-DOUTIDX=1", "-DSIGZ=0"], contracts=UF, **UB)
UJ("plug_sign_nomem", "h_sign", ["-DOUTIDX=1", "-DNOMEM=1"], contracts=UF, **UB)
for n, sl, room in ((0, 0, 6), (0, 3, 6), (1, 1, 6), (1, 1, 1), (1, 1, 0), (3, 5, 6), (3, 3, 0), (60, 60, 6), (59, 60, 1)):
    UJ("plug_get_%d_%d_%d" % (n, sl, room), "h_get", ["-DOUTIDX=%d" % n, "-DSLOTS=%d" % sl, "-DROOM=%d" % room], contracts=["sv_signing_plugin_get_signature", "shift_out_buffer"], **UB)
for room in (255, 256):
    UJ("plug_get_256_%d" % room, "h_get", ["-DOUTIDX=2", "-DMAXSIG=256", "-DQSIZE(i)=(256-(i))", "-DROOM=%d" % room], contracts=["sv_signing_plugin_get_signature", "shift_out_buffer"], unwind=262, **UB)
UJ("plug_order", "h_order", [], contracts=UF + ["sv_signing_plugin_get_signature", "shift_out_buffer"], **UB)
for f in (0, 1, 2):
    UJ("plug_params_%d" % f, "h_params", ["-DOUTIDX=2", "-DBAD=%d" % f], contracts=["sv_signing_plugin_sign", "sv_signing_plugin_get_signature", "sv_signing_plugin_session_setup"], **UB)
for f in (0, 1, 2):
    UJ("plug_session_%d" % f, "h_session", ["-DNOMEM=%d" % f], contracts=["sv_signing_plugin_session_setup", "sv_signing_plugin_session_teardown", "out_buffer_teardown"], **UB)

# ---- threaded signing plugin ----
def PJ(name, entry, defs=(), **k):
    k.setdefault("unwind", 66)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    k.setdefault("assumes", ["glib mutexes, conditions and threads behave as documented (contract stubs); data races are excluded by ownership of the shared state by the lock holder, weak memory is not modelled"])
    k.setdefault("kind", "bounded")
    k.setdefault("bound", "hashes of 3 and signatures of at most 4 bytes, queue lengths and sessions of the jobs, any content")
    J(name, "threaded.c", entry, ["C16"], defs=["-I" + os.path.join(HARN, "glibstub")] + list(defs), **k)
def q(s):
    return '"%s"' % s
PS = ["sign_hash"]
for c in (0, 1):
    C = ["-DCENTRAL=%d" % c]
    i1, i3, i2 = ("1", "121", "12") if c else ("0", "000", "00")
    for nm, o in (("first", ["-DNOHASH=1"]), ("next", ["-DINIDS=" + q(i1)]), ("reuse", ["-DINIDS=" + q(i3), "-DINSLOTS=5", "-DOUTIDS=" + q(i2)]), ("stopped", ["-DRUNNING=0", "-DINIDS=" + q(i1)]), ("size", ["-DHSZ2=5", "-DINIDS=" + q(i1)]), ("size_small", ["-DHSZ2=2"]), ("size_reuse", ["-DHSZ2=5", "-DINIDS=" + q(i1), "-DINSLOTS=2"]),
                  ("nomem1", ["-DNOHASH=1", "-DNOMEM=1"]), ("nomem2", ["-DNOHASH=1", "-DNOMEM=2"]), ("last", ["-DINIDS=" + q(i1), "-DREPIN=58"]), ("full", ["-DINIDS=" + q(i1), "-DREPIN=59"])):
        PJ("tp_sign_%d_%s" % (c, nm), "h_sign", C + o, contracts=PS)
    for nm, o in (("none", []), ("one", ["-DOUTIDS=" + q(i1)]), ("three", ["-DOUTIDS=" + q(i3), "-DOUTSLOTS=5", "-DINIDS=" + q(i2)]), ("error", ["-DOUTIDS=" + q(i3), "-DERR0=1"]), ("small", ["-DOUTIDS=" + q(i3), "-DROOM=0"]), ("fits", ["-DOUTIDS=" + q(i3), "-DROOM=1"]), ("stopped", ["-DOUTIDS=" + q(i1), "-DRUNNING=0"]), ("full", ["-DOUTIDS=" + q(i1), "-DREPOUT=59"])) + ((("other", ["-DOUTIDS=" + q("21")]),) if c else ()):
        PJ("tp_get_%d_%s" % (c, nm), "h_get", C + o, contracts=["get_signature", "reset_signature_buffer"])
    for nm, o in (("none", ["-DNONE"]), ("one", ["-DINIDS=" + q(i1)]), ("reuse", ["-DINIDS=" + q(i1), "-DOUTIDS=" + q(i2), "-DOUTSLOTS=4", "-DINSLOTS=3"]), ("three", ["-DINIDS=" + q(i3), "-DOUTIDS=" + q(i2), "-DALSO_STOP"]), ("failed", ["-DINIDS=" + q(i1), "-DSIGNRC=1"]), ("stop", ["-DINIDS=" + q(i1), "-DINTERF=3"]), ("arrives", ["-DINIDS=" + q(i3), "-DINTERF=4"]),
                  ("fetched", ["-DINIDS=" + q(i2), "-DOUTIDS=" + q(i2), "-DINTERF=5", "-DALSO_STOP"]), ("nomem", ["-DINIDS=" + q(i2), "-DOUTIDS=" + q(i2), "-DNOMEM=1"]), ("full", ["-DINIDS=" + q(i3), "-DOUTIDS=" + q(i3), "-DINTERF=2", "-DALSO_STOP"])) + ((("ended", ["-DINIDS=" + q("1212"), "-DOUTIDS=" + q("2112"), "-DINTERF=1", "-DALSO_STOP"]),) if c else ()):
        PJ("tp_work_%d_%s" % (c, nm), "h_work", C + o + ["-DRUNNING=0"], contracts=["central_worker_thread", "is_active", "buffer_reset"] if c else ["local_worker_thread"])
for nm, o in (("empty", []), ("mixed", ["-DINIDS=" + q("1211"), "-DOUTIDS=" + q("2112")]), ("mixed2", ["-DINIDS=" + q("1211"), "-DOUTIDS=" + q("2112"), "-DMYID=2"]), ("all", ["-DINIDS=" + q("111"), "-DOUTIDS=" + q("11"), "-DINSLOTS=5"]), ("unknown", ["-DINIDS=" + q("12"), "-DOUTIDS=" + q("21"), "-DMYID=3"])):
    PJ("tp_teardown_" + nm, "h_reset", ["-DCENTRAL=1"] + o, contracts=["central_teardown", "buffer_reset", "delete_item"])
for nm, o in (("ok", []), ("stopped", ["-DRUNNING=0"]), ("nomem1", ["-DNOMEM=1"]), ("nomem2", ["-DNOMEM=2"])):
    PJ("tp_setup_" + nm, "h_setup", ["-DCENTRAL=1"] + o, contracts=["central_setup", "append_item", "is_active"])
for nm, o in (("ok", []), ("nokey", ["-DB1=1"]), ("busy", ["-DINSIGN=1"]), ("key", ["-DSIGNRC=1"]), ("thread", ["-DNOTHREAD=1"]), ("nomem1", ["-DNOMEM=1"]), ("nomem2", ["-DNOMEM=2"]), ("nomem3", ["-DNOMEM=3"]), ("nomem4", ["-DNOMEM=4"])):
    PJ("tp_local_" + nm, "h_local", o, contracts=["sv_signing_plugin_session_setup", "sv_signing_plugin_session_teardown", "local_setup", "local_teardown_locked", "free_plugin", "free_buffers"])
    if nm not in ("nomem4", "busy"):
        for i in (0, 1):
            PJ("tp_central%d_%s" % (i, nm), "h_central", o + ["-DCENTRAL=1", "-DNEWINIT=%d" % i], contracts=["sv_signing_plugin_init", "sv_signing_plugin_init_new", "sv_signing_plugin_exit", "sv_signing_plugin_session_setup", "sv_signing_plugin_session_teardown", "sign_data_create"])

# ---- Axis vendor code ----
def XJ(name, entry, props, defs=(), **k):
    k.setdefault("unwind", 80)
    k.setdefault("checks", "mem")
    k.setdefault("flags", ["--max-field-sensitivity-array-size", "600"])
    k.setdefault("assumes", ["OpenSSL functions behave as documented (contract stubs with arbitrary outcomes); strstr and sscanf(\"%2hhx\") of libc replaced by their definition"])
    J(name, "vendor.c", entry, props, defs=[AX, GOP2] + list(defs), **k)
XV = ["get_axis_communications_supplemental_authenticity", "verify_and_parse_certificate_chain", "verify_certificate_chain", "deserialize_attestation", "verify_axis_communications_public_key"]
XB = dict(kind="bounded", bound="attestation report and strings of the sizes of the jobs, any content")
for nm, o in (("good", ["-DGOOD"]), ("good_again", ["-DGOOD", "-DOLDCTX=1", "-DNCERT=1"]), ("size_95", ["-DATT=95", "-DGOOD"]), ("size_255", ["-DATT=255", "-DGOOD"]), ("size_24", ["-DATT=24", "-DGOOD"]), ("size_23", ["-DATT=23"]), ("size_1", ["-DATT=1"]), ("no_att", ["-DATT=0"]), ("sig_small", ["-DSIGSZ=6"]), ("sig_large", ["-DSIGSZ=8"]), ("sig_65535", ["-DSIGSZ=65535"]), ("sig_wrap", ["-DSIGSZ=(256+7)"]), ("two_items", ["-DNITEMS=2"]),
              ("unverified_0", ["-DRCV=0", "-DOLDCTX=1"]), ("unverified_m1", ["-DRCV=-1"]), ("unverified_2", ["-DRCV=2"]), ("no_chain", ["-DCHAIN=0"]), ("no_key", ["-DNOKEY=1"]), ("rsa", ["-DEC=0"]), ("no_cert", ["-DNCERT=0"]), ("three_certs", ["-DNCERT=3"]), ("four_certs", ["-DNCERT=4", "-DOLDCTX=1"]), ("uncomp_64", ["-DUNCOMP=64"]), ("uncomp_0", ["-DUNCOMP=0"]), ("uncomp_97", ["-DUNCOMP=97"]), ("nomem", ["-DNOMEM=1"]),
              ("cn_1", ["-DCNMODE=1"]), ("cn_2", ["-DCNMODE=2"]), ("cn_3", ["-DCNMODE=3"]), ("cn_4", ["-DCNMODE=4"]), ("ser_none", ["-DSERLEN=-1", "-DOLDCTX=1"]), ("ser_0", ["-DSERLEN=0"]), ("ser_19", ["-DSERLEN=19", "-DGOOD"]), ("ser_20", ["-DSERLEN=20"]), ("ser_40", ["-DSERLEN=40"])) + tuple(("fail_%d" % f, ["-DFAIL=%d" % f, "-DOLDCTX=%d" % (f % 2)]) for f in (1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14)):
    XJ("vendor_verdict_" + nm, "h_verdict", ["C19"], o, contracts=XV, unwind=260 if "255" in nm else 110, **XB)
for nm, o in (("ec", []), ("rsa", ["-DEC=0"]), ("nokey", ["-DFAIL=14"]), ("nogroup", ["-DFAIL=15"])):
    XJ("vendor_key_" + nm, "h_key", ["C19", "C18"], o, contracts=["set_axis_communications_public_key"])
for dn, da, sa_, sc_, m in ((0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (2, 0, 0, 0, 0), (2, 255, 0, 0, 0), (8, 3, 0, 0, 0), (5, 3, 0, 0, 0), (6, 3, 0, 0, 0), (8, 6, 0, 0, 0), (8, 255, 0, 0, 0), (8, 0, 0, 0, 0), (8, 3, 3, 3, 0), (8, 3, 3, 2, 0), (8, 3, 3, 4, 0), (8, 3, 2, 3, 0), (8, 3, 4, 3, 0), (8, 3, 3, 0, 0), (8, 3, 0, 0, 1), (8, 3, 0, 0, 2), (40, 30, 0, 0, 0), (260, 255, 0, 0, 0)):
    XJ("vendor_decode_%d_%d_%d_%d_%d" % (dn, da, sa_, sc_, m), "h_decode", ["C19", "C03"], ["-DDN=%d" % dn, "-DDA=%d" % da, "-DSA=%d" % sa_, "-DSC=%d" % sc_, "-DNOMEM=%d" % m], contracts=["decode_axis_communications_handle"], unwind=265 if dn > 100 else 80, **XB)
for nm, o in (("both", []), ("no_att", ["-DATT=0"]), ("no_chain", ["-DCHAIN=0"]), ("nothing", ["-DCHAIN=0", "-DATT=0"]), ("two", ['-DCERTS="-----BEGIN CERTIFICATE-----A-----BEGIN CERTIFICATE-----"', "-DUNTRUSTED=0"]), ("none", ['-DCERTS="x"', "-DUNTRUSTED=0"]), ("big", ["-DATT=255"])):
    XJ("vendor_encode_" + nm, "h_encode", ["C02", "C19"], o, contracts=["encode_axis_communications_handle", "get_untrusted_certificates_size"], unwind=330 if nm == "big" else 110, **XB)
for nm, o in (("both", []), ("newline", ['-DUC="ab\\n"']), ("att", ["-DUCPTR=0"]), ("chain", ["-DUA=0"]), ("none", ["-DUA=0", "-DUCPTR=0"]), ("att_mismatch", ["-DUA=0", "-DUAPTR=1"]), ("att_mismatch2", ["-DUA=2", "-DUAPTR=0"]), ("empty", ['-DUC=""']), ("has_att", ["-DSA=2"]), ("has_chain", ["-DSC=2"]), ("has_both", ["-DSA=2", "-DSC=2"]), ("att_later", ["-DSC=2", "-DUCPTR=0"]), ("chain_later", ["-DSA=2", "-DUA=0"]), ("nomem1", ["-DNOMEM=1"]), ("nomem2", ["-DNOMEM=2"])):
    XJ("vendor_report_" + nm, "h_report", ["C17", "C19"], o, contracts=["sv_vendor_axis_communications_set_attestation_report"], **XB)
for nm, o in (("ok", []), ("nobio", ["-DFAIL=6"]), ("noputs", ["-DFAIL=7"]), ("nocert", ["-DFAIL=8"]), ("nomem", ["-DNOMEM=1"])):
    XJ("vendor_handle_" + nm, "h_handle", ["C19", "C25"], o, contracts=["sv_vendor_axis_communications_setup", "sv_vendor_axis_communications_teardown"])


# ---- decoders of old streams ----
def LT(name, entry, props, defs=(), **k):
    k.setdefault("unwind", 60)
    k.setdefault("checks", "mem")
    k.setdefault("flags", FS)
    if name[:4] in ("dec_", "safe"): k["alt"], defs = "-DDIRECT", list(defs) + ["-DDIRECT"]
    J("legacy_" + name, "legacy_tlv.c", entry, props, defs=D + list(defs), srcs=["lib/src/signed_video_tlv.c"], **k)
LD = ["legacy_tlv_decode", "legacy_decode_tlv_header", "legacy_get_decoder", "legacy_get_tlv_tuple"]
for v, ts in ((1, 0), (2, 0), (2, 1)):
    LT("dec_general_v%d_ts%d" % (v, ts), "h_dec_general", ["C23"], ["-DGVER=%d" % v, "-DHAS_TS=%d" % ts], contracts=LD + ["legacy_decode_general"], unwind=140)
for n in ("signature", "hash_list", "arbitrary", "crypto"):
    for z in (0, 1, 8):
        if not (n == "crypto" and z == 0):
            LT("dec_%s_%d" % (n, z), "h_dec_" + n, ["C23"], ["-DNMAX=8", "-DN=%d" % z], contracts=LD + ["legacy_decode_" + n], kind="bounded", bound=B8)
for z, z2, o in ((5, 5, 0), (5, 3, 0), (3, 5, 0), (5, 5, 1)):
    LT("dec_public_key_%d_%d_%d" % (z, z2, o), "h_dec_public_key", ["C23", "C18"], ["-DNMAX=8", "-DN=%d" % z, "-DN2=%d" % z2, "-DOLDVER=%d" % o], contracts=LD + ["legacy_decode_public_key"], kind="bounded", bound=B8)
for i, l in enumerate(("3,0,-1,2,1", "2,2,2,2,2")):
    LT("dec_product_%d" % i, "h_dec_product", ["C23"], ["-DLENS=" + l], contracts=LD + ["legacy_decode_product_info", "legacy_decode_string"], kind="bounded", bound="string lengths " + l)
for z in (127, 128, 129, 132):
    LT("dec_hash_list_big_%d" % z, "h_dec_hash_list_big", ["C03"], ["-DN=%d" % z], contracts=["legacy_decode_hash_list"])
for t, n in ((1, "general"), (2, "public_key"), (3, "product"), (4, "hash_list"), (5, "signature"), (6, "arbitrary"), (7, "crypto"), (129, "vendor")):
    for z in {1: (1, 2, 3, 8, 12, 13, 20, 21, 29), 3: (1, 2, 3, 4, 5, 9, 11, 13)}.get(t, (1, 2, 3, 4, 5, 6, 8, 12, 16)):
        LT("safe_%s_%d" % (n, z), "h_safe_tag", ["C03"], ["-DTAG=%d" % t, "-DRSIZE=%d" % z, "-DSLOTMAX=16"], contracts=["legacy_tlv_decode", "legacy_decode_" + n], kind="bounded", bound="one TLV of selected sizes 1..29 bytes, any content", cost=z, unwind=20)
LDECS = ["legacy_" + x for x in DECS]
for z in (8, 13):
    LT("loop_decode_%d" % z, "h_loop_decode", ["C03"], ["-DRSIZE=%d" % z], contracts=LD, kind="bounded", bound="any data of 8 or 13 bytes", unwind=z // 3 + 3, calls=LDECS, rfp=True, internal=True)
    LT("loop_optional_%d" % z, "h_loop_optional", ["C03", "C23"], ["-DRSIZE=%d" % z], contracts=["legacy_tlv_find_and_decode_optional_tags"], kind="bounded", bound="any data of 8 or 13 bytes", unwind=z // 3 + 3, calls=LDECS, rfp=True, internal=True)
LT("tlv_params", "h_tlv_params", ["C03"], contracts=LD + ["legacy_tlv_find_and_decode_optional_tags"])

# ---- end of jobs ----
import loopjobs
loopjobs.add(J)

B = "Contracts are checked at stated sizes (payload lengths, list lengths); contents, outcomes and failures are symbolic. "
NOTES = {p: B for p in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C15", "C16", "C17", "C18", "C19", "C21", "C23")}
NOTES["C01"] = "Step lemma over all writer states and bytes is unbounded; that each encoder goes through the writer is checked at given payload lengths."
NOTES["C14"] = "Queue operations unbounded (the queue has a fixed size); completion of a SEI at given payload sizes."
NOTES["C16"] += "Interleavings at lock granularity through an invariant of the shared state (rely/guarantee); weak memory not modelled."
for p in ("C02", "C03", "C04", "C06", "C23"): NOTES[p] += "Decoders, encoders, parsing and TLV loops also for data of any size through loop contracts (any_* jobs, proved)."
NOTES["C01"] = "Step lemma over all writer states and bytes is unbounded; that each encoder writes through the writer is proved for any payload length with loop contracts, and the layout checked at given lengths."
LEVEL = {p: "model_checking" for p in NOTES if p not in ("C01", "C14")}
NA = {}
