"""Jobs with loop contracts: no bound on the number of iterations or the size of the input."""
SRC = "loops.c"
AX = "-DSV_VENDOR_AXIS_COMMUNICATIONS"
C = "signed_video_h26x_common.c"
T = "signed_video_tlv.c"
S = "signed_video_h26x_sign.c"
ASM = ["loop contract jobs: inputs of at most 2^30 bytes (allocations of a size the C standard allows); the contract is put behind the loop header of a copy of the current source"]

PS = (C, "h264_get_payload_size", 0, """
  __CPROVER_assigns(data_ptr, *payload_size)
  __CPROVER_loop_invariant(__CPROVER_same_object(data_ptr, data) &&
    __CPROVER_POINTER_OFFSET(data_ptr) >= __CPROVER_POINTER_OFFSET(data) &&
    __CPROVER_POINTER_OFFSET(data_ptr) <= __CPROVER_POINTER_OFFSET(data_end) &&
    *payload_size == ((size_t)(__CPROVER_POINTER_OFFSET(data_ptr) - __CPROVER_POINTER_OFFSET(data)) << 8) - (size_t)(__CPROVER_POINTER_OFFSET(data_ptr) - __CPROVER_POINTER_OFFSET(data)))
  __CPROVER_decreases(__CPROVER_POINTER_OFFSET(data_end) - __CPROVER_POINTER_OFFSET(data_ptr))""")
EPB = (C, "remove_epb_from_sei_payload", 0, """
  __CPROVER_assigns(i, hashable_data_ptr, last_two_bytes, __CPROVER_object_whole(nalu->nalu_data_wo_epb))
  __CPROVER_loop_invariant(i <= data_size && __CPROVER_same_object(hashable_data_ptr, data_end) &&
    __CPROVER_POINTER_OFFSET(hashable_data_ptr) >= __CPROVER_POINTER_OFFSET(nalu->hashable_data) &&
    __CPROVER_POINTER_OFFSET(hashable_data_ptr) <= __CPROVER_POINTER_OFFSET(data_end))
  __CPROVER_decreases(data_size - i)""")
TZ = (C, "parse_nalu_info", 0, """
  __CPROVER_assigns(nalu_data_size)
  __CPROVER_loop_invariant(nalu_data_size >= read_bytes && nalu_data_size <= nalu.nalu_data_size)
  __CPROVER_decreases(nalu_data_size)""")

RANGE = """__CPROVER_same_object(%(p)s, %(b)s) && __CPROVER_POINTER_OFFSET(%(p)s) >= __CPROVER_POINTER_OFFSET(%(b)s) &&
    __CPROVER_POINTER_OFFSET(%(p)s) <= __CPROVER_POINTER_OFFSET(%(b)s) + %(n)s"""
FT = RANGE % {"p": "tlv_data_ptr", "b": "tlv_data", "n": "tlv_data_size"}
FIND0 = (T, "tlv_find_tag", 0, """
  __CPROVER_assigns(tlv_data_ptr, latest_tag_location, last_two_bytes, byte)
  __CPROVER_loop_invariant(""" + FT + """)
  __CPROVER_decreases(tlv_data_size - __CPROVER_POINTER_OFFSET(tlv_data_ptr))""")
FIND1 = (T, "tlv_find_tag", 1, """
  __CPROVER_assigns(i, tlv_data_ptr, last_two_bytes, byte)
  __CPROVER_loop_invariant(i >= 0 && i <= length && """ + FT + """ &&
    __CPROVER_POINTER_OFFSET(tlv_data_ptr) > __CPROVER_POINTER_OFFSET(latest_tag_location))
  __CPROVER_decreases(length - i)""")
DEC = (T, "tlv_decode", 0, """
  __CPROVER_assigns(data_ptr, status, d_end)
  __CPROVER_loop_invariant(""" + RANGE % {"p": "data_ptr", "b": "data", "n": "data_size"} + """ &&
    d_end == __CPROVER_POINTER_OFFSET(data_ptr) && (d_end == 0 || status == SV_OK))
  __CPROVER_decreases(data_size - __CPROVER_POINTER_OFFSET(data_ptr))""")
OPT = (T, "tlv_find_and_decode_optional_tags", 0, """
  __CPROVER_assigns(tlv_data_ptr, status, optional_tags_decoded, d_end)
  __CPROVER_loop_invariant(""" + FT + """ && d_end <= __CPROVER_POINTER_OFFSET(tlv_data_ptr) && (!optional_tags_decoded || d_end > 0))
  __CPROVER_decreases(tlv_data_size - __CPROVER_POINTER_OFFSET(tlv_data_ptr))""")

OOM = ["--malloc-may-fail", "--malloc-fail-null"]  # memory may run out


def enc(fn, nth, var, arr, n, hdr, pre):
    """bytes |hdr|.. of the value are those of |arr|; |pre| describes the bytes before"""
    return (T, fn, nth, """
  __CPROVER_assigns(%(v)s, data_ptr, w_cnt, w_rec)
  __CPROVER_loop_invariant(%(v)s <= %(n)s && w_cnt == %(h)d + %(v)s && __CPROVER_same_object(data_ptr, data) &&
    __CPROVER_POINTER_OFFSET(data_ptr) == w_cnt && (IN.m >= %(h)d || (%(pre)s)) &&
    (IN.m < %(h)d || IN.m >= w_cnt || w_rec == %(a)s[IN.m - %(h)d]))
  __CPROVER_decreases(%(n)s - %(v)s)""" % {"v": var, "n": n, "h": hdr, "a": arr, "pre": pre})


def add(J):
    def L(name, entry, props, sec, loops, contracts, D=(), **k):
        k.setdefault("checks", "mem")
        k.setdefault("unwind", 20)
        J("any_" + name, SRC, entry, props, defs=[AX, "-DMAX_GOP_LENGTH=2", "-D" + sec] + list(D), loops=loops, contracts=contracts, internal=True, assumes=ASM, **k)
    L("payload_size", "h_any_payload_size", ["C04"], "U_COMMON", [PS], ["h264_get_payload_size"])
    L("nalu", "h_any_nalu", ["C04"], "U_COMMON", [EPB, TZ], ["parse_nalu_info", "remove_epb_from_sei_payload"], calls=["h264_get_payload_size:vf_payload_size"], cost=150)
    LC = "legacy/legacy_h26x_common.c"
    L("old_payload_size", "h_any_payload_size", ["C04", "C23"], "U_LCOMMON", [(LC, "legacy_get_payload_size", 0, PS[3])], ["legacy_get_payload_size"])
    L("old_nalu", "h_any_nalu", ["C04", "C23"], "U_LCOMMON", [(LC, "legacy_remove_epb_from_sei_payload", 0, EPB[3]), (LC, "legacy_parse_nalu_info", 0, TZ[3])], ["legacy_parse_nalu_info", "legacy_remove_epb_from_sei_payload"], calls=["legacy_get_payload_size:vf_payload_size"], cost=150)
    LT = "legacy/legacy_tlv.c"
    LH = ["legacy_get_decoder:vf_get_decoder", "legacy_decode_tlv_header:vf_decode_tlv_header"]
    L("old_decode", "h_any_decode", ["C03", "C23"], "U_LTLV", [(LT, "legacy_tlv_decode", 0, DEC[3])], ["legacy_tlv_decode"], calls=LH)
    L("old_optional", "h_any_optional", ["C03", "C23"], "U_LTLV", [(LT, "legacy_tlv_find_and_decode_optional_tags", 0, OPT[3])], ["legacy_tlv_find_and_decode_optional_tags"], calls=LH)
    L("old_tlv_header", "h_any_tlv_header", ["C03", "C23"], "U_LTLV", [], ["legacy_decode_tlv_header"], srcs=["lib/src/signed_video_tlv.c"])
    for n in ("arbitrary", "hash_list", "signature", "public_key"):
        L("old_dec_" + n, "h_any_dec_" + n, ["C23", "C03"], "U_LTLV", [], ["legacy_decode_" + n + ("_data" if n == "arbitrary" else "")], flags=OOM, srcs=["lib/src/signed_video_tlv.c"] if n == "signature" else [])
    L("old_dec_string", "h_any_dec_string", ["C03"], "U_LTLV", [], ["legacy_decode_string"], calls=["allocate_memory_and_copy_string:vf_copy_string"], flags=OOM)
    RB = ["write_byte:vf_write_byte"]
    L("find_tag", "h_any_find_tag", ["C03"], "U_TLV", [FIND0, FIND1], ["tlv_find_tag"], unwind=30, calls=["read_byte_before:vf_read_byte_before", "get_tlv_tuple:vf_get_tlv_tuple"])
    L("read_byte_before", "h_any_read_byte_before", ["C03"], "U_TLV", [], ["read_byte_before", "read_byte"])
    L("decode", "h_any_decode", ["C03"], "U_TLV", [DEC], ["tlv_decode"], calls=["get_decoder:vf_get_decoder", "decode_tlv_header:vf_decode_tlv_header"])
    L("optional", "h_any_optional", ["C03"], "U_TLV", [OPT], ["tlv_find_and_decode_optional_tags"], calls=["get_decoder:vf_get_decoder", "decode_tlv_header:vf_decode_tlv_header"])
    L("enc_arbitrary", "h_any_enc_arbitrary", ["C01", "C02"], "U_TLV", [enc("encode_arbitrary_data", 0, "ii", "self->arbitrary_data", "self->arbitrary_data_size", 1, "w_rec == 1")], ["encode_arbitrary_data"], calls=RB)
    L("enc_public_key", "h_any_enc_public_key", ["C01", "C02"], "U_TLV", [enc("encode_public_key", 0, "ii", "public_key", "pem_public_key->key_size", 1, "w_rec == 2")], ["encode_public_key"], calls=RB)
    L("tlv_header", "h_any_tlv_header", ["C03"], "U_TLV", [], ["decode_tlv_header", "read_16bits"])
    HL = enc("encode_hash_list", 0, "i", "gop_info->hash_list", "gop_info->list_idx", 1, "w_rec == 1")
    HL = HL[:3] + (HL[3].replace("loop_invariant(", "loop_invariant(i >= 0 && "),)
    L("enc_hash_list", "h_any_enc_hash_list", ["C01", "C02"], "U_TLV", [HL], ["encode_hash_list"], calls=RB)
    SG = enc("encode_signature", 0, "i", "sign_data->signature", "signature_size", 5, "w_rec == x_hdr[IN.m]")
    SG2 = (T, "encode_signature", 1, """
  __CPROVER_assigns(i, data_ptr, w_cnt, w_rec)
  __CPROVER_loop_invariant(i >= signature_size && i <= sign_data->max_signature_size && w_cnt == 5 + i && __CPROVER_same_object(data_ptr, data) &&
    __CPROVER_POINTER_OFFSET(data_ptr) == w_cnt && (IN.m >= w_cnt || w_rec == (IN.m < 5 ? x_hdr[IN.m] : IN.m - 5 < signature_size ? sign_data->signature[IN.m - 5] : 1)))
  __CPROVER_decreases(sign_data->max_signature_size - i)""")
    L("enc_signature", "h_any_enc_signature", ["C01", "C02"], "U_TLV", [SG, SG2], ["encode_signature"], calls=RB)
    for n in ("arbitrary", "hash_list", "signature", "public_key"):
        L("dec_" + n, "h_any_dec_" + n, ["C02", "C03"], "U_TLV", [], ["decode_" + n + ("_data" if n == "arbitrary" else "")], flags=OOM)
    L("dec_string", "h_any_dec_string", ["C03"], "U_TLV", [], ["decode_string"], calls=["allocate_memory_and_copy_string:vf_copy_string"], flags=OOM)
    PSZ = (S, "generate_sei_nalu", 0, """
  __CPROVER_assigns(size_left, payload_ptr, w_cnt, w_rec)
  __CPROVER_loop_invariant(size_left <= payload_size && w_cnt >= HDR && payload_size == size_left + ((w_cnt - HDR) << 8) - (w_cnt - HDR) &&
    __CPROVER_same_object(payload_ptr, *payload) && __CPROVER_POINTER_OFFSET(payload_ptr) == 4 + w_cnt &&
    (IN.m >= HDR || w_rec == x_hdr[IN.m]) && (IN.m < HDR || IN.m >= w_cnt || w_rec == 0xFF))
  __CPROVER_decreases(size_left)""")
    for c in (0, 1):
        J("any_generate_%d" % c, SRC, "h_any_generate", ["C06"], defs=[AX, "-DMAX_GOP_LENGTH=2", "-DU_SIGN", "-DLG=16", "-DCODEC=%d" % c], loops=[PSZ], contracts=["generate_sei_nalu"], internal=True, assumes=ASM, checks="mem", unwind=20,
          flags=OOM, solver=["--sat-solver", "cadical"], cost=150)
    L("enc_crypto", "h_any_enc_crypto", ["C01", "C02"], "U_TLV", [enc("encode_crypto_info", 0, "ii", "hash_algo_encoded_oid", "hash_algo_encoded_oid_size", 2, "w_rec == (IN.m == 0 ? 1 : IN.n)")], ["encode_crypto_info"], calls=RB)
    L("write_many", "h_any_write_many", ["C01"], "U_TLV", [(T, "write_byte_many", 0, """
  __CPROVER_assigns(ii, *dst, w_cnt, w_rec)
  __CPROVER_loop_invariant(ii <= size && w_cnt == ii && __CPROVER_same_object(*dst, __CPROVER_loop_entry(*dst)) && __CPROVER_POINTER_OFFSET(*dst) == ii &&
    (IN.m >= w_cnt || w_rec == (uint8_t)src[IN.m]))
  __CPROVER_decreases(size - ii)""")], ["write_byte_many"], calls=RB)
    for i in range(5):
        L("enc_product_%d" % i, "h_any_enc_product", ["C01", "C02"], "U_TLV", [], ["encode_product_info"], D=["-DSEG=%d" % i], calls=RB + ["write_byte_many:vf_write_byte_many"])
    for o, s in (("", "U_TLV"), ("old_", "U_LTLV")):
        L(o + "dec_general", "h_any_dec_general", ["C23" if o else "C02", "C03"], s, [], ["legacy_" * bool(o) + "decode_general"], D=["-DGENERAL"] * (not o), srcs=["lib/src/signed_video_tlv.c"] if o else [])
        L(o + "dec_crypto", "h_any_dec_crypto", ["C03"] + ["C23"] * bool(o), s, [], ["legacy_" * bool(o) + "decode_crypto_info"])
    V = "axis-communications/sv_vendor_axis_communications.c"
    L("enc_vendor", "h_any_enc_vendor", ["C01", "C02"], "U_VENDOR", [(V,) + enc("encode_axis_communications_handle", 0, "jj", "attestation", "self->attestation_size", 2, "w_rec == (IN.m == 0 ? 1 : IN.n)")[1:]],
      ["encode_axis_communications_handle"], calls=["get_untrusted_certificates_size:vf_untrusted_size"])
    L("dec_vendor", "h_any_dec_vendor", ["C02", "C03"], "U_VENDOR", [], ["decode_axis_communications_handle"], flags=OOM)
