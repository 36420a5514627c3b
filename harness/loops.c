/* Contracts on loops whose number of iterations depends on the input: proofs without a bound.
 *
 * The runner puts the loop contracts of the job (see jobs.py) behind the loop headers of a copy of
 * the current source (a suffix of the header, nothing else differs) and this harness includes that
 * copy.  Sizes are symbolic, memory has exactly the size the function is told, and its content is
 * arbitrary. */
#include "vf.h"
#include "signed_video_internal.h"
#include "signed_video_h26x_internal.h"
#include "signed_video_tlv.h"
#include "signed_video_openssl_internal.h"
#include "includes/signed_video_common.h"

struct vf_in {
  size_t n, m, k;
  int codec, tag;
  uint16_t last;
  size_t size[4], mshort;
  uint8_t rest;
  size_t len[5];
  bool trail : 1, auth : 1, ep : 1, has : 1;
} IN;

/* one gigabyte: far above any NALU (the level limits of the codecs), below the overflow of int */
#define HUGE ((size_t)1 << 30)

static const uint8_t *
any_bytes(size_t n)
{
  uint8_t *p = malloc(n);
  VF_ASSUME(p);
  return p;
}

#if defined(U_COMMON) || defined(U_LCOMMON)
#ifdef U_COMMON
#define FN(x) x
typedef h26x_nalu_t nalu_t;
#define PAYLOAD_SIZE h264_get_payload_size
#include "signed_video_h26x_common.c"
#include "signed_video_tlv.c"
#else
#include "legacy/legacy_internal.h"
#include "legacy/legacy_h26x_internal.h"
#include "legacy/legacy_tlv.h"
#define FN(x) legacy_##x
typedef legacy_h26x_nalu_t nalu_t;
#define PAYLOAD_SIZE legacy_get_payload_size
#include "legacy/legacy_h26x_common.c"
#include "signed_video_tlv.c"
#endif

void
h_any_payload_size(void)
{
  VF_INPUT();
#ifndef PSMAX
#define PSMAX HUGE
#endif
  VF_ASSUME(IN.n >= 1 && IN.n <= PSMAX);
  const uint8_t *p = any_bytes(IN.n);
  size_t size = 0;
  size_t r = PAYLOAD_SIZE(p, p + IN.n, &size);
  VF_CHECK(r <= IN.n, "not more bytes are read than there are");
  VF_CHECK(r == 0 ? size == (IN.n << 8) - IN.n : size == ((r - 1) << 8) - (r - 1) + p[r - 1], "the size is the sum of the bytes read");
  VF_CHECK(size <= IN.n << 8, "as used by the caller");
  VF_REACH(r == 0, "size bytes never end");
  VF_REACH(r > 100000, "very large size");
}

/* its contract */
size_t
vf_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *size)
{
  VF_CHECK(__CPROVER_same_object(data, data_end) && *size == 0, "the size is read from the NALU");
  size_t r, s;
  if (__CPROVER_POINTER_OFFSET(data) >= __CPROVER_POINTER_OFFSET(data_end)) return 0;
  const size_t left = __CPROVER_POINTER_OFFSET(data_end) - __CPROVER_POINTER_OFFSET(data);
  VF_ASSUME(r <= left && s <= left << 8);
  *size = s;
  return r;
}
void
h_any_nalu(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= HUGE);
  VF_ASSUME(IN.codec == SV_CODEC_H264 || IN.codec == SV_CODEC_H265);
  const uint8_t *p = any_bytes(IN.n);
  nalu_t n = FN(parse_nalu_info)(p, IN.n, IN.codec, IN.trail, IN.auth);
  VF_CHECK(n.nalu_data == p && n.nalu_data_size == IN.n, "the parsed NALU refers to the input");
  VF_CHECK(n.is_valid >= -1 && n.is_valid <= 1, "validity is one of valid, invalid, error");
  if (!n.nalu_data_wo_epb || n.hashable_data != n.nalu_data_wo_epb)
    VF_CHECK(__CPROVER_same_object(n.hashable_data, p) && __CPROVER_POINTER_OFFSET(n.hashable_data) + n.hashable_data_size <= IN.n, "hashable data within the NALU");
  VF_CHECK(!n.is_gop_sei || n.nalu_type == NALU_TYPE_SEI, "only SEIs are signed SEIs");
  VF_CHECK(!n.is_golden_sei || n.is_gop_sei, "only signed SEIs are golden");
  if (n.is_hashable && n.is_gop_sei && n.is_valid > 0) {
    VF_CHECK(n.tlv_data && __CPROVER_r_ok(n.tlv_data, n.tlv_size), "every byte of the TLV part can be read");
    VF_CHECK(__CPROVER_r_ok(n.hashable_data, n.hashable_data_size), "every byte of the hashable part can be read");
  }
  VF_REACH(n.is_valid == 1 && n.nalu_type == NALU_TYPE_I && n.hashable_data_size > 1000000, "large picture");
  VF_REACH(n.is_gop_sei && n.tlv_size > 100000, "large signed SEI");
  VF_REACH(n.nalu_data_wo_epb != NULL && n.hashable_data == n.nalu_data_wo_epb, "with emulation prevention");
}
#endif

#if defined(U_TLV) || defined(U_LTLV)
/* ghost state of the writer: number of logical bytes, and the one at position IN.m */
static size_t w_cnt;
static uint8_t w_rec;
/* ghost state of the readers: end of the value decoded last */
static const uint8_t *d_base;
static size_t d_end;
static uint8_t x_hdr[5];
static const uint8_t *oid;
size_t
vf_strlen(const char *s);
static int
vf_memcmp(const void *a, const void *b, size_t n);
#ifndef SEG
#define SEG 0
#endif
#define memcmp vf_memcmp
#ifdef GENERAL
void *
vf_memcpy(void *dst, const void *src, size_t n);
#define memcpy vf_memcpy
#endif
#ifdef U_TLV
#define strlen vf_strlen
#endif
#ifdef U_TLV
#define FN(x) x
typedef signed_video_t sess_t;
typedef gop_info_t gopinfo_t;
#define decoder_t sv_tlv_decoder_t
#include "signed_video_tlv.c"
#else  // streams signed by versions before 2.0
#include "legacy/legacy_internal.h"
#include "legacy/legacy_h26x_internal.h"
#include "legacy/legacy_tlv.h"
#define FN(x) legacy_##x
typedef legacy_sv_t sess_t;
typedef legacy_gop_info_t gopinfo_t;
#define decoder_t legacy_sv_tlv_decoder_t
#include "legacy/legacy_tlv.c"
#endif

static sess_t sv;
static gopinfo_t gi;
static sign_or_verify_data_t sd, vd;

#ifdef U_TLV
/* contract of write_byte() (tlv_bytes.c) without emulation prevention: one byte, in the memory given */
void
vf_write_byte(uint16_t *last_two_bytes, uint8_t **data, uint8_t b, bool epb)
{
  VF_CHECK(last_two_bytes == &sv.last_two_bytes && !epb, "the writer state of the session is used");
  VF_CHECK(__CPROVER_w_ok(*data, 1), "the byte is written in the memory given");
  if (w_cnt == IN.m) w_rec = b;
  w_cnt++;
  (*data)++;
}

const unsigned char *
openssl_get_hash_algo_encoded_oid(void *h, size_t *n)
{
  *n = IN.n;
  return oid;
}
/* ---- readers: any TLV data of any size ---- */
/* any number of bytes for the length: what is skipped need not be known to stay within the data */
sv_tlv_tuple_t
vf_get_tlv_tuple(sv_tlv_tag_t tag)
{
  sv_tlv_tuple_t any;
  return any;
}
/* contract of read_byte_before() (h_any_read_byte_before) */
static const uint8_t *f_end;
bool
vf_read_byte_before(uint16_t *last_two_bytes, const uint8_t **data, const uint8_t *data_end, bool ep, uint8_t *byte)
{
  VF_CHECK(data_end == f_end && __CPROVER_same_object(*data, f_end) && __CPROVER_POINTER_OFFSET(*data) <= __CPROVER_POINTER_OFFSET(f_end), "bytes of the data are read");
  VF_CHECK(ep == IN.ep, "with or without emulation prevention");
  size_t left = __CPROVER_POINTER_OFFSET(f_end) - __CPROVER_POINTER_OFFSET(*data);
  size_t step;
  uint8_t b;
  uint16_t l;
  bool ok;
  VF_ASSUME(step == 1 || (ep && step == 2));
  if (!ok || left < step) return false;
  *data += step;
  *byte = b;
  *last_two_bytes = l;
  return true;
}
void
h_any_read_byte_before(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n <= HUGE && IN.m <= IN.n);
  const uint8_t *p = any_bytes(IN.n);
  const uint8_t *q = p + IN.m;
  uint16_t last = IN.last;
  uint8_t b = 0;
  bool r = read_byte_before(&last, &q, p + IN.n, IN.ep, &b);
  const bool epb = IN.m < IN.n && IN.ep && p[IN.m] == 3 && IN.last == 0;
  VF_CHECK(r == (IN.n - IN.m > epb), "a byte is read if there is one");
  if (r) VF_CHECK(q == p + IN.m + 1 + epb && b == p[IN.m + epb] && last == (uint16_t)(((epb ? 3 : IN.last) << 8) | b), "the next byte, without emulation prevention");
  else VF_CHECK(q == p + IN.m, "otherwise nothing is read");
  VF_REACH(r && epb, "emulation prevention");
  VF_REACH(!r && epb, "at the end");
  VF_REACH(!r && !epb, "after the end");
}
void
h_any_find_tag(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= HUGE);
  const uint8_t *p = any_bytes(IN.n);
  f_end = p + IN.n;
  const uint8_t *r = tlv_find_tag(p, IN.n, IN.tag, IN.ep);
  VF_CHECK(!r || (__CPROVER_same_object(r, p) && __CPROVER_POINTER_OFFSET(r) < IN.n), "the tag is found in the data");
  VF_REACH(r, "found");
  VF_REACH(!r, "not found");
}

#endif
/* contract of decode_tlv_header() (h_any_tlv_header) */
svrc_t
vf_decode_tlv_header(const uint8_t *data, size_t data_size, size_t *read, sv_tlv_tag_t *tag, size_t *length)
{
  VF_CHECK(__CPROVER_same_object(data, d_base) && __CPROVER_POINTER_OFFSET(data) + data_size == IN.n && data_size > 0, "the header is read from the data left");
  svrc_t rc;
  size_t r, l;
  sv_tlv_tag_t t;
  *read = r;
  *tag = t;
  *length = l;
  VF_ASSUME(rc != SV_OK || ((r == 2 || r == 3) && l > 0 && l <= 0xFFFF && r + l <= data_size && ((t > UNDEFINED_TAG && t < NUMBER_OF_TLV_TAGS) || (t > UNDEFINED_VENDOR_TAG && t < NUMBER_OF_VENDOR_TLV_TAGS))));
  return rc;
}
void
h_any_tlv_header(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= HUGE);
  const uint8_t *p = any_bytes(IN.n);
  size_t r = IN.m, l = 0;
  sv_tlv_tag_t t = UNDEFINED_TAG;
  svrc_t rc = FN(decode_tlv_header)(p, IN.n, &r, &t, &l);
  if (rc == SV_OK) {
    VF_CHECK((t > UNDEFINED_TAG && t < NUMBER_OF_TLV_TAGS) || (t > UNDEFINED_VENDOR_TAG && t < NUMBER_OF_VENDOR_TLV_TAGS), "a known tag");
    VF_CHECK(t == p[0] && (r == 2 || r == 3) && l > 0, "tag and size of the header");
    VF_CHECK(r <= IN.n && l <= IN.n - r, "the value is within the data");
    VF_CHECK(l == (r == 2 ? p[1] : ((size_t)p[1] << 8 | p[2])), "the length");
  }
  VF_REACH(rc == SV_OK && l > 60000, "long");
  VF_REACH(rc == SV_OK && r == 2, "short");
  VF_REACH(rc != SV_OK && IN.n > 100, "refused");
}
svrc_t
vf_decoder(sess_t *self, const uint8_t *data, size_t data_size)
{
  VF_CHECK(self == &sv, "session");
  VF_CHECK(data_size > 0 && __CPROVER_same_object(data, d_base) && __CPROVER_POINTER_OFFSET(data) + data_size <= IN.n, "a decoder gets a value within the data");
  VF_CHECK(__CPROVER_POINTER_OFFSET(data) >= d_end + 2, "values do not overlap");
  d_end = __CPROVER_POINTER_OFFSET(data) + data_size;
  svrc_t nondet;
  return nondet;
}
decoder_t
vf_get_decoder(sv_tlv_tag_t tag)
{
  VF_CHECK((tag > UNDEFINED_TAG && tag < NUMBER_OF_TLV_TAGS) || (tag > UNDEFINED_VENDOR_TAG && tag < NUMBER_OF_VENDOR_TLV_TAGS), "there is a decoder for the tag");
  return vf_decoder;
}
void
h_any_decode(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= HUGE);
  const uint8_t *p = any_bytes(IN.n);
  d_base = p;
  d_end = 0;
  svrc_t rc = FN(tlv_decode)(&sv, p, IN.n);
  VF_CHECK(rc != SV_OK || d_end == IN.n, "all data is decoded");
  VF_REACH(rc == SV_OK && IN.n > 100000, "decoded");
  VF_REACH(rc != SV_OK, "not decoded");
}
void
h_any_optional(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= HUGE);
  const uint8_t *p = any_bytes(IN.n);
  d_base = p;
  d_end = 0;
  bool r = FN(tlv_find_and_decode_optional_tags)(&sv, p, IN.n);
  VF_CHECK(!r || d_end > 0, "something was decoded");
  VF_REACH(r, "decoded");
  VF_REACH(!r, "not decoded");
}

#ifdef U_TLV
/* ---- writers: a payload of any size ---- */
#define ENC(f, hdr)                                                                                \
  w_cnt = 0;                                                                                       \
  sv.sei_epb = false;                                                                              \
  size_t size = f(&sv, NULL);                                                                      \
  VF_CHECK(w_cnt == 0, "asking for the size writes nothing");                                      \
  VF_CHECK(size == (hdr), "the size");                                                             \
  uint8_t *out = malloc(size);                                                                     \
  VF_ASSUME(out);                                                                                  \
  VF_ASSUME(IN.m < size);                                                                          \
  size_t r = f(&sv, out);                                                                          \
  VF_CHECK(r == size && w_cnt == size, "the size computed is the size written");
void
h_any_enc_arbitrary(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= HUGE);
  sv.arbitrary_data = (uint8_t *)any_bytes(IN.n);
  sv.arbitrary_data_size = IN.n;
  ENC(encode_arbitrary_data, IN.n + 1)
  VF_CHECK(w_rec == (IN.m == 0 ? 1 : sv.arbitrary_data[IN.m - 1]), "version and data, byte by byte");
  VF_REACH(IN.m > 1000, "large");
}
void
h_any_enc_public_key(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= HUGE);
  sv.pem_public_key.key = (void *)any_bytes(IN.n);
  sv.pem_public_key.key_size = IN.n;
  sv.add_public_key_to_sei = true;
  ENC(encode_public_key, IN.n + 1)
  VF_CHECK(w_rec == (IN.m == 0 ? 2 : ((uint8_t *)sv.pem_public_key.key)[IN.m - 1]), "version and key, byte by byte");
  VF_REACH(IN.m > 1000, "large");
}
void
h_any_enc_hash_list(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= HASH_LIST_SIZE);
  sv.gop_info = &gi;
  gi.list_idx = (int)IN.n;
  sv.authenticity_level = SV_AUTHENTICITY_LEVEL_FRAME;
  ENC(encode_hash_list, IN.n + 1)
  VF_CHECK(w_rec == (IN.m == 0 ? 1 : gi.hash_list[IN.m - 1]), "version and hashes, byte by byte");
  VF_CHECK(gi.signature_hash_type == DOCUMENT_HASH, "the document is signed");
  VF_REACH(IN.m == HASH_LIST_SIZE, "full list");
}
void
h_any_enc_signature(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= 0xFFFF - 5 && IN.k <= IN.n);
  sv.gop_info = &gi;
  sv.sign_data = &sd;
  sd.signature = (uint8_t *)any_bytes(IN.n);
  sd.max_signature_size = IN.n;
  sd.signature_size = IN.k;
  x_hdr[0] = 1;
  x_hdr[1] = gi.encoding_status;
  x_hdr[2] = (uint8_t)gi.signature_hash_type;
  x_hdr[3] = (uint8_t)(IN.k >> 8);
  x_hdr[4] = (uint8_t)IN.k;
  ENC(encode_signature, IN.n + 5)
  VF_CHECK(w_rec == (IN.m < 5 ? x_hdr[IN.m] : IN.m - 5 < IN.k ? sd.signature[IN.m - 5] : 1), "version, status, type, size, signature and stuffing, byte by byte");
  VF_REACH(IN.m > 1000 && IN.m - 5 < IN.k, "signature");
  VF_REACH(IN.m > 1000 && IN.m - 5 > IN.k, "stuffing");
}

void
h_any_enc_crypto(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= 255);
  oid = any_bytes(IN.n);
  ENC(encode_crypto_info, IN.n + 2)
  VF_CHECK(w_rec == (IN.m == 0 ? 1 : IN.m == 1 ? IN.n : oid[IN.m - 2]), "version, size and OID, byte by byte");
  VF_REACH(IN.m > 100, "large");
}
void
h_any_write_many(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n <= HUGE && IN.m < IN.n);
  uint8_t *src = (uint8_t *)any_bytes(IN.n), *out = (uint8_t *)any_bytes(IN.n), *p = out;
  w_cnt = 0;
  write_byte_many(&p, (char *)src, IN.n, &sv.last_two_bytes, false);
  VF_CHECK(w_cnt == IN.n && p == out + IN.n && w_rec == src[IN.m], "every byte is written once and in order");
  VF_REACH(IN.m > 1000, "large");
}
/* its contract */
void
vf_write_byte_many(uint8_t **dst, char *src, size_t size, uint16_t *last_two_bytes, bool epb)
{
  VF_CHECK(last_two_bytes == &sv.last_two_bytes && !epb, "the writer state of the session is used");
  if (!src || size == 0) return;
  VF_CHECK(size <= HUGE && __CPROVER_r_ok(src, size), "the bytes exist");
  VF_CHECK(__CPROVER_w_ok(*dst, size), "the bytes are written in the memory given");
  if (IN.m >= w_cnt && IN.m - w_cnt < size) w_rec = (uint8_t)src[IN.m - w_cnt];
  w_cnt += size;
  *dst += size;
}
static const char *str[5];
size_t
vf_strlen(const char *s)
{
  VF_CHECK(s, "a string");
  for (int i = 0; i < 5; i++)
    if (str[i] && s == str[i]) return IN.len[i];
  VF_CHECK(false, "a string of the product");
  return 0;
}
void
h_any_enc_product(void)
{
  VF_INPUT();
  static signed_video_product_info_t pi;
  size_t z[5], off[6];
  off[0] = 1;
  for (int i = 0; i < 5; i++) {
    VF_ASSUME(IN.len[i] <= HUGE);
    str[i] = i != SEG ? NULL : (const char *)any_bytes(IN.len[i] + 1);
    if (str[i]) VF_ASSUME(str[i][IN.len[i]] == 0);
    z[i] = !str[i] ? 1 : IN.len[i] + 1 > 255 ? 255 : IN.len[i] + 1;
    off[i + 1] = off[i] + 1 + z[i];
  }
  pi.hardware_id = (char *)str[0];
  pi.firmware_version = (char *)str[1];
  pi.serial_number = (char *)str[2];
  pi.manufacturer = (char *)str[3];
  pi.address = (char *)str[4];
  sv.product_info = &pi;
  ENC(encode_product_info, off[5])
  if (IN.m == 0) VF_CHECK(w_rec == 1, "the version");
  for (int i = 0; i < 5; i++) {
    if (IN.m == off[i]) VF_CHECK(w_rec == z[i], "the size of a string");
    if (IN.m > off[i] && IN.m < off[i] + z[i]) VF_CHECK(w_rec == (uint8_t)str[i][IN.m - off[i] - 1], "a string, byte by byte");
    if (IN.m == off[i] + z[i]) VF_CHECK(w_rec == 0, "a string ends");
  }
  VF_REACH(IN.len[SEG] > 1000 && IN.m == off[SEG] + 200, "long string");
  VF_REACH(IN.len[SEG] == 254, "longest string that fits");
}
#endif

/* ---- decoders: a value of any size a TLV can have (h_any_tlv_header) ---- */
#define VAL(min)                                                                                   \
  VF_ASSUME(IN.n >= (min) && IN.n <= 0xFFFF && IN.m < IN.n);                                       \
  const uint8_t *p = any_bytes(IN.n);
void
h_any_dec_arbitrary(void)
{
  VF_INPUT();
  VAL(1)
  sv.arbitrary_data = IN.has ? (uint8_t *)any_bytes(IN.k) : NULL;
  sv.arbitrary_data_size = IN.has ? IN.k : 0;
  VF_ASSUME(IN.k >= 1 && IN.k <= 0xFFFF);
  svrc_t rc = FN(decode_arbitrary_data)(&sv, p, IN.n);
  if (rc == SV_OK) {
    VF_CHECK(p[0] != 0 && IN.n > 1 && sv.arbitrary_data_size == IN.n - 1, "the size");
    VF_CHECK(__CPROVER_OBJECT_SIZE(sv.arbitrary_data) == IN.n - 1, "memory of that size");
    VF_CHECK(IN.m == 0 || sv.arbitrary_data[IN.m - 1] == p[IN.m], "the data, byte by byte");
  } else {
    VF_CHECK(!sv.arbitrary_data && sv.arbitrary_data_size == 0, "no data");
  }
  VF_REACH(rc == SV_OK && IN.n > 50000, "large");
  VF_REACH(rc != SV_OK, "refused");
}
void
h_any_dec_hash_list(void)
{
  VF_INPUT();
  VAL(1)
  sv.gop_info = &gi;
  gi.list_idx = 77;
  svrc_t rc = FN(decode_hash_list)(&sv, p, IN.n);
  VF_CHECK((rc == SV_OK) == (p[0] != 0 && IN.n - 1 <= HASH_LIST_SIZE), "a list that fits is accepted");
  VF_CHECK(gi.list_idx == (rc == SV_OK ? (int)IN.n - 1 : 77), "the size");
  if (rc == SV_OK && IN.m > 0) VF_CHECK(gi.hash_list[IN.m - 1] == p[IN.m], "the hashes, byte by byte");
  VF_REACH(rc == SV_OK && IN.n == HASH_LIST_SIZE + 1, "full list");
  VF_REACH(rc != SV_OK && p[0], "too large");
}
void
h_any_dec_signature(void)
{
  VF_INPUT();
  VAL(1)
  sv.gop_info = &gi;
  sv.verify_data = &vd;
  VF_ASSUME(IN.k >= 1 && IN.k <= 0xFFFF);
  vd.signature = IN.has ? (uint8_t *)any_bytes(IN.k) : NULL;
  vd.max_signature_size = IN.has ? IN.k : 0;
  vd.signature_size = 0;
  svrc_t rc = FN(decode_signature)(&sv, p, IN.n);
  if (rc == SV_OK) {
    const size_t s = (size_t)p[3] << 8 | p[4];
    VF_CHECK(IN.n >= 5 && p[0] && p[2] < NUM_HASH_TYPES && s <= IN.n - 5, "version, hash type and size are valid");
    VF_CHECK(vd.signature_size == s && vd.max_signature_size == IN.n - 5, "the sizes");
    VF_CHECK(gi.encoding_status == p[1] && gi.signature_hash_type == p[2], "status and type");
    VF_CHECK(IN.m < 5 || vd.signature[IN.m - 5] == p[IN.m], "the signature, byte by byte");
  }
  VF_CHECK(vd.signature_size <= vd.max_signature_size, "a signature fits its memory");
  VF_CHECK(!vd.signature || vd.max_signature_size <= __CPROVER_OBJECT_SIZE(vd.signature), "the memory is as large as it is said to be");
  VF_REACH(rc == SV_OK && IN.n > 50000, "large");
  VF_REACH(rc == SV_OK && IN.has, "again");
  VF_REACH(rc != SV_OK, "refused");
}
svrc_t
openssl_public_key_malloc(sign_or_verify_data_t *d, pem_pkey_t *k)
{
  VF_CHECK(d == &vd && k == &sv.pem_public_key && k->key && k->key_size > 0 && __CPROVER_r_ok(k->key, k->key_size), "the key is a whole one");
  svrc_t rc;
  return rc;
}
svrc_t
set_axis_communications_public_key(void *h, const void *k, bool chg)
{
  svrc_t rc;
  return rc;
}
static int
vf_memcmp(const void *a, const void *b, size_t n)
{
  VF_CHECK(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "compared memory is readable");
  int r;
  return r;
}
void
h_any_dec_public_key(void)
{
  VF_INPUT();
  VAL(1)
  static signed_video_product_info_t pi;
  static signed_video_latest_validation_t lv;
  pi.manufacturer = NULL;
  sv.verify_data = &vd;
  sv.product_info = &pi;
  sv.latest_validation = &lv;
  VF_ASSUME(IN.k >= 1 && IN.k <= 0xFFFF);
  sv.pem_public_key.key = IN.has ? (void *)any_bytes(IN.k) : NULL;
  sv.pem_public_key.key_size = IN.has ? IN.k : 0;
  svrc_t rc = FN(decode_public_key)(&sv, p, IN.n);
  const size_t h = p[0] < 2 ? 2 : 1;
  if (rc == SV_OK) {
    VF_CHECK(p[0] != 0 && IN.n > h && sv.pem_public_key.key_size == IN.n - h && sv.has_public_key, "the size");
    VF_CHECK(IN.m < h || ((uint8_t *)sv.pem_public_key.key)[IN.m - h] == p[IN.m], "the key, byte by byte");
  }
  VF_CHECK(sv.pem_public_key.key_size == 0 || (sv.pem_public_key.key && sv.pem_public_key.key_size <= __CPROVER_OBJECT_SIZE(sv.pem_public_key.key)), "a key has the size it is said to have, even without memory");
  VF_REACH(rc == SV_OK && IN.n > 50000, "large");
  VF_REACH(rc != SV_OK, "refused");
}
#ifdef GENERAL
#undef memcpy
/* the hashes: within the data, and of a size that fits (their bytes: dec_general_* in tlv.c) */
void *
vf_memcpy(void *dst, const void *src, size_t n)
{
  VF_CHECK(__CPROVER_r_ok(src, n), "the hash is within the data");
  VF_CHECK((dst == sv.received_linked_hash || dst == sv.received_gop_hash) && n <= MAX_HASH_SIZE, "and fits its memory");
  return dst;
}
#endif
void
bytes_to_version_str(const int *arr, char *s)
{
}
void
h_any_dec_general(void)
{
  VF_INPUT();
  VAL(1)
  static signed_video_latest_validation_t lv;
  sv.gop_info = &gi;
  sv.authenticity = NULL;
  sv.latest_validation = IN.has ? &lv : NULL;
  svrc_t rc = FN(decode_general)(&sv, p, IN.n);
  if (rc == SV_OK) {
    VF_CHECK(p[0] >= 1 && p[0] <= 3 && IN.n >= 10, "version and size are valid");
    VF_CHECK(gi.global_gop_counter == ((uint32_t)p[1] << 24 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 8 | p[4]), "the counter");
    VF_CHECK(gi.num_sent_nalus == ((uint32_t)p[5] << 8 | p[6]), "the number of NALUs");
    VF_CHECK(p[0] < 2 || (gi.has_timestamp == (p[10] & 1) && IN.n >= (gi.has_timestamp ? 19 : 11)), "the timestamp");
#ifdef U_TLV
    if (p[0] == 3) {
      const size_t o = gi.has_timestamp ? 19 : 11;
      const size_t hs = (IN.n - o) / 2;
      VF_CHECK(hs <= MAX_HASH_SIZE && IN.n == o + 2 * hs, "two hashes");
    }
#endif
  }
  VF_REACH(rc == SV_OK && p[0] == 2 && gi.has_timestamp, "with a timestamp");
  VF_REACH(rc == SV_OK && p[0] == 1, "version 1");
#ifdef U_TLV
  VF_REACH(rc == SV_OK && p[0] == 3 && IN.n == 147, "large");
#endif
  VF_REACH(rc != SV_OK && p[0] == 2, "refused");
}
char *
openssl_encoded_oid_to_str(const unsigned char *o, size_t n)
{
  VF_CHECK(n == 0 || __CPROVER_r_ok(o, n), "the OID is within the data");
  return NULL;
}
svrc_t
openssl_set_hash_algo_by_encoded_oid(void *h, const unsigned char *o, size_t n)
{
  VF_CHECK(n > 0 && __CPROVER_r_ok(o, n), "the OID is within the data");
  svrc_t rc;
  return rc;
}
size_t
openssl_get_hash_size(void *h)
{
  return 32;
}
void
h_any_dec_crypto(void)
{
  VF_INPUT();
  VAL(1)
  sv.gop_info = &gi;
  sv.verify_data = &vd;
  svrc_t rc = FN(decode_crypto_info)(&sv, p, IN.n);
  if (rc == SV_OK) VF_CHECK(p[0] != 0 && IN.n > 2 && IN.n == 2 + (size_t)p[1], "the OID is the rest of the data");
#ifdef U_TLV
  if (rc == SV_OK) VF_CHECK(sv.validation_flags.hash_algo_known, "the hash algorithm is known");
#endif
  VF_REACH(rc == SV_OK, "known");
  VF_REACH(rc != SV_OK, "refused");
}
/* ---- strings of the product ---- */
static const uint8_t *s_p;
svrc_t
vf_copy_string(char **dst, const char *src)
{
  VF_CHECK(__CPROVER_same_object(src, s_p), "a string of the data");
  const uint8_t *s = (const uint8_t *)src;
  VF_CHECK(s[-1] > 0 && __CPROVER_r_ok(s, s[-1]) && s[s[-1] - 1] == 0, "which ends within the data");
  svrc_t rc;
  return rc;
}
void
h_any_dec_string(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= HUGE && IN.m <= IN.n);
  const uint8_t *p = any_bytes(IN.n);
  const uint8_t *q = p + IN.m;
  char *str = NULL;
  s_p = p;
  svrc_t rc = FN(decode_string)(&q, p + IN.n, &str);
  VF_CHECK(q == p + IN.m || (IN.m < IN.n && q == p + IN.m + 1 + p[IN.m] && IN.m + 1 + p[IN.m] <= IN.n), "at most the string is read");
  VF_CHECK(rc != SV_OK || q > p + IN.m, "a string is read");
  VF_REACH(rc == SV_OK, "read");
  VF_REACH(rc != SV_OK, "refused");
}
#endif

#ifdef U_SIGN
#include "signed_video_authenticity.h"
#include "includes/signed_video_sign.h"
#include "includes/signed_video_signing_plugin.h"
/* ghost state of the writer: logical bytes of header and size field, the one at position IN.m;
 * logical and raw bytes of the TLVs so far, and where they start */
static size_t w_cnt, w_logical, w_raw, w_start;
static uint8_t w_rec;
static uint8_t x_hdr[3];
static uint8_t *s_payload;
#define HDR (CODEC == 0 ? 2u : 3u)  // H.264, H.265
static void *
vf_sign_malloc(size_t n);
#define malloc vf_sign_malloc
#include "signed_video_h26x_sign.c"
#undef malloc
const uint8_t kUuidSignedVideo[UUID_LEN] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};
static signed_video_t sv;
static gop_info_t gi;
static sign_or_verify_data_t sd;
static const sv_tlv_tag_t opt_tags[2], mand_tags[2], vend_tags[1];

void
write_byte(uint16_t *last_two_bytes, uint8_t **data, uint8_t b, bool epb)
{
  VF_CHECK(last_two_bytes == &sv.last_two_bytes, "the writer state of the session is used");
  VF_CHECK(__CPROVER_w_ok(*data, 1), "the byte is written in the memory allocated");
  if (w_cnt == IN.m) w_rec = b;
  w_cnt++;
  (*data)++;
}
const sv_tlv_tag_t *
get_optional_tags(size_t *n)
{
  *n = 2;
  return opt_tags;
}
const sv_tlv_tag_t *
get_mandatory_tags(size_t *n)
{
  *n = 2;
  return mand_tags;
}
size_t
tlv_list_encode_or_get_size(signed_video_t *self, const sv_tlv_tag_t *tags, size_t n, uint8_t *data)
{
  int g = tags == opt_tags ? 0 : tags == mand_tags ? 1 : tags == vend_tags ? 2 : 3;
  VF_CHECK(g != 3 || (n == 1 && tags[0] == SIGNATURE_TAG), "TLV groups");
  const size_t z = g == 1 && gi.list_idx < 0 ? IN.mshort : IN.size[g];
  if (!data) return z;
  size_t w;
  bool fail;
  if (z == 0 || fail) return 0;
  w_logical += z;
  /* escape_credit (tlv_bytes.c): at most one emulation prevention byte per two bytes */
  VF_ASSUME(w >= z && w <= ((size_t)1 << 40) && w_raw + w <= w_logical + w_logical / 2);
  VF_CHECK(__CPROVER_same_object(data, s_payload) && __CPROVER_POINTER_OFFSET(data) == w_start + w_raw, "a group follows the one before");
  VF_CHECK(__CPROVER_w_ok(data, w), "a group is written in the memory allocated");
  w_raw += w;
  return w;
}
h26x_nalu_t
parse_nalu_info(const uint8_t *data, size_t n, SignedVideoCodec codec, bool trailing, bool auth)
{
  VF_CHECK(data == s_payload && n == w_start + w_raw, "the SEI so far is parsed");
  h26x_nalu_t r = {0};
  return r;
}
svrc_t
hash_and_add(signed_video_t *self, const h26x_nalu_t *nalu)
{
  svrc_t rc;
  return rc;
}
svrc_t
sv_signing_plugin_sign(void *h, const uint8_t *hash, size_t n)
{
  svrc_t rc;
  return rc;
}
static void *
vf_sign_malloc(size_t n)
{
  s_payload = malloc(n);
  return s_payload;
}
void
h_any_generate(void)
{
  VF_INPUT();
  for (int g = 0; g < 4; g++) VF_ASSUME(IN.size[g] <= ((size_t)1 << LG));
  VF_ASSUME(IN.mshort <= IN.size[1]);
  sv.sign_data = &sd;
  sv.gop_info = &gi;
  sd.hash = gi.hash_list;
  sd.hash_size = 32;
  gi.nalu_hash = gi.hashes;
  sv.codec = CODEC;
  sv.vendor_encoders = vend_tags;
  sv.num_vendor_encoders = 1;
  sv.is_golden_sei = false;
  sv.using_golden_sei = false;
  sv.max_sei_payload_size = 0;
  gi.list_idx = 1;
  sv.sei_data_buffer_idx = 0;
  w_cnt = w_logical = w_raw = 0;
  w_start = 4 + HDR + IN.k + 1 + 16 + 1;
  const size_t total = IN.size[0] + IN.size[1] + IN.size[2] + IN.size[3] + 17;
  /* the size field: k bytes of 255 and the rest */
  VF_ASSUME(IN.k <= ((size_t)1 << LG) && IN.rest < 255 && ((IN.k << 8) - IN.k) + IN.rest == total);
  VF_ASSUME(IN.m < HDR + IN.k + 1);
  x_hdr[0] = CODEC == SV_CODEC_H264 ? 0x06 : 0x4E;
  x_hdr[1] = CODEC == SV_CODEC_H264 ? 0x05 : 0x01;
  x_hdr[2] = 0x05;
  uint8_t *payload = NULL, *sig = NULL;
  svrc_t rc = generate_sei_nalu(&sv, &payload, &sig);
  if (rc == SV_OK) {
    VF_CHECK(payload == s_payload && __CPROVER_same_object(sig, payload) && __CPROVER_POINTER_OFFSET(sig) == w_start + w_raw, "the signature follows");
    VF_CHECK(w_cnt == HDR + IN.k + 1 + 16, "header, type, size and UUID");
    VF_CHECK(w_rec == (IN.m < HDR ? x_hdr[IN.m] : IN.m < HDR + IN.k ? 0xFF : IN.rest), "the size is that of the payload");
    const size_t l = total - 17;
    VF_CHECK(__CPROVER_OBJECT_SIZE(payload) >= w_start + l + l / 2 + 1, "signature and stop byte fit, however many emulation prevention bytes there are");
  } else {
    VF_CHECK(!payload && !sig, "nothing without success");
  }
  VF_REACH(rc == SV_OK && IN.k > 1000, "large");
  VF_REACH(rc == SV_OK && IN.rest == 254, "rest");
  VF_REACH(rc != SV_OK, "failure");
}
#endif

#ifdef U_VENDOR
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include "axis-communications/sv_vendor_axis_communications_internal.h"
static size_t w_cnt, c_len;
static uint8_t w_rec;
static int
vf_memcmp(const void *a, const void *b, size_t n);
static size_t
vf_strlen(const char *s);
#define memcmp vf_memcmp
#define strlen vf_strlen
#include "axis-communications/sv_vendor_axis_communications.c"
#undef memcmp
#undef strlen
static struct _sv_vendor_axis_communications_t vh;
static uint16_t ltb;
static int
vf_memcmp(const void *a, const void *b, size_t n)
{
  VF_CHECK(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "compared memory is readable");
  int r;
  return r;
}
/* any length of the certificates, ended within their memory */
static size_t
vf_strlen(const char *s)
{
  VF_CHECK(s == vh.certificate_chain && s, "the certificates");
  const size_t z = __CPROVER_OBJECT_SIZE(s);
  VF_CHECK(s[z - 1] == 0, "they end within their memory");
  size_t r;
  VF_ASSUME(r < z);
  return r;
}
void
write_byte(uint16_t *last_two_bytes, uint8_t **data, uint8_t b, bool epb)
{
  VF_CHECK(last_two_bytes == &ltb && epb == IN.ep, "the writer state given is used");
  VF_CHECK(__CPROVER_w_ok(*data, 1), "the byte is written in the memory given");
  if (w_cnt == IN.m) w_rec = b;
  w_cnt++;
  (*data)++;
}
void
write_byte_many(uint8_t **dst, char *src, size_t size, uint16_t *last_two_bytes, bool epb)
{
  VF_CHECK(last_two_bytes == &ltb && epb == IN.ep, "the writer state given is used");
  if (!src || size == 0) return;
  VF_CHECK(__CPROVER_r_ok(src, size), "the bytes exist");
  VF_CHECK(__CPROVER_w_ok(*dst, size), "the bytes are written in the memory given");
  if (IN.m >= w_cnt && IN.m - w_cnt < size) w_rec = (uint8_t)src[IN.m - w_cnt];
  w_cnt += size;
  *dst += size;
}
size_t
vf_untrusted_size(const sv_vendor_axis_communications_t *self)
{
  return IN.k;
}
void
h_any_enc_vendor(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= 255 && IN.k >= 1 && IN.k <= HUGE);
  vh.attestation = (void *)any_bytes(IN.n);
  vh.attestation_size = (uint8_t)IN.n;
  vh.certificate_chain = (char *)any_bytes(IN.k + 1);
  w_cnt = 0;
  size_t size = encode_axis_communications_handle(&vh, &ltb, IN.ep, NULL);
  VF_CHECK(w_cnt == 0 && size == 2 + IN.n + IN.k, "the size");
  uint8_t *out = (uint8_t *)any_bytes(size);
  VF_ASSUME(IN.m < size);
  size_t r = encode_axis_communications_handle(&vh, &ltb, IN.ep, out);
  VF_CHECK(r == size && w_cnt == size, "the size computed is the size written");
  VF_CHECK(w_rec == (IN.m == 0 ? 1 : IN.m == 1 ? IN.n : IN.m < 2 + IN.n ? ((uint8_t *)vh.attestation)[IN.m - 2] : (uint8_t)vh.certificate_chain[IN.m - 2 - IN.n]), "version, attestation and certificates, byte by byte");
  VF_REACH(IN.m > 1000, "large");
}
void
h_any_dec_vendor(void)
{
  VF_INPUT();
  VF_ASSUME(IN.n >= 1 && IN.n <= 0xFFFF && IN.m < IN.n && IN.k >= 1 && IN.k <= 255 && IN.len[0] <= 0xFFFF);
  const uint8_t *p = any_bytes(IN.n);
  vh.attestation = IN.has ? (void *)any_bytes(IN.k) : NULL;
  vh.attestation_size = IN.has ? (uint8_t)IN.k : 0;
  vh.certificate_chain = IN.trail ? (char *)any_bytes(IN.len[0] + 1) : NULL;
  if (IN.trail) VF_ASSUME(vh.certificate_chain[IN.len[0]] == 0);
  svrc_t rc = decode_axis_communications_handle(&vh, p, IN.n);
  if (rc == SV_OK) {
    VF_CHECK(p[0] == 1 && p[1] > 0 && IN.n > 2 + (size_t)p[1] && vh.attestation_size == p[1] && vh.certificate_chain, "attestation and certificates");
    if (!IN.has && IN.m >= 2 && IN.m < 2 + (size_t)p[1]) VF_CHECK(((uint8_t *)vh.attestation)[IN.m - 2] == p[IN.m], "the attestation, byte by byte");
    if (!IN.trail && IN.m >= 2 + (size_t)p[1]) VF_CHECK((uint8_t)vh.certificate_chain[IN.m - 2 - p[1]] == p[IN.m], "the certificates, byte by byte");
  }
  VF_CHECK(!vh.attestation || vh.attestation_size <= __CPROVER_OBJECT_SIZE(vh.attestation), "the attestation has the size it is said to have");
  VF_REACH(rc == SV_OK && IN.n > 10000 && !IN.has && !IN.trail, "large");
  VF_REACH(rc == SV_OK && IN.has && IN.trail, "again");
  VF_REACH(rc != SV_OK && p[0] == 1, "refused");
}
#endif
