/* Contracts on legacy/legacy_h26x_common.c: NALU parsing, hashing, session state of old streams. */
#include "vf.h"
#include "signed_video_internal.h"
#include "signed_video_h26x_internal.h"
#include "legacy/legacy_h26x_internal.h"
#include "legacy/legacy_h26x_nalu_list.h"
#include "legacy/legacy_internal.h"
#include "legacy_validation.h"
#include "signed_video_tlv.h"
#include "signed_video_openssl_internal.h"
#include "includes/signed_video_common.h"

#ifndef N
#define N 8
#endif
#ifndef RAWMAX
#define RAWMAX 64
#endif
#ifndef CODEC
#define CODEC IN.codec
#endif
#ifndef SC
#define SC 0
#endif
#ifndef TRAIL
#define TRAIL (IN.trail)
#endif
#ifndef GC_HS
#define GC_HS 32
#endif
#define HSZ GC_HS
#include "ghost_crypto.h"

struct vf_in {
  uint8_t raw[RAWMAX];
  int codec;
  uint8_t flags[24];
  struct gc_in gc;
  uint8_t ref[64];
  uint8_t lst[256];
  uint8_t linked[128];
  int list_idx;
  size_t list_size;
  uint16_t num;
  char v1[12], v2[12];
  int n1[3], n2[3];
  size_t sz;
  uint8_t member[12], data8;
  int is_valid;
  uint32_t counter;
  int vsh;
  int rc;
  bool trail : 1, auth : 1, has_ref : 1, first : 1, gop_sei : 1, hashable : 1, first_in_gop : 1, after_next : 1, algo_known : 1, second : 1, auth_started : 1;
} IN;

#ifdef VF_CBMC
static int vf_sscanf(const char *s, const char *f, ...) { (void)s; (void)f; return 3; }
#define sscanf vf_sscanf
#endif
#include "legacy/legacy_h26x_common.c"
#include "signed_video_tlv.c"

/* the input lies at the end of its memory: reading one byte too much is out of bounds */
static uint8_t raw_mem[RAWMAX];
static uint8_t *
put(size_t n)
{
  uint8_t *p = &raw_mem[RAWMAX - n];
  for (size_t i = 0; i < n; i++) p[i] = IN.raw[i];
  return p;
}

/* the UUID of the feature, as published (README.md) */
#define spec_uuid kUuidSignedVideo  /* defined by the sessions, see common.c */
const uint8_t kUuidSignedVideo[UUID_LEN] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};

/* ---- specification of the NALU header (ITU-T H.264 table 7-1, H.265 table 7-1) ---- */
static const uint8_t spec_h264[32] = {0, 3, 6, 6, 6, 2, 1, 4, 4, 5, 6, 6, 6, 4, 0, 4};
static const uint8_t spec_h265[64] = {3, 3, 6, 6, 6, 6, 6, 6, 6, 6, 0, 0, 0, 0, 0, 0, 2, 2, 2, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 4, 4, 5, 6, 6, 6, 1, 1};

static bool
in_range(const uint8_t *p, const uint8_t *lo, size_t n)
{
  return p >= lo && p <= lo + n;
}

/* Any bytes, any size: in bounds (checked on every access), and a consistent description. */
void
h_parse_safe(void)
{
  VF_INPUT();
  uint8_t *p = put(N);
  VF_ASSUME(IN.codec >= -1 && IN.codec <= 2);
  bool ok_codec = CODEC == SV_CODEC_H264 || CODEC == SV_CODEC_H265;
  legacy_h26x_nalu_t n = legacy_parse_nalu_info(p, N, CODEC, TRAIL, IN.auth);
  VF_CHECK(n.nalu_data == p && n.nalu_data_size == N, "the parsed NALU refers to the input");
  VF_CHECK(n.is_valid >= -1 && n.is_valid <= 1, "validity is one of valid, invalid, error");
  VF_CHECK(ok_codec || (n.is_valid == -1 && !n.is_hashable), "unknown codec is an error");
  if (ok_codec) {
    const uint8_t *own = n.nalu_data_wo_epb;
    if (own && n.hashable_data == own) {
      VF_CHECK(n.nalu_type == NALU_TYPE_SEI && n.is_gop_sei, "only signed SEIs are copied");
    } else {
      VF_CHECK(in_range(n.hashable_data, p, N) && n.hashable_data_size <= (size_t)(p + N - n.hashable_data), "hashable data within the NALU");
    }
    VF_CHECK(!n.is_gop_sei || n.nalu_type == NALU_TYPE_SEI, "only SEIs are signed SEIs");
    VF_CHECK(!n.is_golden_sei || n.is_gop_sei, "only signed SEIs are golden");
    if (n.is_hashable && n.is_gop_sei && n.is_valid > 0) {
      VF_CHECK(n.tlv_data != NULL, "TLV data present");
      /* every byte of the TLV part can be read */
#ifdef TOUCH
      uint8_t x = 0;
      for (size_t i = 0; i < TOUCH; i++)
        if (i < n.tlv_size) x ^= n.tlv_data[i];
      VF_CHECK(n.tlv_size <= TOUCH, "TLV size within the NALU");
      if (n.hashable_data_size) x ^= n.hashable_data[n.hashable_data_size - 1];
#endif
      if (!n.nalu_data_wo_epb) VF_CHECK(in_range(n.tlv_data, p, N) && n.tlv_size <= (size_t)(p + N - n.tlv_data), "TLV data within the NALU");
    }
  }
  VF_REACH(ok_codec && n.is_valid == 1, "valid NALU");
  VF_REACH(n.is_valid <= 0, "invalid NALU");
#if N >= 24
  VF_REACH(n.is_gop_sei, "signed SEI");
#endif
  free(n.nalu_data_wo_epb);
}

/* Classification: the type is a function of the header alone, whatever framing is used. */
void
h_parse_class(void)
{
  VF_INPUT();
  /* SC bytes of start code, then N-SC bytes */
#if SC == 3
  IN.raw[0] = 0, IN.raw[1] = 0, IN.raw[2] = 1;
#elif SC == 4
  IN.raw[0] = 0, IN.raw[1] = 0, IN.raw[2] = 0, IN.raw[3] = 1;
#endif
  uint8_t *p = put(N);
  const uint8_t *d = p + SC;
  const size_t dn = N - SC;
#if SC == 0
  /* no start code present */
  VF_ASSUME(!(N >= 3 && d[0] == 0 && d[1] == 0 && d[2] == 1));
  VF_ASSUME(!(N >= 4 && d[0] == 0 && d[1] == 0 && d[2] == 0 && d[3] == 1));
#endif
  legacy_h26x_nalu_t n = legacy_parse_nalu_info(p, N, CODEC, TRAIL, IN.auth);
  const size_t hl = CODEC == SV_CODEC_H264 ? 1 : 2;
  VF_CHECK(n.hashable_data == d || n.hashable_data == n.nalu_data_wo_epb, "hashing starts after the start code");
  VF_CHECK(n.start_code == (SC ? 1 : 0), "start code reported");
  VF_CHECK(n.is_first_nalu_part && n.is_last_nalu_part, "parsed as complete");
  if (dn < hl) {
    VF_CHECK(n.is_valid <= 0 && !n.is_hashable, "too short is not valid");
  } else {
    uint8_t type, valid = 0;
    bool forbidden = d[0] & 0x80;
    if (CODEC == SV_CODEC_H264) {
      uint8_t t = d[0] & 0x1f, ref = (d[0] >> 5) & 3;
      type = spec_h264[t];
      valid = type != 0;
      if (t == 5 || t == 7 || t == 8 || t == 13 || t == 15) valid = ref != 0;
      if (t == 6 || (t >= 10 && t <= 12)) valid = ref == 0;
    } else {
      uint8_t t = (d[0] >> 1) & 0x3f, tid1 = d[1] & 7, layer = ((d[0] & 1) << 5) | (d[1] >> 3);
      type = tid1 ? spec_h265[t] : 0;
      valid = type != 0;
      if (t == 2 || t == 3 || (t >= 6 && t <= 9)) valid = tid1 != 1;
      if (t == 4 || t == 5) valid = layer || tid1 != 1;
      if ((t >= 16 && t <= 21) || t == 32 || t == 33) valid = tid1 == 1;
      if (t == 36 || t == 37) valid = tid1 == 1 && layer == 0;
      if (!tid1) valid = 0;
    }
    if (forbidden) valid = 0;
    VF_CHECK((uint8_t)n.nalu_type == type, "NALU type follows the header");
    VF_CHECK(n.is_valid == valid, "validity follows the header");
    bool primary = dn > hl && (d[hl] & 0x80);
    if (type == NALU_TYPE_I || type == NALU_TYPE_P) {
      VF_CHECK(n.is_primary_slice == primary, "first slice flag");
      VF_CHECK(n.is_hashable, "pictures are hashed");
      VF_CHECK(n.is_first_nalu_in_gop == (type == NALU_TYPE_I && primary), "a GOP starts with the first slice of an I-frame");
      VF_CHECK(!n.is_gop_sei, "a picture is no SEI");
    }
    if (type != NALU_TYPE_I && type != NALU_TYPE_P && type != NALU_TYPE_SEI) VF_CHECK(!n.is_hashable && !n.is_gop_sei && !n.is_first_nalu_in_gop, "other NALUs are not hashed");
    if (type == NALU_TYPE_SEI) VF_CHECK(!n.is_first_nalu_in_gop && (!n.is_hashable || (n.is_gop_sei && IN.auth)), "SEIs are hashed only when signed, and only when validating");
    if (!n.nalu_data_wo_epb) {
      size_t hs = dn;
      if (TRAIL)
        while (hs > 0 && d[hs - 1] == 0) hs--;
      VF_CHECK(n.hashable_data_size == hs, "trailing zeros, and nothing else, are not part of the NALU");
    }
  }
#if N - SC > 2
  VF_REACH(n.is_valid && n.is_first_nalu_in_gop, "I-frame");
  VF_REACH(n.is_valid && n.nalu_type == NALU_TYPE_P, "P-frame");
#endif
  VF_REACH(n.is_valid <= 0, "invalid");
  free(n.nalu_data_wo_epb);
}

/* SEI: a signed SEI is recognised by payload type 5 and the UUID; the TLV part and the hashable part
 * are the ones the signer wrote. LAYOUT: header | 5 | size | UUID | reserved | TLV | stop byte */
#ifndef TLVN
#define TLVN 4
#endif
#ifndef NEPB
#define NEPB 0  // escape bytes within the TLV part (at position EPBPOS)
#endif
#ifndef EPBPOS
#define EPBPOS 2
#endif
#ifndef STOP
#define STOP 1
#endif
#ifndef ZEROS
#define ZEROS 0
#endif
#ifndef BADUUID
#define BADUUID 0
#endif
void
h_parse_sei(void)
{
  VF_INPUT();
  static uint8_t buf[RAWMAX + 100];
  static uint8_t logical[RAWMAX + 100];  // without escapes
  size_t n = 0, l = 0;
  const size_t psize = UUID_LEN + 1 + TLVN;
#define PUT(x) buf[n++] = (x)
#define LOG(x) logical[l++] = (x)
  if (SC == 4) PUT(0);
  if (SC) {
    PUT(0);
    PUT(0);
    PUT(1);
  }
  const size_t start = n;
  if (CODEC == SV_CODEC_H264) {
    PUT(6);
    LOG(6);
  } else {
    PUT(0x4e);
    LOG(0x4e);
    PUT(1);
    LOG(1);
  }
  PUT(5);
  LOG(5);
  PUT((uint8_t)psize);
  LOG((uint8_t)psize);
  const size_t pay = n;
  for (int i = 0; i < UUID_LEN; i++) {
    uint8_t u = spec_uuid[i];
    if (BADUUID && i == IN.raw[60] % UUID_LEN) u ^= (IN.raw[61] ? IN.raw[61] : 1);
    PUT(u);
    LOG(u);
  }
  uint8_t reserved = IN.raw[62];
  VF_ASSUME(reserved != 0);  // bit 5 is always set by the signer
  PUT(reserved);
  LOG(reserved);
  const size_t tlv_at = n, tlv_logical = l;
  uint8_t tlv[TLVN];
  for (int i = 0; i < TLVN; i++) tlv[i] = IN.raw[i];
  if (NEPB) tlv[EPBPOS - 2] = 0, tlv[EPBPOS - 1] = 0, tlv[EPBPOS] &= 3;
  uint8_t p1 = reserved, p2 = reserved;
  for (int i = 0; i < TLVN; i++) {
    if (NEPB && i == EPBPOS) {
      PUT(3);
      p1 = 3;
    } else {
      /* no other escape is needed */
      VF_ASSUME(!(p1 == 0 && p2 == 0 && tlv[i] <= 3));
    }
    PUT(tlv[i]);
    LOG(tlv[i]);
    p2 = p1;
    p1 = tlv[i];
  }
  if (STOP) PUT(0x80);
  LOG(0x80);
  const size_t end = n;
  for (int i = 0; i < ZEROS; i++) PUT(0);
  /* at the end of its memory */
  static uint8_t mem[UUID_LEN + TLVN + NEPB + 16 + ZEROS];
  uint8_t *p = mem + sizeof(mem) - n;
  for (size_t i = 0; i < n; i++) p[i] = buf[i];
  legacy_h26x_nalu_t s = legacy_parse_nalu_info(p, n, CODEC, ZEROS ? true : IN.trail, IN.auth);
  VF_CHECK(s.nalu_type == NALU_TYPE_SEI && s.is_valid == 1, "a SEI is valid");
  VF_CHECK(s.is_gop_sei == !BADUUID, "a SEI is signed exactly when it carries the UUID");
  VF_CHECK(s.is_hashable == (!BADUUID && IN.auth), "hashed when validating only");
#if !BADUUID
  if (IN.auth) {
    VF_CHECK(s.reserved_byte == reserved, "reserved byte");
    VF_CHECK(s.is_golden_sei == !!(reserved & 0x40), "golden SEI flag");
    VF_CHECK(s.with_epb == !!(reserved & 0x80), "escape flag");
    VF_CHECK(s.tlv_size == TLVN, "size of the TLV part");
    for (int i = 0; i < TLVN; i++) VF_CHECK(s.tlv_data[i] == tlv[i], "TLV part without escapes");
    VF_CHECK(s.emulation_prevention_bytes == NEPB, "number of escapes");
    if (NEPB && !(reserved & 0x80)) {
      VF_CHECK(s.hashable_data_size == l, "hashed as the signer saw it, without escapes");
      for (size_t i = 0; i < l; i++) VF_CHECK(s.hashable_data[i] == logical[i], "hashable data without escapes");
      VF_CHECK(s.tlv_start_in_nalu_data == s.hashable_data + tlv_logical, "TLV start within the hashable data");
    } else {
      VF_CHECK(s.hashable_data == p + start && s.hashable_data_size == end - start, "hashed as received");
      VF_CHECK(s.tlv_start_in_nalu_data == p + tlv_at, "TLV start within the hashable data");
    }
  }
#endif
  VF_CHECK(s.payload == p + pay && s.payload_size == psize, "payload");
  VF_REACH(IN.auth, "validating");
  VF_REACH(!IN.auth, "signing");
  free(s.nalu_data_wo_epb);
}

/* SEIs larger than 255 bytes: the size is the sum of the size bytes (any run of 255) */
#ifndef RUN
#define RUN 2
#endif
void
h_payload_size(void)
{
  VF_INPUT();
  static uint8_t mem[RUN + 2];
  for (int i = 0; i < RUN; i++) mem[i] = 0xff;
  mem[RUN] = IN.data8;
  size_t size = 0;
  size_t r = legacy_get_payload_size(mem, mem + RUN + 1, &size);
  if (IN.data8 != 0xff) {
    VF_CHECK(r == RUN + 1, "size bytes read");
    VF_CHECK(size == RUN * 255u + IN.data8, "size is the sum of the size bytes");
  } else {
    VF_CHECK(r == 0, "truncated size refused");
  }
  VF_REACH(IN.data8 != 0xff, "complete");
}

void
h_copy_nalu(void)
{
  VF_INPUT();
  uint8_t *p = put(N);
  legacy_h26x_nalu_t n = {0}, c = {0};
  n.nalu_data = p;
  n.nalu_data_size = N;
  n.hashable_data = p + 1;
  n.payload = p;
  n.tlv_data = p;
  n.tlv_start_in_nalu_data = p;
  n.nalu_data_wo_epb = p;
  n.nalu_type = IN.flags[0] % 7;
  n.is_valid = IN.is_valid;
  n.is_hashable = IN.hashable;
  n.is_gop_sei = IN.gop_sei;
  n.is_first_nalu_in_gop = IN.first_in_gop;
  n.is_first_nalu_part = IN.first;
  n.is_last_nalu_part = IN.second;
  n.is_primary_slice = IN.trail;
  legacy_copy_nalu_except_pointers(&c, &n);
  VF_CHECK(!c.nalu_data && !c.hashable_data && !c.payload && !c.tlv_data && !c.tlv_start_in_nalu_data && !c.nalu_data_wo_epb, "no pointer survives");
  VF_CHECK(c.nalu_type == n.nalu_type && c.is_valid == n.is_valid && c.is_hashable == n.is_hashable && c.is_gop_sei == n.is_gop_sei && c.is_first_nalu_in_gop == n.is_first_nalu_in_gop &&
          c.is_first_nalu_part == n.is_first_nalu_part && c.is_last_nalu_part == n.is_last_nalu_part && c.is_primary_slice == n.is_primary_slice && c.nalu_data_size == n.nalu_data_size,
      "the description is copied");
  legacy_copy_nalu_except_pointers(NULL, &n);
  legacy_copy_nalu_except_pointers(&c, NULL);
  VF_REACH(true, "end");
}

/* ---- hashing ---- */
static legacy_sv_t sv;
static legacy_gop_info_t gop;
static sign_or_verify_data_t vdata;
static legacy_h26x_nalu_t nalu;
static legacy_h26x_nalu_list_item_t item;
static int crypto_dummy, vendor_dummy;

static void
session(void)
{
  gc_input = &IN.gc;
  sv.crypto_handle = &crypto_dummy;
  sv.gop_info = &gop;
  sv.verify_data = &vdata;
  vdata.hash_size = HSZ;
  gop.gop_hash_init = GOP_HASH_SALT;
  gop.gop_hash = gop.hashes;
  gop.nalu_hash = gop.hashes + DEFAULT_HASH_SIZE;
  gop.has_reference_hash = IN.has_ref;
  for (int i = 0; i < HSZ; i++) gop.hash_buddies[i] = IN.ref[i];
  for (int i = 0; i < 2 * MAX_HASH_SIZE; i++) gop.hashes[i] = IN.linked[i];
  gop.num_nalus_in_gop_hash = IN.num;
}

/* [reference | digest 0] */
static bool
is_buddy(int d, const uint8_t *ref, int inner)
{
  if (d >= gc_num || gc_dg[d].in.n != 2 * HSZ) return false;
  return gc_same(gc_dg[d].in.s, ref, HSZ) && gc_eq(gc_dg[d].in.s + HSZ, inner);
}

/* The hash of an item covers the whole NALU, joined with the reference of its GOP unless it starts one
 * or is a SEI; at a GOP transition there is a second one, in the GOP that starts. */
void
h_hash_for_auth(void)
{
  VF_INPUT();
  session();
  static uint8_t data[3];
  for (int i = 0; i < 3; i++) data[i] = IN.raw[i];
  const bool had_ref = gop.has_reference_hash;
  nalu.is_hashable = IN.hashable;
  nalu.is_gop_sei = IN.gop_sei;
  VF_ASSUME(!(IN.gop_sei && IN.first_in_gop));
  nalu.is_first_nalu_in_gop = IN.first_in_gop;
  nalu.is_first_nalu_part = nalu.is_last_nalu_part = true;
  nalu.hashable_data = data;
  nalu.hashable_data_size = 3;
  item.nalu = &nalu;
  item.second_hash = IN.second ? malloc(MAX_HASH_SIZE) : NULL;
  VF_ASSUME(!IN.second || item.second_hash);
  uint8_t *old_second = item.second_hash;
  sv.gop_state.validate_after_next_nalu = IN.after_next;
  svrc_t rc = legacy_hash_and_add_for_auth(&sv, &item);
#ifndef GC_FAIL
  VF_CHECK(rc == SV_OK || rc == SV_MEMORY, "hashing succeeds");
#endif
  const bool twice = IN.first_in_gop || (IN.after_next && !IN.gop_sei);
  if (!IN.hashable) {
    VF_CHECK(rc == SV_OK && gc_calls == 0 && item.second_hash == old_second, "nothing hashed");
  } else if (rc == SV_OK) {
    VF_CHECK(gc_is(0, data, 3), "the digest covers the hashable data");
    int next;
    if (IN.gop_sei || (IN.first_in_gop && !had_ref)) {
      VF_CHECK(gc_eq(item.hash, 0), "hash stored");
      next = 1;
    } else {
      VF_CHECK(is_buddy(1, IN.ref, 0) && gc_eq(item.hash, 1), "hash joined with the reference of the GOP that ends");
      next = 2;
    }
    if (twice) {
      VF_CHECK(item.second_hash != NULL, "a second hash at a GOP transition");
      VF_CHECK(gc_is(next, data, 3), "the second hash covers the hashable data");
      if (IN.first_in_gop) {
        VF_CHECK(gc_eq(item.second_hash, next) && gc_num == next + 1, "second hash without reference");
        VF_CHECK(gop.has_reference_hash && gc_eq(gop.hash_buddies, next), "it becomes the reference of the GOP that starts");
      } else {
        VF_CHECK(!gop.has_reference_hash, "no reference for a GOP without its first NALU");
        VF_CHECK(gc_num == next + 2 && gc_eq(item.second_hash, next + 1), "second hash");
      }
    } else {
      VF_CHECK(gc_num == next && item.second_hash == old_second, "one hash only");
      VF_CHECK(gop.has_reference_hash == had_ref, "reference kept");
    }
  }
  VF_REACH(rc == SV_OK && twice && IN.hashable, "GOP transition");
  VF_REACH(rc == SV_OK && !twice && IN.hashable, "inside a GOP");
#ifdef GC_FAIL
  VF_REACH(rc == SV_EXTERNAL_ERROR, "failing");
#endif
  VF_CHECK(legacy_hash_and_add_for_auth(NULL, &item) == SV_INVALID_PARAMETER && legacy_hash_and_add_for_auth(&sv, NULL) == SV_INVALID_PARAMETER, "parameters");
  free(item.second_hash);
}

/* The GOP hash is the recursive digest of [GOP hash | NALU hash], starting from the salt. */
void
h_gop_hash(void)
{
  VF_INPUT();
  session();
  gop.num_nalus_in_gop_hash = IN.num;
  svrc_t rc = legacy_update_gop_hash(&crypto_dummy, &gop);
#ifndef GC_FAIL
  VF_CHECK(rc == SV_OK, "update succeeds");
#endif
  if (rc == SV_OK) {
    VF_CHECK(gc_num == 1 && gc_is(0, IN.linked, 2 * HSZ) && gc_eq(gop.gop_hash, 0) && gop.gop_hash == gop.hashes, "digest of the GOP hash and the NALU hash");
    bool kept = true;
    for (int i = HSZ; i < 2 * HSZ; i++) kept = kept && gop.hashes[i] == IN.linked[i];
    VF_CHECK(kept, "nothing else changed");
  }
  const int n = gc_num;
  svrc_t rc2 = legacy_reset_gop_hash(&sv);
#ifndef GC_FAIL
  VF_CHECK(rc2 == SV_OK, "reset succeeds");
#endif
  if (rc2 == SV_OK) {
    static const uint8_t salt = GOP_HASH_SALT;
    VF_CHECK(gc_num == n + 1 && gc_is(n, &salt, 1) && gc_eq(gop.gop_hash, n) && gop.num_nalus_in_gop_hash == 0, "an empty GOP hash is the digest of the salt");
  }
  VF_CHECK(legacy_update_gop_hash(&crypto_dummy, NULL) == SV_INVALID_PARAMETER && legacy_reset_gop_hash(NULL) == SV_INVALID_PARAMETER, "parameters");
  VF_REACH(rc == SV_OK && rc2 == SV_OK, "ok");
}

void
h_flags(void)
{
  VF_INPUT();
  legacy_validation_flags_t v = {0};
  v.has_auth_result = IN.flags[0] & 1;
  v.is_first_validation = IN.flags[1] & 1;
  v.reset_first_validation = IN.flags[2] & 1;
  v.signing_present = IN.flags[3] & 1;
  v.is_first_sei = IN.flags[4] & 1;
  const legacy_validation_flags_t o = v;
  nalu.is_gop_sei = IN.gop_sei;
  nalu.is_hashable = IN.hashable;
  nalu.is_valid = IN.is_valid;
  legacy_update_validation_flags(&v, &nalu);
  VF_CHECK(v.is_first_sei == (!o.signing_present && IN.gop_sei), "first SEI");
  VF_CHECK(v.signing_present == (o.signing_present || IN.gop_sei), "signing once seen stays");
  VF_CHECK(v.has_auth_result == o.has_auth_result && v.is_first_validation == o.is_first_validation && v.reset_first_validation == o.reset_first_validation, "other flags kept");
  legacy_gop_state_t g = {0};
  g.has_sei = IN.flags[6] & 1;
  g.has_lost_sei = IN.flags[7] & 1;
  g.no_gop_end_before_sei = IN.flags[8] & 1;
  g.gop_transition_is_lost = IN.flags[9] & 1;
  g.validate_after_next_nalu = IN.flags[10] & 1;
  const legacy_gop_state_t og = g;
  legacy_gop_state_update(&g, &nalu);
  VF_CHECK(g.has_sei == (og.has_sei || (IN.is_valid > 0 && IN.hashable && IN.gop_sei)), "a SEI is pending");
  VF_CHECK(g.has_lost_sei == og.has_lost_sei && g.no_gop_end_before_sei == og.no_gop_end_before_sei && g.gop_transition_is_lost == og.gop_transition_is_lost && g.validate_after_next_nalu == og.validate_after_next_nalu, "GOP state kept");
  legacy_gop_state_reset(&g);
  VF_CHECK(!g.has_sei && !g.has_lost_sei && !g.no_gop_end_before_sei && !g.gop_transition_is_lost && !g.validate_after_next_nalu, "initial GOP state");
  legacy_update_validation_flags(NULL, &nalu);
  legacy_update_validation_flags(&v, NULL);
  legacy_gop_state_update(NULL, &nalu);
  legacy_gop_state_update(&g, NULL);
  legacy_gop_state_reset(NULL);
  VF_REACH(IN.gop_sei, "sei");
}

/* ---- session ---- */
static int stub_list_free, stub_list_clear, stub_acc_init, stub_latest_init;
static legacy_h26x_nalu_list_t nlist;
static signed_video_t par;
static signed_video_authenticity_t report;
static signed_video_product_info_t pinfo;
size_t openssl_get_hash_size(void *h) { (void)h; return HSZ; }
legacy_h26x_nalu_list_t *legacy_h26x_nalu_list_create() { return (IN.flags[13] & 1) ? NULL : &nlist; }
void legacy_h26x_nalu_list_free(legacy_h26x_nalu_list_t *l) { stub_list_free += l == &nlist; }
void legacy_h26x_nalu_list_free_items(legacy_h26x_nalu_list_t *l) { stub_list_clear += l == &nlist; }
void latest_validation_init(signed_video_latest_validation_t *s) { stub_latest_init += s == &report.latest_validation; }
void accumulated_validation_init(signed_video_accumulated_validation_t *s) { stub_acc_init += s == &report.accumulated_validation; }
/* not reached from here */
svrc_t decode_axis_communications_handle(void *h, const uint8_t *d, size_t n) { (void)h; (void)d; (void)n; return SV_OK; }
size_t encode_axis_communications_handle(void *h, uint16_t *l, bool e, uint8_t *d) { (void)h; (void)l; (void)e; (void)d; return 0; }
svrc_t openssl_set_hash_algo_by_encoded_oid(void *h, const unsigned char *o, size_t n) { (void)h; (void)o; (void)n; return SV_OK; }
const unsigned char *openssl_get_hash_algo_encoded_oid(void *h, size_t *n) { (void)h; (void)n; return NULL; }
char *openssl_encoded_oid_to_str(const unsigned char *o, size_t n) { (void)o; (void)n; return NULL; }
svrc_t openssl_public_key_malloc(sign_or_verify_data_t *v, pem_pkey_t *p) { (void)v; (void)p; return SV_OK; }
svrc_t transfer_product_info(signed_video_product_info_t *d, const signed_video_product_info_t *s) { (void)d; (void)s; return SV_OK; }
svrc_t allocate_memory_and_copy_string(char **d, const char *s) { (void)d; (void)s; return SV_OK; }
svrc_t struct_member_memory_allocated_and_copy(void **m, uint8_t *ms, const void *d, const uint8_t n) { (void)m; (void)ms; (void)d; (void)n; return SV_OK; }

/* A reset session is as a new one, and keeps the keys. */
void
h_reset(void)
{
  VF_INPUT();
  session();
  gop.list_idx = IN.list_idx;
  gop.global_gop_counter = IN.counter;
  gop.global_gop_counter_is_synced = IN.flags[14] & 1;
  gop.verified_signature_hash = IN.vsh;
  sv.nalu_list = &nlist;
  sv.latest_validation = &report.latest_validation;
  sv.accumulated_validation = &report.accumulated_validation;
  sv.has_public_key = IN.algo_known;
  sv.validation_flags.has_auth_result = IN.flags[0] & 1;
  sv.validation_flags.is_first_validation = IN.flags[1] & 1;
  sv.validation_flags.reset_first_validation = IN.flags[2] & 1;
  sv.validation_flags.signing_present = IN.flags[3] & 1;
  sv.validation_flags.is_first_sei = IN.flags[4] & 1;
  sv.gop_state.has_sei = IN.flags[6] & 1;
  sv.gop_state.has_lost_sei = IN.flags[7] & 1;
  sv.gop_state.validate_after_next_nalu = IN.flags[10] & 1;
  svrc_t rc = legacy_sv_reset(&sv);
#ifndef GC_FAIL
  VF_CHECK(rc == SV_OK, "reset succeeds");
#endif
  if (rc == SV_OK) {
    static const uint8_t salt = GOP_HASH_SALT;
    VF_CHECK(gop.list_idx == 0 && !gop.has_reference_hash && !gop.global_gop_counter_is_synced && gop.verified_signature_hash == -1, "no GOP is going on");
    VF_CHECK(gc_is(gc_num - 1, &salt, 1) && gc_eq(gop.gop_hash, gc_num - 1) && gop.num_nalus_in_gop_hash == 0, "the GOP hash starts over");
    VF_CHECK(!sv.gop_state.has_sei && !sv.gop_state.has_lost_sei && !sv.gop_state.validate_after_next_nalu && !sv.gop_state.no_gop_end_before_sei && !sv.gop_state.gop_transition_is_lost, "GOP state as new");
    VF_CHECK(sv.validation_flags.is_first_validation && !sv.validation_flags.has_auth_result && !sv.validation_flags.signing_present && !sv.validation_flags.reset_first_validation && !sv.validation_flags.is_first_sei, "validation flags as new");
    VF_CHECK(stub_list_clear >= 1 && stub_list_free == 0, "pending NALUs are dropped");
    VF_CHECK(stub_latest_init >= 1 && stub_acc_init >= 1, "reports are initialized");
    VF_CHECK(gc_ctx[0].open && gc_ctx[0].n == 0, "ongoing hash of NALU parts is dropped");
  }
  VF_CHECK(sv.has_public_key == IN.algo_known, "the public key is kept");
  VF_CHECK(legacy_sv_reset(NULL) == SV_OK, "nothing to reset");
  VF_REACH(rc == SV_OK, "ok");
}

#ifndef KEY
#define KEY 0
#endif
/* A session for an old stream shares handles and report with its parent, and has a key of its own. */
void
h_create_free(void)
{
  VF_INPUT();
  session();
  VF_ASSUME(IN.codec == 0 || IN.codec == 1);
  static uint8_t pem[4];
  for (int i = 0; i < 4; i++) pem[i] = IN.raw[i];
  par.codec = IN.codec;
  par.crypto_handle = (IN.flags[11] & 1) ? NULL : &crypto_dummy;
  par.vendor_handle = (IN.flags[12] & 1) ? NULL : &vendor_dummy;
  par.verify_data = &vdata;
  par.product_info = &pinfo;
  par.authenticity = &report;
  par.has_public_key = KEY;
#if KEY
  par.pem_public_key.key = pem;
  par.pem_public_key.key_size = 4;
#endif
  legacy_sv_t *s = legacy_sv_create(&par);
  bool bad = (IN.flags[11] & 1) || (IN.flags[12] & 1) || (IN.flags[13] & 1);
  if (bad) VF_CHECK(!s, "no session without its handles");
  if (s) {
    static const uint8_t salt = GOP_HASH_SALT;
    VF_CHECK(s->parent == &par && (int)s->codec == IN.codec && s->product_info == &pinfo && s->crypto_handle == &crypto_dummy && s->vendor_handle == &vendor_dummy && s->verify_data == &vdata && s->authenticity == &report && s->latest_validation == &report.latest_validation && s->accumulated_validation == &report.accumulated_validation, "shared with the parent");
    VF_CHECK(s->nalu_list == &nlist && s->gop_info && s->gop_info->gop_hash == s->gop_info->hashes && s->gop_info->list_idx == 0 && s->gop_info->verified_signature_hash == -1 && !s->gop_info->has_reference_hash && !s->gop_info->global_gop_counter_is_synced && s->gop_info->hash_list_size == HASH_LIST_SIZE, "GOP defaults");
    VF_CHECK(gc_num == 1 && gc_is(0, &salt, 1) && gc_eq(s->gop_info->gop_hash, 0), "GOP hash of an empty GOP");
    VF_CHECK(s->validation_flags.is_first_validation && !s->validation_flags.signing_present && !s->validation_flags.has_auth_result && !s->gop_state.has_sei && !s->gop_state.has_lost_sei && !s->gop_state.validate_after_next_nalu, "initial flags");
#if KEY
    VF_CHECK(s->has_public_key && s->pem_public_key.key != (void *)pem && s->pem_public_key.key_size == 4, "a key of its own");
    bool same = true;
    for (int i = 0; i < 4; i++) same = same && ((uint8_t *)s->pem_public_key.key)[i] == IN.raw[i];
    VF_CHECK(same, "the key of the parent");
#else
    VF_CHECK(!s->has_public_key && !s->pem_public_key.key, "no key");
#endif
    legacy_sv_free(s);
    VF_CHECK(stub_list_free == 1, "the list is released once");
  }
  legacy_sv_free(NULL);
  VF_REACH(s != NULL, "created");
  VF_REACH(s == NULL, "refused");
}
