/* Contracts on signed_video_h26x_common.c: NALU parsing, hashing, session state, versions. */
#include "vf.h"
#include "signed_video_internal.h"
#include "signed_video_h26x_internal.h"
#include "signed_video_tlv.h"
#include "signed_video_openssl_internal.h"
#include "includes/signed_video_common.h"

#ifndef N
#define N 8
#endif
#ifndef RAWMAX
#define RAWMAX 64
#endif
#ifndef CODEC
#define CODEC IN.codec
#endif
#ifndef SC
#define SC 0
#endif
#ifndef TRAIL
#define TRAIL (IN.trail)
#endif
#ifndef GC_HS
#define GC_HS 32
#endif
#define HSZ GC_HS
#include "ghost_crypto.h"

struct vf_in {
  uint8_t raw[RAWMAX];
  int codec;
  uint8_t flags[24];
  struct gc_in gc;
  uint8_t ref[64];
  uint8_t lst[256];
  uint8_t linked[128];
  int list_idx;
  size_t list_size;
  uint16_t num;
  char v1[12], v2[12];
  int n1[3], n2[3];
  size_t sz;
  uint8_t member[12], data8;
  int is_valid;
  uint32_t counter;
  int vsh;
  int rc;
  bool trail : 1, auth : 1, has_ref : 1, first : 1, gop_sei : 1, hashable : 1, first_in_gop : 1, after_next : 1, algo_known : 1, second : 1, auth_started : 1;
} IN;

#include "signed_video_h26x_common.c"
#include "signed_video_tlv.c"

/* the input lies at the end of its memory: reading one byte too much is out of bounds */
static uint8_t raw_mem[RAWMAX];
static uint8_t *
put(size_t n)
{
  uint8_t *p = &raw_mem[RAWMAX - n];
  for (size_t i = 0; i < n; i++) p[i] = IN.raw[i];
  return p;
}

/* the UUID of the feature, as published (README.md) */
static const uint8_t spec_uuid[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};

/* ---- specification of the NALU header (ITU-T H.264 table 7-1, H.265 table 7-1) ---- */
static const uint8_t spec_h264[32] = {0, 3, 6, 6, 6, 2, 1, 4, 4, 5, 6, 6, 6, 4, 0, 4};
static const uint8_t spec_h265[64] = {3, 3, 6, 6, 6, 6, 6, 6, 6, 6, 0, 0, 0, 0, 0, 0, 2, 2, 2, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 4, 4, 5, 6, 6, 6, 1, 1};

static bool
in_range(const uint8_t *p, const uint8_t *lo, size_t n)
{
  return p >= lo && p <= lo + n;
}

/* Any bytes, any size: in bounds (checked on every access), and a consistent description. */
void
h_parse_safe(void)
{
  VF_INPUT();
  uint8_t *p = put(N);
  VF_ASSUME(IN.codec >= -1 && IN.codec <= 2);
  bool ok_codec = CODEC == SV_CODEC_H264 || CODEC == SV_CODEC_H265;
  h26x_nalu_t n = parse_nalu_info(p, N, CODEC, TRAIL, IN.auth);
  VF_CHECK(n.nalu_data == p && n.nalu_data_size == N, "the parsed NALU refers to the input");
  VF_CHECK(n.is_valid >= -1 && n.is_valid <= 1, "validity is one of valid, invalid, error");
  VF_CHECK(ok_codec || (n.is_valid == -1 && !n.is_hashable), "unknown codec is an error");
  if (ok_codec) {
    const uint8_t *own = n.nalu_data_wo_epb;
    if (own && n.hashable_data == own) {
      VF_CHECK(n.nalu_type == NALU_TYPE_SEI && n.is_gop_sei, "only signed SEIs are copied");
    } else {
      VF_CHECK(in_range(n.hashable_data, p, N) && n.hashable_data_size <= (size_t)(p + N - n.hashable_data), "hashable data within the NALU");
    }
    VF_CHECK(!n.is_gop_sei || n.nalu_type == NALU_TYPE_SEI, "only SEIs are signed SEIs");
    VF_CHECK(!n.is_golden_sei || n.is_gop_sei, "only signed SEIs are golden");
    if (n.is_hashable && n.is_gop_sei && n.is_valid > 0) {
      VF_CHECK(n.tlv_data != NULL, "TLV data present");
      /* every byte of the TLV part can be read */
#ifdef TOUCH
      uint8_t x = 0;
      for (size_t i = 0; i < TOUCH; i++)
        if (i < n.tlv_size) x ^= n.tlv_data[i];
      VF_CHECK(n.tlv_size <= TOUCH, "TLV size within the NALU");
      if (n.hashable_data_size) x ^= n.hashable_data[n.hashable_data_size - 1];
#endif
      if (!n.nalu_data_wo_epb) VF_CHECK(in_range(n.tlv_data, p, N) && n.tlv_size <= (size_t)(p + N - n.tlv_data), "TLV data within the NALU");
    }
  }
  VF_REACH(ok_codec && n.is_valid == 1, "valid NALU");
  VF_REACH(n.is_valid <= 0, "invalid NALU");
#if N >= 24
  VF_REACH(n.is_gop_sei, "signed SEI");
#endif
  free(n.nalu_data_wo_epb);
}

/* Classification: the type is a function of the header alone, whatever framing is used. */
void
h_parse_class(void)
{
  VF_INPUT();
  /* SC bytes of start code, then N-SC bytes */
#if SC == 3
  IN.raw[0] = 0, IN.raw[1] = 0, IN.raw[2] = 1;
#elif SC == 4
  IN.raw[0] = 0, IN.raw[1] = 0, IN.raw[2] = 0, IN.raw[3] = 1;
#endif
  uint8_t *p = put(N);
  const uint8_t *d = p + SC;
  const size_t dn = N - SC;
#if SC == 0
  /* no start code present */
  VF_ASSUME(!(N >= 3 && d[0] == 0 && d[1] == 0 && d[2] == 1));
  VF_ASSUME(!(N >= 4 && d[0] == 0 && d[1] == 0 && d[2] == 0 && d[3] == 1));
#endif
  h26x_nalu_t n = parse_nalu_info(p, N, CODEC, TRAIL, IN.auth);
  const size_t hl = CODEC == SV_CODEC_H264 ? 1 : 2;
  VF_CHECK(n.hashable_data == d || n.hashable_data == n.nalu_data_wo_epb, "hashing starts after the start code");
  VF_CHECK(n.start_code == (SC ? 1 : 0), "start code reported");
  VF_CHECK(n.is_first_nalu_part && n.is_last_nalu_part, "parsed as complete");
  if (dn < hl) {
    VF_CHECK(n.is_valid <= 0 && !n.is_hashable, "too short is not valid");
  } else {
    uint8_t type, valid = 0;
    bool forbidden = d[0] & 0x80;
    if (CODEC == SV_CODEC_H264) {
      uint8_t t = d[0] & 0x1f, ref = (d[0] >> 5) & 3;
      type = spec_h264[t];
      valid = type != 0;
      if (t == 5 || t == 7 || t == 8 || t == 13 || t == 15) valid = ref != 0;
      if (t == 6 || (t >= 10 && t <= 12)) valid = ref == 0;
    } else {
      uint8_t t = (d[0] >> 1) & 0x3f, tid1 = d[1] & 7, layer = ((d[0] & 1) << 5) | (d[1] >> 3);
      type = tid1 ? spec_h265[t] : 0;
      valid = type != 0;
      if (t == 2 || t == 3 || (t >= 6 && t <= 9)) valid = tid1 != 1;
      if (t == 4 || t == 5) valid = layer || tid1 != 1;
      if ((t >= 16 && t <= 21) || t == 32 || t == 33) valid = tid1 == 1;
      if (t == 36 || t == 37) valid = tid1 == 1 && layer == 0;
      if (!tid1) valid = 0;
    }
    if (forbidden) valid = 0;
    VF_CHECK((uint8_t)n.nalu_type == type, "NALU type follows the header");
    VF_CHECK(n.is_valid == valid, "validity follows the header");
    bool primary = dn > hl && (d[hl] & 0x80);
    if (type == NALU_TYPE_I || type == NALU_TYPE_P) {
      VF_CHECK(n.is_primary_slice == primary, "first slice flag");
      VF_CHECK(n.is_hashable, "pictures are hashed");
      VF_CHECK(n.is_first_nalu_in_gop == (type == NALU_TYPE_I && primary), "a GOP starts with the first slice of an I-frame");
      VF_CHECK(!n.is_gop_sei, "a picture is no SEI");
    }
    if (type != NALU_TYPE_I && type != NALU_TYPE_P && type != NALU_TYPE_SEI) VF_CHECK(!n.is_hashable && !n.is_gop_sei && !n.is_first_nalu_in_gop, "other NALUs are not hashed");
    if (type == NALU_TYPE_SEI) VF_CHECK(!n.is_first_nalu_in_gop && (!n.is_hashable || (n.is_gop_sei && IN.auth)), "SEIs are hashed only when signed, and only when validating");
    if (!n.nalu_data_wo_epb) {
      size_t hs = dn;
      if (TRAIL)
        while (hs > 0 && d[hs - 1] == 0) hs--;
      VF_CHECK(n.hashable_data_size == hs, "trailing zeros, and nothing else, are not part of the NALU");
    }
  }
#if N - SC > 2
  VF_REACH(n.is_valid && n.is_first_nalu_in_gop, "I-frame");
  VF_REACH(n.is_valid && n.nalu_type == NALU_TYPE_P, "P-frame");
#endif
  VF_REACH(n.is_valid <= 0, "invalid");
  free(n.nalu_data_wo_epb);
}

/* SEI: a signed SEI is recognised by payload type 5 and the UUID; the TLV part and the hashable part
 * are the ones the signer wrote. LAYOUT: header | 5 | size | UUID | reserved | TLV | stop byte */
#ifndef TLVN
#define TLVN 4
#endif
#ifndef NEPB
#define NEPB 0  // escape bytes within the TLV part (at position EPBPOS)
#endif
#ifndef EPBPOS
#define EPBPOS 2
#endif
#ifndef STOP
#define STOP 1
#endif
#ifndef ZEROS
#define ZEROS 0
#endif
#ifndef BADUUID
#define BADUUID 0
#endif
void
h_parse_sei(void)
{
  VF_INPUT();
  static uint8_t buf[RAWMAX + 100];
  static uint8_t logical[RAWMAX + 100];  // without escapes
  size_t n = 0, l = 0;
  const size_t psize = UUID_LEN + 1 + TLVN;
#define PUT(x) buf[n++] = (x)
#define LOG(x) logical[l++] = (x)
  if (SC == 4) PUT(0);
  if (SC) {
    PUT(0);
    PUT(0);
    PUT(1);
  }
  const size_t start = n;
  if (CODEC == SV_CODEC_H264) {
    PUT(6);
    LOG(6);
  } else {
    PUT(0x4e);
    LOG(0x4e);
    PUT(1);
    LOG(1);
  }
  PUT(5);
  LOG(5);
  PUT((uint8_t)psize);
  LOG((uint8_t)psize);
  const size_t pay = n;
  for (int i = 0; i < UUID_LEN; i++) {
    uint8_t u = spec_uuid[i];
    if (BADUUID && i == IN.raw[60] % UUID_LEN) u ^= (IN.raw[61] ? IN.raw[61] : 1);
    PUT(u);
    LOG(u);
  }
  uint8_t reserved = IN.raw[62];
  VF_ASSUME(reserved != 0);  // bit 5 is always set by the signer
  PUT(reserved);
  LOG(reserved);
  const size_t tlv_at = n, tlv_logical = l;
  uint8_t tlv[TLVN];
  for (int i = 0; i < TLVN; i++) tlv[i] = IN.raw[i];
  if (NEPB) tlv[EPBPOS - 2] = 0, tlv[EPBPOS - 1] = 0, tlv[EPBPOS] &= 3;
  uint8_t p1 = reserved, p2 = reserved;
  for (int i = 0; i < TLVN; i++) {
    if (NEPB && i == EPBPOS) {
      PUT(3);
      p1 = 3;
    } else {
      /* no other escape is needed */
      VF_ASSUME(!(p1 == 0 && p2 == 0 && tlv[i] <= 3));
    }
    PUT(tlv[i]);
    LOG(tlv[i]);
    p2 = p1;
    p1 = tlv[i];
  }
  if (STOP) PUT(0x80);
  LOG(0x80);
  const size_t end = n;
  for (int i = 0; i < ZEROS; i++) PUT(0);
  /* at the end of its memory */
  static uint8_t mem[UUID_LEN + TLVN + NEPB + 16 + ZEROS];
  uint8_t *p = mem + sizeof(mem) - n;
  for (size_t i = 0; i < n; i++) p[i] = buf[i];
  h26x_nalu_t s = parse_nalu_info(p, n, CODEC, ZEROS ? true : IN.trail, IN.auth);
  VF_CHECK(s.nalu_type == NALU_TYPE_SEI && s.is_valid == 1, "a SEI is valid");
  VF_CHECK(s.is_gop_sei == !BADUUID, "a SEI is signed exactly when it carries the UUID");
  VF_CHECK(s.is_hashable == (!BADUUID && IN.auth), "hashed when validating only");
#if !BADUUID
  if (IN.auth) {
    VF_CHECK(s.reserved_byte == reserved, "reserved byte");
    VF_CHECK(s.is_golden_sei == !!(reserved & 0x40), "golden SEI flag");
    VF_CHECK(s.with_epb == !!(reserved & 0x80), "escape flag");
    VF_CHECK(s.tlv_size == TLVN, "size of the TLV part");
    for (int i = 0; i < TLVN; i++) VF_CHECK(s.tlv_data[i] == tlv[i], "TLV part without escapes");
    VF_CHECK(s.emulation_prevention_bytes == NEPB, "number of escapes");
    if (NEPB && !(reserved & 0x80)) {
      VF_CHECK(s.hashable_data_size == l, "hashed as the signer saw it, without escapes");
      for (size_t i = 0; i < l; i++) VF_CHECK(s.hashable_data[i] == logical[i], "hashable data without escapes");
      VF_CHECK(s.tlv_start_in_nalu_data == s.hashable_data + tlv_logical, "TLV start within the hashable data");
    } else {
      VF_CHECK(s.hashable_data == p + start && s.hashable_data_size == end - start, "hashed as received");
      VF_CHECK(s.tlv_start_in_nalu_data == p + tlv_at, "TLV start within the hashable data");
    }
  }
#endif
  VF_CHECK(s.payload == p + pay && s.payload_size == psize, "payload");
  VF_REACH(IN.auth, "validating");
  VF_REACH(!IN.auth, "signing");
  free(s.nalu_data_wo_epb);
}

/* SEIs larger than 255 bytes: the size is the sum of the size bytes (any run of 255) */
#ifndef RUN
#define RUN 2
#endif
void
h_payload_size(void)
{
  VF_INPUT();
  static uint8_t mem[RUN + 2];
  for (int i = 0; i < RUN; i++) mem[i] = 0xff;
  mem[RUN] = IN.data8;
  size_t size = 0;
  size_t r = h264_get_payload_size(mem, mem + RUN + 1, &size);
  if (IN.data8 != 0xff) {
    VF_CHECK(r == RUN + 1, "size bytes read");
    VF_CHECK(size == RUN * 255u + IN.data8, "size is the sum of the size bytes");
  } else {
    VF_CHECK(r == 0, "truncated size refused");
  }
  VF_REACH(IN.data8 != 0xff, "complete");
}

void
h_copy_nalu(void)
{
  VF_INPUT();
  uint8_t *p = put(N);
  h26x_nalu_t n = {0}, c = {0};
  n.nalu_data = p;
  n.nalu_data_size = N;
  n.hashable_data = p + 1;
  n.payload = p;
  n.tlv_data = p;
  n.tlv_start_in_nalu_data = p;
  n.nalu_data_wo_epb = p;
  n.nalu_type = IN.flags[0] % 7;
  n.is_valid = IN.is_valid;
  n.is_hashable = IN.hashable;
  n.is_gop_sei = IN.gop_sei;
  n.is_first_nalu_in_gop = IN.first_in_gop;
  n.is_first_nalu_part = IN.first;
  n.is_last_nalu_part = IN.second;
  n.is_primary_slice = IN.trail;
  copy_nalu_except_pointers(&c, &n);
  VF_CHECK(!c.nalu_data && !c.hashable_data && !c.payload && !c.tlv_data && !c.tlv_start_in_nalu_data && !c.nalu_data_wo_epb, "no pointer survives");
  VF_CHECK(c.nalu_type == n.nalu_type && c.is_valid == n.is_valid && c.is_hashable == n.is_hashable && c.is_gop_sei == n.is_gop_sei && c.is_first_nalu_in_gop == n.is_first_nalu_in_gop &&
          c.is_first_nalu_part == n.is_first_nalu_part && c.is_last_nalu_part == n.is_last_nalu_part && c.is_primary_slice == n.is_primary_slice && c.nalu_data_size == n.nalu_data_size,
      "the description is copied");
  copy_nalu_except_pointers(NULL, &n);
  copy_nalu_except_pointers(&c, NULL);
  VF_REACH(true, "end");
}

/* ---- hashing ---- */
static signed_video_t sv;
static gop_info_t gop;
static sign_or_verify_data_t sdata, vdata;
static h26x_nalu_t nalu;
static h26x_nalu_list_item_t item;
static int crypto_dummy;

static void
session(void)
{
  gc_input = &IN.gc;
  sv.crypto_handle = &crypto_dummy;
  sv.gop_info = &gop;
  sv.sign_data = &sdata;
  sv.verify_data = &vdata;
  sdata.hash_size = HSZ;
  vdata.hash_size = HSZ;
  gop.gop_hash = gop.hashes;
  gop.nalu_hash = gop.hashes + DEFAULT_HASH_SIZE;
  gop.has_reference_hash = IN.has_ref;
  for (int i = 0; i < HSZ; i++) gop.hash_buddies[i] = IN.ref[i];
  for (int i = 0; i < HASH_LIST_SIZE; i++) gop.hash_list[i] = IN.lst[i];
  for (int i = 0; i < 2 * MAX_HASH_SIZE; i++) gop.linked_hashes[i] = IN.linked[i];
  gop.num_nalus_in_gop_hash = IN.num;
  gop.hash_list_size = IN.list_size;
}

/* [reference | digest 0] */
static bool
is_buddy(int d, const uint8_t *ref, int inner)
{
  if (d >= gc_num || gc_dg[d].in.n != 2 * HSZ) return false;
  return gc_same(gc_dg[d].in.s, ref, HSZ) && gc_eq(gc_dg[d].in.s + HSZ, inner);
}

#ifndef PARTS
#define PARTS 1
#endif
#ifndef LISTIDX
#define LISTIDX 0
#endif
#ifndef LISTSIZE
#define LISTSIZE 128
#endif
/* sizes of the parts of the NALU */
#ifndef PLENS
#define PLENS 2, 2, 2
#endif
/* The hash put in the hash list is the digest of the whole NALU, however it is split in parts, joined
 * with the reference hash unless it starts a GOP; the GOP hash is fed with it. */
void
h_hash_and_add(void)
{
  VF_INPUT();
  session();
  const int plens[3] = {PLENS};
  const int total = plens[0] + (PARTS > 1 ? plens[1] : 0) + (PARTS > 2 ? plens[2] : 0);
  static uint8_t data[RAWMAX];
  for (int i = 0; i < total; i++) data[i] = IN.raw[i];
  int at = 0;
  gop.list_idx = LISTIDX;
  gop.hash_list_size = LISTSIZE;
  const bool had_ref = gop.has_reference_hash;
  const bool first = IN.first_in_gop;
  gc_ctx[1].open = LISTIDX != 0;
  nalu.is_hashable = IN.hashable;
  nalu.is_gop_sei = IN.gop_sei;
  VF_ASSUME(!(IN.gop_sei && IN.first_in_gop));
  nalu.is_first_nalu_in_gop = first;
  svrc_t rc = SV_OK;
  for (int k = 0; k < PARTS; k++) {
    nalu.is_first_nalu_part = k == 0;
    nalu.is_last_nalu_part = k == PARTS - 1;
    nalu.hashable_data = data + at;
    nalu.hashable_data_size = plens[k];
    at += plens[k];
    rc = hash_and_add(&sv, &nalu);
    VF_CHECK(rc == SV_OK || (rc != SV_OK && gop.list_idx == -1), "a failure invalidates the hash list");
    if (rc != SV_OK) break;
  }
#ifndef GC_FAIL
  VF_CHECK(rc == SV_OK, "hashing succeeds");
#endif
  if (!IN.hashable) {
    VF_CHECK(gc_calls == 0 && gop.list_idx == LISTIDX && gop.num_nalus_in_gop_hash == IN.num, "not hashable: no effect");
  } else if (rc == SV_OK) {
    int last;
    VF_CHECK(gc_is(0, data, total), "the digest covers every byte of the NALU");
    if (IN.gop_sei || (first && !had_ref)) {
      last = 0;
      VF_CHECK(gc_num == 1, "hashed once");
    } else {
      last = 1;
      VF_CHECK(gc_num == 2 && is_buddy(1, IN.ref, 0), "joined with the reference hash");
    }
    if (first && !had_ref) VF_CHECK(gop.has_reference_hash && gc_eq(gop.hash_buddies, 0), "the first NALU of the GOP becomes the reference");
    else VF_CHECK(gop.has_reference_hash == had_ref && gc_same(gop.hash_buddies, IN.ref, HSZ), "the reference is kept");
    /* hash list */
    if (LISTIDX >= 0 && LISTIDX + HSZ <= LISTSIZE) {
      VF_CHECK(gop.list_idx == LISTIDX + HSZ, "hash appended");
      VF_CHECK(gc_eq(&gop.hash_list[LISTIDX], last), "the digest is what is listed");
    } else {
      VF_CHECK(gop.list_idx == -1, "list overflow is remembered");
    }
    for (int i = 0; i < HASH_LIST_SIZE; i++)
      if (i < LISTIDX || i >= LISTIDX + HSZ || LISTIDX < 0) VF_CHECK(gop.hash_list[i] == IN.lst[i], "earlier hashes are kept");
    /* GOP hash */
    VF_CHECK(gc_inits[1] == (LISTIDX == 0 ? 1 : 0), "GOP hash is started with the GOP");
#ifndef GC_FAIL
    VF_CHECK(gc_ctx[1].n == HSZ && gc_eq(gc_ctx[1].s, last), "the GOP hash is fed with the digest, also when the list is full");
#endif
    VF_CHECK(gop.num_nalus_in_gop_hash == (uint16_t)(IN.num + !IN.gop_sei), "NALUs counted");
  }
  VF_REACH(IN.hashable && rc == SV_OK, "hashed");
#ifdef GC_FAIL
  VF_REACH(rc != SV_OK, "failing");
#endif
}

/* On the validation side: hash of the GOP that ends and of the one that starts. */
void
h_hash_for_auth(void)
{
  VF_INPUT();
  session();
  static uint8_t data[3];
  for (int i = 0; i < 3; i++) data[i] = IN.raw[i];
  const bool had_ref = gop.has_reference_hash;
  nalu.is_hashable = IN.hashable;
  nalu.is_gop_sei = IN.gop_sei;
  VF_ASSUME(!(IN.gop_sei && IN.first_in_gop));
  nalu.is_first_nalu_in_gop = IN.first_in_gop;
  nalu.is_first_nalu_part = nalu.is_last_nalu_part = true;
  nalu.hashable_data = data;
  nalu.hashable_data_size = 3;
  item.nalu = &nalu;
  item.second_hash = IN.second ? malloc(MAX_HASH_SIZE) : NULL;
  VF_ASSUME(!IN.second || item.second_hash);
  uint8_t *old_second = item.second_hash;
  sv.validation_flags.hash_algo_known = IN.algo_known;
  sv.gop_state.validate_after_next_nalu = IN.after_next;
  svrc_t rc = hash_and_add_for_auth(&sv, &item);
#ifndef GC_FAIL
  VF_CHECK(rc == SV_OK || rc == SV_MEMORY, "hashing succeeds");
#endif
  const bool twice = IN.first_in_gop || (IN.after_next && !IN.gop_sei);
  if (!IN.hashable || !IN.algo_known) {
    VF_CHECK(gc_calls == 0 && item.second_hash == old_second, "nothing hashed before the algorithm is known");
  } else if (rc == SV_OK) {
    VF_CHECK(item.hash_size == HSZ, "hash size of the item");
    VF_CHECK(gc_is(0, data, 3), "the digest covers the hashable data");
    int next;
    if (IN.gop_sei || (IN.first_in_gop && !had_ref)) {
      VF_CHECK(gc_eq(item.hash, 0), "hash stored");
      next = 1;
    } else {
      VF_CHECK(is_buddy(1, IN.ref, 0) && gc_eq(item.hash, 1), "hash joined with the reference of the GOP that ends");
      next = 2;
    }
    if (twice) {
      VF_CHECK(item.second_hash != NULL, "a second hash at a GOP transition");
      VF_CHECK(gc_is(next, data, 3), "the second hash covers the hashable data");
      if (IN.first_in_gop) {
        VF_CHECK(gc_eq(item.second_hash, next) && gc_num == next + 1, "second hash without reference");
        VF_CHECK(gop.has_reference_hash && gc_eq(gop.hash_buddies, next), "it becomes the reference of the GOP that starts");
      } else {
        VF_CHECK(!gop.has_reference_hash, "no reference for a GOP without its first NALU");
        VF_CHECK(gc_num == next + 2 && gc_eq(item.second_hash, next + 1), "second hash");
      }
    } else {
      VF_CHECK(gc_num == next && item.second_hash == old_second, "one hash only");
      VF_CHECK(gop.has_reference_hash == had_ref, "reference kept");
    }
  }
  VF_REACH(rc == SV_OK && twice && IN.hashable && IN.algo_known, "GOP transition");
  VF_REACH(rc == SV_OK && !twice && IN.hashable && IN.algo_known, "inside a GOP");
#ifdef GC_FAIL
  VF_REACH(rc == SV_EXTERNAL_ERROR, "failing");
#endif
  free(item.second_hash);
}

void
h_hash_params(void)
{
  VF_INPUT();
  session();
  VF_CHECK(hash_and_add(NULL, &nalu) == SV_INVALID_PARAMETER && hash_and_add(&sv, NULL) == SV_INVALID_PARAMETER, "hash_and_add parameters");
  VF_CHECK(hash_and_add_for_auth(NULL, &item) == SV_INVALID_PARAMETER && hash_and_add_for_auth(&sv, NULL) == SV_INVALID_PARAMETER && hash_and_add_for_auth(&sv, &item) == SV_INVALID_PARAMETER, "hash_and_add_for_auth parameters");
  check_and_copy_hash_to_hash_list(NULL, IN.ref, HSZ);
  check_and_copy_hash_to_hash_list(&sv, NULL, HSZ);
  update_num_nalus_in_gop_hash(NULL, &nalu);
  update_num_nalus_in_gop_hash(&sv, NULL);
  VF_CHECK(update_linked_hash(NULL, IN.ref, HSZ) == SV_INVALID_PARAMETER && update_linked_hash(&sv, NULL, HSZ) == SV_INVALID_PARAMETER, "update_linked_hash parameters");
  VF_CHECK(gc_calls == 0, "no effect");
  VF_REACH(true, "end");
}

/* hash list capacity: any index, any limit */
void
h_hash_list(void)
{
  VF_INPUT();
  session();
  VF_ASSUME(IN.list_size <= HASH_LIST_SIZE);
  /* invariant of the index: -1, or a multiple of the hash size within the list */
  VF_ASSUME(IN.list_idx == -1 || (IN.list_idx >= 0 && IN.list_idx % HSZ == 0 && (size_t)IN.list_idx <= IN.list_size));
  gop.list_idx = IN.list_idx;
  gc_ctx[1].open = true;
  uint8_t h[HSZ];
  for (int i = 0; i < HSZ; i++) h[i] = IN.raw[i];
  check_and_copy_hash_to_hash_list(&sv, h, HSZ);
  bool fits = IN.list_idx >= 0 && (size_t)IN.list_idx + HSZ <= IN.list_size;
  VF_CHECK(gop.list_idx == (fits ? IN.list_idx + HSZ : -1), "index moves on, or the list is marked full");
  VF_CHECK(gop.list_idx == -1 || (size_t)gop.list_idx <= gop.hash_list_size, "the list never exceeds its limit");
  for (int i = 0; i < HASH_LIST_SIZE; i++)
    VF_CHECK(gop.hash_list[i] == ((fits && i >= IN.list_idx && i < IN.list_idx + HSZ) ? h[i - IN.list_idx] : IN.lst[i]), "only the new slot is written");
  VF_CHECK(gc_ctx[1].n == HSZ && gc_same(gc_ctx[1].s, h, HSZ), "the GOP hash is always fed");
  VF_CHECK(gc_inits[1] == (IN.list_idx == 0), "the GOP hash is restarted by the first hash only");
  VF_REACH(fits && IN.list_idx == 0, "first");
  VF_REACH(fits && IN.list_idx > 0, "next");
  VF_REACH(!fits && IN.list_idx > 0, "full");
}

void
h_set_list_size(void)
{
  VF_INPUT();
  session();
  size_t old = gop.hash_list_size;
  svrc_t rc = set_hash_list_size(&gop, IN.sz);
  VF_CHECK(IN.sz <= HASH_LIST_SIZE ? (rc == SV_OK && gop.hash_list_size == IN.sz) : (rc == SV_NOT_SUPPORTED && gop.hash_list_size == old), "the limit never exceeds the memory");
  VF_CHECK(set_hash_list_size(NULL, IN.sz) == SV_INVALID_PARAMETER, "parameters");
  VF_REACH(rc == SV_OK, "ok");
  VF_REACH(rc != SV_OK, "refused");
}

void
h_linked_hash(void)
{
  VF_INPUT();
  session();
  sv.authentication_started = IN.auth_started;
  VF_ASSUME(IN.sz <= MAX_HASH_SIZE && IN.sz > 0);
  /* the session's own hash size rules; the other side's must not */
  sdata.hash_size = IN.auth_started ? IN.num % 65 : HSZ;
  vdata.hash_size = IN.auth_started ? HSZ : IN.num % 65;
#ifdef WRONG
  const size_t z = WRONG;
#else
  const size_t z = HSZ;
#endif
  uint8_t h[MAX_HASH_SIZE];
  for (int i = 0; i < MAX_HASH_SIZE; i++) h[i] = IN.raw[i];
  svrc_t rc = update_linked_hash(&sv, h, z);
#ifdef WRONG
  VF_CHECK(rc == SV_INVALID_PARAMETER && gc_same(gop.linked_hashes, IN.linked, 128), "a hash of another size is refused");
#else
  VF_CHECK(rc == SV_OK, "accepted");
  VF_CHECK(gc_same(gop.linked_hashes, IN.linked + HSZ, HSZ), "the previous hash becomes the older one");
  VF_CHECK(gc_same(gop.linked_hashes + HSZ, h, HSZ), "the hash becomes the newer one");
#endif
  VF_REACH(true, "end");
}

/* ---- flags and states ---- */
void
h_flags(void)
{
  VF_INPUT();
  validation_flags_t v = {0};
  v.has_auth_result = IN.flags[0] & 1;
  v.is_first_validation = IN.flags[1] & 1;
  v.reset_first_validation = IN.flags[2] & 1;
  v.signing_present = IN.flags[3] & 1;
  v.is_first_sei = IN.flags[4] & 1;
  v.hash_algo_known = IN.flags[5] & 1;
  const validation_flags_t o = v;
  nalu.is_gop_sei = IN.gop_sei;
  nalu.is_hashable = IN.hashable;
  nalu.is_valid = IN.is_valid;
  update_validation_flags(&v, &nalu);
  VF_CHECK(v.is_first_sei == (!o.signing_present && IN.gop_sei), "first SEI");
  VF_CHECK(v.signing_present == (o.signing_present || IN.gop_sei), "signing once seen stays");
  VF_CHECK(v.has_auth_result == o.has_auth_result && v.is_first_validation == o.is_first_validation && v.reset_first_validation == o.reset_first_validation && v.hash_algo_known == o.hash_algo_known, "other flags kept");
  validation_flags_init(&v);
  VF_CHECK(!v.has_auth_result && v.is_first_validation && !v.reset_first_validation && !v.signing_present && !v.is_first_sei && !v.hash_algo_known, "initial flags");
  gop_state_t g = {0};
  g.has_sei = IN.flags[6] & 1;
  g.has_lost_sei = IN.flags[7] & 1;
  g.no_gop_end_before_sei = IN.flags[8] & 1;
  g.gop_transition_is_lost = IN.flags[9] & 1;
  g.validate_after_next_nalu = IN.flags[10] & 1;
  const gop_state_t og = g;
  gop_state_update(&g, &nalu);
  VF_CHECK(g.has_sei == (og.has_sei || (IN.is_valid > 0 && IN.hashable && IN.gop_sei)), "a SEI is pending");
  VF_CHECK(g.has_lost_sei == og.has_lost_sei && g.no_gop_end_before_sei == og.no_gop_end_before_sei && g.gop_transition_is_lost == og.gop_transition_is_lost && g.validate_after_next_nalu == og.validate_after_next_nalu, "GOP state kept");
  gop_state_reset(&g);
  VF_CHECK(!g.has_sei && !g.has_lost_sei && !g.no_gop_end_before_sei && !g.gop_transition_is_lost && !g.validate_after_next_nalu, "initial GOP state");
  validation_flags_init(NULL);
  update_validation_flags(NULL, &nalu);
  update_validation_flags(&v, NULL);
  gop_state_update(NULL, &nalu);
  gop_state_update(&g, NULL);
  gop_state_reset(NULL);
  VF_REACH(IN.gop_sei, "sei");
}

/* ---- versions ---- */
/* The contract of sscanf("v%d.%d.%d") is assumed under the verifier: three integers or failure. */
#ifdef VF_CBMC
static const char *VA = "v", *VB = "w";
bool vf_version_parse(int *arr, const char *str);
bool
vf_version_parse(int *arr, const char *str)
{
  const int *src = str == VA ? IN.n1 : IN.n2;
  if (IN.flags[str == VA ? 0 : 1] & 1) return false;
  for (int i = 0; i < 3; i++) arr[i] = src[i];
  return true;
}
#endif
static int
cmp3(const int *a, const int *b)
{
  for (int i = 0; i < 3; i++) {
    if (a[i] > b[i]) return 1;
    if (a[i] < b[i]) return 2;
  }
  return 0;
}
void
h_versions(void)
{
  VF_INPUT();
  /* what a version can be: decimal numbers of a byte each */
  for (int i = 0; i < 3; i++) VF_ASSUME(IN.n1[i] >= 0 && IN.n1[i] <= 255 && IN.n2[i] >= 0 && IN.n2[i] <= 255);
  bool bad1 = IN.flags[0] & 1, bad2 = IN.flags[1] & 1;
#ifdef VF_CBMC
  const char *a = VA, *b = VB;
#else
  static char a[40], b[40];
  bad1 ? (void)strcpy(a, "1.x") : bytes_to_version_str(IN.n1, a);
  bad2 ? (void)strcpy(b, "foo") : bytes_to_version_str(IN.n2, b);
#endif
  int r = signed_video_compare_versions(a, b);
  VF_CHECK(r == ((bad1 || bad2) ? -1 : cmp3(IN.n1, IN.n2)), "versions are ordered by major, minor, patch");
  VF_CHECK(signed_video_compare_versions(NULL, b) == -1 && signed_video_compare_versions(a, NULL) == -1, "parameters");
  VF_REACH(r == 0, "same");
  VF_REACH(r == 1, "newer");
  VF_REACH(r == 2, "older");
  VF_REACH(r == -1, "unreadable");
}

/* ---- struct_member_memory_allocated_and_copy ---- */
#ifndef OLD
#define OLD 4
#endif
#ifndef NEW
#define NEW 4
#endif
void
h_member(void)
{
  VF_INPUT();
  void *m = OLD ? malloc(OLD) : NULL;
  VF_ASSUME(!OLD || m);
  for (int i = 0; i < OLD; i++) ((uint8_t *)m)[i] = IN.member[i];
  uint8_t size = OLD;
  static uint8_t src[NEW ? NEW : 1];
  for (int i = 0; i < NEW; i++) src[i] = IN.raw[i];
  svrc_t rc = struct_member_memory_allocated_and_copy(&m, &size, src, NEW);
  if (NEW == 0) {
    VF_CHECK(rc == SV_OK && size == OLD, "nothing new: kept");
    for (int i = 0; i < OLD; i++) VF_CHECK(((uint8_t *)m)[i] == IN.member[i], "kept");
  } else if (NEW == 1 && src[0] == 0) {
    VF_CHECK(rc == SV_OK && !m && !size, "empty string clears");
  } else if (rc == SV_OK) {
    VF_CHECK(size == NEW, "size of the copy");
    for (int i = 0; i < NEW; i++) VF_CHECK(((uint8_t *)m)[i] == src[i], "the copy");
  } else {
    VF_CHECK(rc == SV_MEMORY, "only memory can fail");
  }
  VF_CHECK(struct_member_memory_allocated_and_copy(NULL, &size, src, NEW) == SV_INVALID_PARAMETER && struct_member_memory_allocated_and_copy(&m, NULL, src, NEW) == SV_INVALID_PARAMETER, "parameters");
  VF_REACH(rc == SV_OK, "ok");
  free(m);
}

/* ---- session ---- */
static int stub_teardown, stub_vendor, stub_free_handle, stub_free_report, stub_free_seis, stub_list_free, stub_list_clear, stub_legacy_reset, stub_acc_init, stub_latest_init, stub_legacy_free;
static h26x_nalu_list_t nlist;
static signed_video_latest_validation_t latest;
static signed_video_accumulated_validation_t accu;
void openssl_free_key(void *key) { (void)key; }
void *openssl_create_handle(void) { return (IN.flags[11] & 1) ? NULL : (void *)&crypto_dummy; }
void openssl_free_handle(void *h) { (void)h; stub_free_handle++; }
size_t openssl_get_hash_size(void *h) { (void)h; return (IN.flags[12] & 1) ? 64 : DEFAULT_HASH_SIZE; }
h26x_nalu_list_t *h26x_nalu_list_create() { return &nlist; }
void h26x_nalu_list_free(h26x_nalu_list_t *l) { (void)l; stub_list_free++; }
void h26x_nalu_list_free_items(h26x_nalu_list_t *l) { (void)l; stub_list_clear++; }
void signed_video_authenticity_report_free(signed_video_authenticity_t *a) { (void)a; stub_free_report++; }
void latest_validation_init(signed_video_latest_validation_t *s) { stub_latest_init += s == &latest; }
void accumulated_validation_init(signed_video_accumulated_validation_t *s) { stub_acc_init += s == &accu; }
void free_sei_data_buffer(sei_data_t b[]) { (void)b; stub_free_seis++; }
void sv_signing_plugin_session_teardown(void *h) { (void)h; stub_teardown++; }
void *sv_vendor_axis_communications_setup(void) { return (IN.flags[13] & 1) ? NULL : (void *)&crypto_dummy; }
void sv_vendor_axis_communications_teardown(void *h) { (void)h; stub_vendor++; }
svrc_t legacy_sv_reset(legacy_sv_t *l) { (void)l; stub_legacy_reset++; return IN.rc; }
void legacy_sv_free(legacy_sv_t *l) { (void)l; stub_legacy_free++; }
/* not reached from here */
svrc_t decode_axis_communications_handle(void *h, const uint8_t *d, size_t n) { (void)h; (void)d; (void)n; return SV_OK; }
size_t encode_axis_communications_handle(void *h, uint16_t *l, bool e, uint8_t *d) { (void)h; (void)l; (void)e; (void)d; return 0; }
svrc_t openssl_set_hash_algo_by_encoded_oid(void *h, const unsigned char *o, size_t n) { (void)h; (void)o; (void)n; return SV_OK; }
const unsigned char *openssl_get_hash_algo_encoded_oid(void *h, size_t *n) { (void)h; (void)n; return NULL; }
char *openssl_encoded_oid_to_str(const unsigned char *o, size_t n) { (void)o; (void)n; return NULL; }
svrc_t openssl_public_key_malloc(sign_or_verify_data_t *v, pem_pkey_t *p) { (void)v; (void)p; return SV_OK; }
svrc_t transfer_product_info(signed_video_product_info_t *d, const signed_video_product_info_t *s) { (void)d; (void)s; return SV_OK; }
svrc_t allocate_memory_and_copy_string(char **d, const char *s) { (void)d; (void)s; return SV_OK; }

/* A reset session is as a new one for validation, and keeps configuration, keys and counters. */
void
h_reset(void)
{
  VF_INPUT();
  session();
  static uint8_t ab[4];
  gop.list_idx = IN.list_idx;
  gop.global_gop_counter = IN.counter;
  gop.global_gop_counter_is_synced = IN.flags[14] & 1;
  gop.verified_signature_hash = IN.vsh;
  sv.nalu_list = &nlist;
  sv.latest_validation = &latest;
  sv.accumulated_validation = &accu;
  sv.last_nalu = &nalu;
  nalu.is_first_nalu_part = IN.first;
  nalu.is_last_nalu_part = IN.second;
  nalu.is_gop_sei = IN.gop_sei;
  sv.signing_started = IN.flags[15] & 1;
  sv.sei_generation_enabled = IN.flags[16] & 1;
  sv.validation_flags.has_auth_result = IN.flags[0] & 1;
  sv.validation_flags.is_first_validation = IN.flags[1] & 1;
  sv.validation_flags.signing_present = IN.flags[3] & 1;
  sv.validation_flags.hash_algo_known = IN.flags[5] & 1;
  sv.gop_state.has_sei = IN.flags[6] & 1;
  sv.gop_state.has_lost_sei = IN.flags[7] & 1;
  sv.gop_state.validate_after_next_nalu = IN.flags[10] & 1;
  sv.authentication_started = IN.auth_started;
  sv.arbitrary_data = ab;
  sv.arbitrary_data_size = 4;
  sv.recurrence = IN.num;
  sv.using_golden_sei = IN.trail;
  sv.sei_epb = IN.auth;
  sv.has_public_key = IN.algo_known;
  sv.num_of_completed_seis = IN.flags[17];
  sv.sei_data_buffer_idx = IN.flags[18];
  VF_ASSUME(IN.rc == SV_OK || IN.rc == SV_MEMORY);
  SignedVideoReturnCode rc = signed_video_reset(&sv);
  VF_CHECK(rc == IN.rc, "reset succeeds, or reports that the legacy session could not be reset");
  if (rc == SV_OK) {
    VF_CHECK(!sv.signing_started && !sv.sei_generation_enabled, "signing starts over");
    VF_CHECK(gop.list_idx == 0 && !gop.has_reference_hash && !gop.global_gop_counter_is_synced && gop.verified_signature_hash == -1 && gop.num_nalus_in_gop_hash == 0, "no GOP is going on");
    VF_CHECK(gop.global_gop_counter == IN.counter, "the GOP counter goes on");
    for (int i = 0; i < 2 * MAX_HASH_SIZE; i++) VF_CHECK(gop.linked_hashes[i] == 0, "no linked hash survives");
    VF_CHECK(!sv.gop_state.has_sei && !sv.gop_state.has_lost_sei && !sv.gop_state.validate_after_next_nalu && !sv.gop_state.no_gop_end_before_sei && !sv.gop_state.gop_transition_is_lost, "GOP state as new");
    VF_CHECK(sv.validation_flags.is_first_validation && !sv.validation_flags.has_auth_result && !sv.validation_flags.signing_present && !sv.validation_flags.hash_algo_known, "validation flags as new");
    VF_CHECK(stub_list_clear >= 1 && stub_list_free == 0, "pending NALUs are dropped");
    VF_CHECK(stub_latest_init >= 1 && stub_acc_init >= 1, "reports are initialized");
    VF_CHECK(nalu.is_last_nalu_part && !nalu.is_gop_sei && !nalu.nalu_data, "no NALU is going on");
    VF_CHECK(gc_ctx[0].open && gc_ctx[0].n == 0, "ongoing hash of NALU parts is dropped");
  }
  VF_CHECK(sv.arbitrary_data == ab && sv.arbitrary_data_size == 4 && sv.recurrence == IN.num && sv.using_golden_sei == IN.trail && sv.sei_epb == IN.auth && sv.has_public_key == IN.algo_known, "configuration is kept");
  VF_CHECK(sv.num_of_completed_seis == IN.flags[17] && sv.sei_data_buffer_idx == IN.flags[18], "finished SEIs are kept");
  VF_CHECK(signed_video_reset(NULL) == SV_INVALID_PARAMETER, "parameters");
  VF_REACH(rc == SV_OK, "ok");
}

void
h_create_free(void)
{
  VF_INPUT();
  VF_ASSUME(IN.codec >= -2 && IN.codec <= 3);
  signed_video_t *s = signed_video_create(IN.codec);
  bool bad = IN.codec < 0 || IN.codec > 1 || (IN.flags[11] & 1) || (IN.flags[12] & 1) || (IN.flags[13] & 1);
  if (bad) VF_CHECK(!s, "no session for an unknown codec or without crypto");
  if (s) {
    VF_CHECK((int)s->codec == IN.codec && s->product_info && s->gop_info && s->crypto_handle && s->last_nalu && s->sign_data && s->verify_data, "a complete session");
    VF_CHECK(s->last_nalu->is_last_nalu_part && !s->signing_started && !s->authentication_started && !s->has_public_key && s->sei_epb && s->add_public_key_to_sei && !s->using_golden_sei && !s->gop_hash_off, "defaults");
    VF_CHECK(s->gop_info->hash_list_size == HASH_LIST_SIZE && s->gop_info->list_idx == 0 && s->gop_info->verified_signature_hash == -1 && s->gop_info->global_gop_counter == 0, "GOP defaults");
    VF_CHECK(s->num_of_completed_seis == 0 && s->sei_data_buffer_idx == 0 && s->last_two_bytes == LAST_TWO_BYTES_INIT_VALUE, "no SEI pending");
    signed_video_free(s);
    VF_CHECK(stub_teardown == 1 && stub_vendor == 1 && stub_free_handle == 1 && stub_list_free == 1 && stub_free_report == 1 && stub_free_seis == 1, "everything is released once");
  }
  signed_video_free(NULL);
  VF_REACH(s != NULL, "created");
  VF_REACH(s == NULL, "refused");
}

/* is_golden_sei: any bytes */
void
h_golden(void)
{
  VF_INPUT();
  uint8_t *p = put(N);
  sv.codec = CODEC;
  bool g = signed_video_is_golden_sei(&sv, p, N);
  h26x_nalu_t n = parse_nalu_info(p, N, CODEC, false, true);
  VF_CHECK(g == n.is_golden_sei, "golden as parsed");
  VF_CHECK(!signed_video_is_golden_sei(NULL, p, N) && !signed_video_is_golden_sei(&sv, NULL, N) && !signed_video_is_golden_sei(&sv, p, 0), "parameters");
  VF_REACH(!g, "no");
  free(n.nalu_data_wo_epb);
}
