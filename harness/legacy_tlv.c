/* Contracts on the TLV decoders of old streams (legacy_tlv.c), stated at their interface:
 * legacy_tlv_decode() and legacy_tlv_find_and_decode_optional_tags(). As in tlv.c the specification of
 * a tag is the layout of its value on the wire.  The number readers are the real ones of
 * signed_video_tlv.c. */
#include "vf.h"
#include "legacy/legacy_internal.h"
#include "legacy/legacy_tlv.h"
#include "signed_video_tlv.h"
#include "signed_video_authenticity.h"
#include "signed_video_openssl_internal.h"
#include "includes/signed_video_openssl.h"
#define tlv_decode legacy_tlv_decode
#define tlv_find_and_decode_optional_tags legacy_tlv_find_and_decode_optional_tags
#define signed_video_t legacy_sv_t
#define gop_info_t legacy_gop_info_t
#define DOCUMENT_HASH LEGACY_DOCUMENT_HASH
#define GOP_HASH LEGACY_GOP_HASH
#ifndef HS
#define HS 32  // hash size
#endif
#ifdef EPB
#define SEI_EPB EPB
#else
#define SEI_EPB IN.epb
#endif
#ifndef HAS_TS
#define HAS_TS IN.has_ts
#endif
#ifndef NMAX
#define NMAX 12  // size of variable sized payloads
#endif
/* Sizes are fixed per job, contents are arbitrary. */
#ifndef N
#define N IN.n
#endif
#ifndef N2
#define N2 IN.n2
#endif
#ifndef RSIZE
#define RSIZE IN.raw_size
#endif
#ifndef OLDVER
#define OLDVER 0
#endif
#ifndef BUFMAX
#define BUFMAX 400
#endif

struct vf_in {
  uint16_t l2b;
  uint32_t counter;
  uint16_t num;
  int64_t ts;
  uint8_t version[3];
  uint8_t hashes[2 * 64];
  uint8_t enc_status;
  size_t n, n2;
  uint8_t data[NMAX + 4];
  uint8_t old_key[NMAX + 4];
  char str[5][4];
  uint8_t tag;
  uint8_t raw[48];
  size_t raw_size;
  uint8_t level;
  int list_idx;
  uint8_t esc[24];  // where escapes are needed
  bool epb : 1, has_ts : 1, recurrent : 1, add_pk : 1, has_key : 1, had_key : 1, has_auth : 1, oid_null : 1, doc_hash : 1;
  bool rc_set_algo : 1, rc_pk : 1, rc_vendor : 1;
} IN;

signed_video_t S;
gop_info_t G;
sign_or_verify_data_t SD, VD;
signed_video_product_info_t PI;
signed_video_authenticity_t AUTH;
char VSTR[SV_VERSION_MAX_STRLEN], TSTR[SV_VERSION_MAX_STRLEN];
uint8_t SIG[64], KEYBUF[NMAX + 4];
uint8_t OID[NMAX + 4];
size_t OID_SIZE;
uint8_t EXP[BUFMAX], ESC[BUFMAX + BUFMAX / 2 + 4], OUT[BUFMAX + BUFMAX / 2 + 4];
size_t EXPN, ESCN;

/* Ghost state of the contracts of callees */
int g_pk_malloc, g_set_algo, g_vendor_dec, g_vendor_pk;
const uint8_t *g_algo_ptr;
size_t g_algo_size;
bool g_vendor_pk_changed;

/* ---- assumed contracts of callees outside this file ---- */
size_t
openssl_get_hash_size(void *h)
{
  return HS;
}
char *
openssl_encoded_oid_to_str(const unsigned char *oid, size_t n)
{
  if (n) VF_CHECK(oid[0] == oid[0] && oid[n - 1] == oid[n - 1], "OID is readable");
  return NULL;
}
uint8_t g_oid[16];
svrc_t
openssl_set_hash_algo_by_encoded_oid(void *h, const unsigned char *oid, size_t n)
{
  g_set_algo++;
  g_algo_size = n;
  for (size_t i = 0; i < n; i++)
    if (i < 16) g_oid[i] = oid[i];
  return IN.rc_set_algo ? SV_OK : SV_EXTERNAL_ERROR;
}
svrc_t
openssl_public_key_malloc(sign_or_verify_data_t *v, pem_pkey_t *p)
{
  g_pk_malloc++;
  return IN.rc_pk ? SV_OK : SV_EXTERNAL_ERROR;
}
void
bytes_to_version_str(const int *arr, char *str)
{
  // contract: a version string of at most SV_VERSION_MAX_STRLEN bytes is written
  str[0] = 'v';
  str[SV_VERSION_MAX_STRLEN - 1] = 0;
}
svrc_t
decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data_size)
{
  g_vendor_dec++;
  if (data_size) VF_CHECK(data[0] == data[0] && data[data_size - 1] == data[data_size - 1], "vendor data readable");
  return IN.rc_vendor ? SV_OK : SV_VENDOR_ERROR;
}
svrc_t
set_axis_communications_public_key(void *handle, const void *public_key, bool public_key_has_changed)
{
  g_vendor_pk++;
  g_vendor_pk_changed = public_key_has_changed;
  return SV_OK;
}
/* Contract of allocate_memory_and_copy_string() (proved in report.c): *dst becomes a copy of the
 * null-terminated src. */
#define NSLOT 12
#ifndef SLOTMAX
#define SLOTMAX 8
#endif
char SLOT[NSLOT][32];
int g_slots;
svrc_t
allocate_memory_and_copy_string(char **dst_str, const char *src_str)
{
  if (!dst_str) return SV_INVALID_PARAMETER;
  if (!src_str) src_str = "";
  VF_CHECK(g_slots < NSLOT, "at most one copy per string");
  char *d = SLOT[g_slots++];
  size_t i = 0;
  for (; i < SLOTMAX && src_str[i]; i++) d[i] = src_str[i];
  d[i] = 0;
  *dst_str = d;
  return SV_OK;
}
svrc_t
transfer_product_info(signed_video_product_info_t *dst, const signed_video_product_info_t *src)
{
  *dst = *src;
  return SV_OK;
}

#undef signed_video_t
#undef gop_info_t
#include "legacy/legacy_tlv.c"
#define signed_video_t legacy_sv_t

/* ---- specification: wire format ---- */
static void
put(uint8_t b)
{
  EXP[EXPN++] = b;
}
static void
put_be(uint64_t v, int bytes)
{
  for (int i = bytes - 1; i >= 0; i--) put((uint8_t)(v >> (8 * i)));
}
static void
header(uint8_t tag, int bytes, size_t len)
{
  EXPN = 0;
  put(tag);
  put_be(len, bytes);
}
/* Decodes one TLV whose tag and length are known: by its decoder, or (not DIRECT) from the list of TLVs. */
static svrc_t
one_tlv(const uint8_t *d, size_t n)
{
#ifdef DIRECT
  const size_t h = (d[0] == 1 || d[0] == 7) ? 2 : 3;
  if (n > h) {
    switch (d[0]) {
      case 1: return legacy_decode_general(&S, d + h, n - h);
      case 2: return legacy_decode_public_key(&S, d + h, n - h);
      case 3: return legacy_decode_product_info(&S, d + h, n - h);
      case 4: return legacy_decode_hash_list(&S, d + h, n - h);
      case 5: return legacy_decode_signature(&S, d + h, n - h);
      case 6: return legacy_decode_arbitrary_data(&S, d + h, n - h);
      case 7: return legacy_decode_crypto_info(&S, d + h, n - h);
      case 129: return legacy_decode_axis_communications(&S, d + h, n - h);
      default: break;
    }
  }
#endif
  return tlv_decode(&S, d, n);
}
static void
init(void)
{
  VF_INPUT();
  S.gop_info = &G;
  S.verify_data = &VD;
  S.product_info = &PI;
  G.gop_hash = G.hashes;
  G.nalu_hash = G.hashes + HS;
  AUTH.version_on_signing_side = VSTR;
  AUTH.this_version = TSTR;
  // The report belongs to the session that created this one and is always there.
  IN.has_auth = 1;
  S.authenticity = &AUTH;
  S.latest_validation = &AUTH.latest_validation;
  S.accumulated_validation = &AUTH.accumulated_validation;
  S.crypto_handle = &SD;
  S.vendor_handle = &VD;
  SD.hash_size = HS;
  VD.hash_size = HS;
  VD.hash = G.document_hash;
  G.global_gop_counter = IN.counter;
  G.has_timestamp = HAS_TS;
  G.timestamp = IN.ts;
  S.code_version[0] = IN.version[0];
  S.code_version[1] = IN.version[1];
  S.code_version[2] = IN.version[2];
  G.encoding_status = IN.enc_status;
}

/* GENERAL_TAG */
static void
exp_general(int version)
{
  header(1, 1, 0);
  put((uint8_t)version);
  put_be((uint32_t)(IN.counter + 1), 4);
  put_be(IN.num, 2);
  put(IN.version[0]);
  put(IN.version[1]);
  put(IN.version[2]);
  if (version >= 2) {
    put(HAS_TS ? 1 : 0);
    if (HAS_TS) put_be((uint64_t)IN.ts, 8);
  }
  if (version >= 3)
    for (int i = 0; i < 2 * HS; i++) put(IN.hashes[i]);
  EXP[1] = (uint8_t)(EXPN - 2);
}
void
h_dec_general(void)
{
  init();
#ifndef GVER
#define GVER 2
#endif
  exp_general(GVER);
  G.global_gop_counter = 0;
  G.has_timestamp = !HAS_TS;
  G.timestamp = 0;
  S.code_version[0] = S.code_version[1] = S.code_version[2] = -1;
  svrc_t rc = one_tlv(EXP, EXPN);
  VF_CHECK(rc == SV_OK, "decodes");
  VF_CHECK(G.global_gop_counter == (uint32_t)(IN.counter + 1), "GOP counter");
  VF_CHECK(G.num_sent_nalus == IN.num, "number of NALUs");
  for (int i = 0; i < 3; i++) VF_CHECK(S.code_version[i] == IN.version[i], "version");
  if (GVER >= 2) {
    VF_CHECK(G.has_timestamp == HAS_TS, "has timestamp");
    if (HAS_TS) VF_CHECK(G.timestamp == IN.ts, "timestamp");
    if (IN.has_auth) {
      VF_CHECK(AUTH.latest_validation.has_timestamp == HAS_TS, "report: has timestamp");
      if (HAS_TS) VF_CHECK(AUTH.latest_validation.timestamp == IN.ts, "report: timestamp");
    }
  }
  VF_REACH(1, "end");
}

/* SIGNATURE_TAG */
static void
exp_signature(size_t max)
{
  header(5, 2, 5 + max);
  put(1);
  put(IN.enc_status);
  put(IN.doc_hash ? 1 : 0);
  put_be(N, 2);
  for (size_t i = 0; i < max; i++) put(i < N ? IN.data[i] : 1);
}
void
h_dec_signature(void)
{
  init();
  VF_ASSUME(N <= NMAX);
  exp_signature(NMAX);
  bool preallocated = IN.has_key;
  if (preallocated) {
    VD.signature = SIG;
    VD.max_signature_size = NMAX;
  }
  svrc_t rc = one_tlv(EXP, EXPN);
  VF_CHECK(rc == SV_OK || (!preallocated && !VD.signature), "decodes");
  if (rc == SV_OK) {
    VF_CHECK(VD.signature_size == N && VD.max_signature_size == NMAX, "signature size");
    VF_CHECK(G.encoding_status == IN.enc_status, "encoding status");
    VF_CHECK(G.signature_hash_type == (IN.doc_hash ? DOCUMENT_HASH : GOP_HASH), "hash type");
    for (size_t i = 0; i < N; i++) VF_CHECK(VD.signature[i] == IN.data[i], "signature");
  }
  VF_REACH(rc == SV_OK, "end");
}

/* HASH_LIST_TAG */
void
h_dec_hash_list(void)
{
  init();
  VF_ASSUME(N <= NMAX);
  header(4, 2, 1 + N);
  put(1);
  for (size_t i = 0; i < N; i++) put(IN.data[i]);
  svrc_t rc = one_tlv(EXP, EXPN);
  VF_CHECK(rc == SV_OK, "decodes");
  VF_CHECK(G.list_idx == (int)N, "size of hash list");
  for (size_t i = 0; i < N; i++) VF_CHECK(G.hash_list[i] == IN.data[i], "hash list");
  VF_REACH(1, "end");
}
/* A list that does not fit is refused and nothing is written outside. */
void
h_dec_hash_list_big(void)
{
  init();
  static uint8_t big[HASH_LIST_SIZE + 8];
  big[0] = 4;
  big[1] = (uint8_t)((N + 1) >> 8);
  big[2] = (uint8_t)(N + 1);
  big[3] = 1;
  svrc_t rc = one_tlv(big, N + 4);
  VF_CHECK((rc == SV_OK) == (N <= HASH_LIST_SIZE), "hash list accepted iff it fits");
  if (rc == SV_OK) VF_CHECK(G.list_idx == (int)N, "size");
  VF_REACH(1, "end");
}

/* ARBITRARY_DATA_TAG */
void
h_dec_arbitrary(void)
{
  init();
  VF_ASSUME(N <= NMAX);
  header(6, 2, 1 + N);
  put(1);
  for (size_t i = 0; i < N; i++) put(IN.data[i]);
  svrc_t rc = one_tlv(EXP, EXPN);
  if (N) VF_CHECK(rc == SV_OK, "decodes");
  if (rc == SV_OK) {
    VF_CHECK(S.arbitrary_data_size == N && N > 0, "size");
    for (size_t i = 0; i < N; i++) VF_CHECK(S.arbitrary_data[i] == IN.data[i], "arbitrary data");
  } else {
    VF_CHECK(S.arbitrary_data_size == 0 && !S.arbitrary_data, "no arbitrary data after an error");
  }
  VF_REACH((rc == SV_OK) == (N > 0), "end");
}

/* Length fields of two bytes. */

/* PUBLIC_KEY_TAG */
void
h_dec_public_key(void)
{
  init();
  
  header(2, 2, 1 + OLDVER + N);
  put(OLDVER ? 1 : 2);
  if (OLDVER) put(IN.tag);
  for (size_t i = 0; i < N; i++) put(IN.data[i]);
  // A key may be present already, of the same size or not.
  if (IN.has_key && N2) {
    S.pem_public_key.key = malloc(N2);
    VF_ASSUME(S.pem_public_key.key);
    memcpy(S.pem_public_key.key, IN.old_key, N2);
    S.pem_public_key.key_size = N2;
    S.has_public_key = IN.had_key;
  }
  bool had = S.has_public_key;
  bool differs = !(IN.has_key && N2 == N);
  if (!differs)
    for (size_t i = 0; i < N; i++)
      if (IN.old_key[i] != IN.data[i]) differs = true;
  // A key of another size is compared with an all zero key in the code; PEM has no zero bytes.
  if (IN.has_key && N2 != N) VF_ASSUME(IN.data[0] != 0);
  bool changed_before = IN.doc_hash;
  AUTH.latest_validation.public_key_has_changed = changed_before;
  bool axis = IN.recurrent;
  static char axis_str[] = "Axis Communications AB", other_str[] = "Axis Communications";
  PI.manufacturer = axis ? axis_str : IN.epb ? other_str : NULL;
  VF_ASSUME(IN.has_auth);
  svrc_t rc = one_tlv(EXP, EXPN);
  if (rc != SV_OK && IN.rc_pk) VF_CHECK(!S.pem_public_key.key, "only out of memory");
  if (S.pem_public_key.key && (rc == SV_OK || !IN.rc_pk)) {
    VF_CHECK(S.pem_public_key.key_size == N, "key size");
    for (size_t i = 0; i < N; i++) VF_CHECK(((uint8_t *)S.pem_public_key.key)[i] == IN.data[i], "key");
    VF_CHECK(S.has_public_key, "has key");
    VF_CHECK(AUTH.latest_validation.public_key_has_changed == (changed_before || (had && differs)), "a changed key is reported");
    VF_CHECK(g_pk_malloc == 1, "the key is handed over to the signature verification");
    VF_CHECK((rc == SV_OK) == IN.rc_pk, "status");
    if (rc == SV_OK) {
      VF_CHECK(g_vendor_pk == (axis ? 1 : 0), "vendor gets the key");
      if (axis) VF_CHECK(g_vendor_pk_changed == AUTH.latest_validation.public_key_has_changed, "vendor is told about a changed key");
    }
  }
  VF_REACH(rc == SV_OK && had && differs, "changed");
  VF_REACH(rc == SV_OK && had && (!differs || N != N2), "same");
}

/* CRYPTO_INFO_TAG */
void
h_dec_crypto(void)
{
  init();
  VF_ASSUME(N >= 1 && N <= NMAX);
  header(7, 1, 2 + N);
  put(1);
  put((uint8_t)N);
  for (size_t i = 0; i < N; i++) put(IN.data[i]);
  VD.hash_size = 1;
  G.nalu_hash = NULL;
  svrc_t rc = one_tlv(EXP, EXPN);
  VF_CHECK((rc == SV_OK) == IN.rc_set_algo, "status");
  VF_CHECK(g_set_algo == 1 && g_algo_size == N, "OID size");
  for (size_t i = 0; i < N; i++) VF_CHECK(g_oid[i] == IN.data[i], "OID");
  if (rc == SV_OK) VF_CHECK(VD.hash_size == HS, "hash algorithm in use");
  VF_REACH(rc == SV_OK, "ok");
}

/* VENDOR tag */

/* PRODUCT_INFO_TAG: the lengths of the strings are fixed per job (-1: no string at all). */
#ifndef LENS
#define LENS 3, 0, -1, 2, 1
#endif
static const int lens[5] = {LENS};
static char STRS[5][4];
static char *
string(int i)
{
  for (int k = 0; k < lens[i]; k++) {
    STRS[i][k] = IN.str[i][k];
    VF_ASSUME(IN.str[i][k] != 0);
  }
  return lens[i] < 0 ? NULL : STRS[i];
}
static void
exp_product(void)
{
  size_t total = 1;
  for (int i = 0; i < 5; i++) total += 2 + (lens[i] < 0 ? 0 : lens[i]);
  header(3, 2, total);
  put(1);
  for (int i = 0; i < 5; i++) {
    int n = lens[i] < 0 ? 0 : lens[i];
    put((uint8_t)(n + 1));
    for (int k = 0; k < n; k++) put((uint8_t)IN.str[i][k]);
    put(0);
  }
}
static void
set_strings(void)
{
  PI.hardware_id = string(0);
  PI.firmware_version = string(1);
  PI.serial_number = string(2);
  PI.manufacturer = string(3);
  PI.address = string(4);
}
static bool
str_is(const char *s, int i)
{
  int n = lens[i] < 0 ? 0 : lens[i];
  if (!s) return false;
  for (int k = 0; k < n; k++)
    if (s[k] != IN.str[i][k]) return false;
  return s[n] == 0;
}
static bool
is_product(const signed_video_product_info_t *p)
{
  return str_is(p->hardware_id, 0) && str_is(p->firmware_version, 1) && str_is(p->serial_number, 2) && str_is(p->manufacturer, 3) && str_is(p->address, 4);
}
void
h_dec_product(void)
{
  init();
  set_strings();
  memset(&PI, 0, sizeof(PI));
  exp_product();
  svrc_t rc = one_tlv(EXP, EXPN);
  VF_CHECK(rc == SV_OK, "decodes");
  VF_CHECK(is_product(&PI), "product info");
  if (IN.has_auth) VF_CHECK(is_product(&AUTH.product_info), "product info in the report");
  VF_REACH(1, "end");
}
/* Strings that do not fit in a one byte size are truncated and stay null-terminated. */
#ifndef ROT
#define ROT 0
#endif

/* A list of tags is the concatenation, optional ones are left out when not due. */

/* ---- memory safety of the decoders: any bytes, placed at the end of their object ---- */
uint8_t RAW[48];
static const uint8_t *
raw(size_t max)
{
  VF_ASSUME(RSIZE >= 1 && RSIZE <= max);
  memcpy(RAW, IN.raw, sizeof(RAW));
  return RAW + (sizeof(RAW) - RSIZE);
}
static void
any_decoder_state(void)
{
  if (IN.has_key) {
    VD.signature = SIG;
    VD.max_signature_size = N2;
    VF_ASSUME(N2 <= sizeof(SIG));
  }
  if (IN.had_key) {
    S.pem_public_key.key = malloc(4);
    VF_ASSUME(S.pem_public_key.key);
    S.pem_public_key.key_size = 4;
    S.has_public_key = IN.recurrent;
  }
  if (!IN.has_auth) S.latest_validation = &AUTH.latest_validation;
}
static void
decoder_post(svrc_t rc)
{
  VF_CHECK(G.list_idx >= -1 && G.list_idx <= (int)HASH_LIST_SIZE, "hash list inside its memory");
  VF_CHECK(!VD.signature || VD.signature_size <= VD.max_signature_size, "signature inside its memory");
  VF_CHECK(G.signature_hash_type == GOP_HASH || G.signature_hash_type == DOCUMENT_HASH, "hash type in range");
  VF_CHECK(!S.arbitrary_data_size == !S.arbitrary_data, "arbitrary data consistent");
}
#ifndef RAWMAX
#define RAWMAX 48
#endif
/* One TLV with tag TAG, any length field and any payload. */
#ifndef TAG
#define TAG 1
#endif
void
h_safe_tag(void)
{
  init();
  
  memcpy(RAW, IN.raw, sizeof(RAW));
  const uint8_t *d = RAW + (sizeof(RAW) - RSIZE);
  RAW[sizeof(RAW) - RSIZE] = TAG;
  any_decoder_state();
  // one TLV: the length field covers the rest
  size_t lb = (TAG == 1 || TAG == 7) ? 1 : 2;
  if (RSIZE >= 1 + lb) {
    if (lb == 2) RAW[sizeof(RAW) - RSIZE + 1] = 0;
    RAW[sizeof(RAW) - RSIZE + lb] = (uint8_t)(RSIZE - 1 - lb);
  }
  svrc_t rc = one_tlv(d, RSIZE);
  decoder_post(rc);
  VF_REACH(rc == SV_OK || RSIZE < 11 || TAG == 3 || (TAG == 1 && RSIZE != 12 && RSIZE != 13 && RSIZE != 21), "ok");
  VF_REACH(rc != SV_OK, "refused");
}
/* The loops over TLVs, against the contract of a decoder: it may read its value and nothing else. */
const uint8_t *g_dec_ptr[10];
size_t g_dec_size[10];
int g_dec_calls;
svrc_t
vf_decoder(signed_video_t *self, const uint8_t *data, size_t data_size)
{
  VF_CHECK(self == &S && data && data_size > 0, "value to decode");
  VF_CHECK(data >= RAW + (sizeof(RAW) - RSIZE) && data < RAW + sizeof(RAW) && data_size <= (size_t)(RAW + sizeof(RAW) - data), "the value is inside the data");
  VF_CHECK(g_dec_calls < 10, "at most one call per TLV");
  g_dec_ptr[g_dec_calls] = data;
  g_dec_size[g_dec_calls] = data_size;
  g_dec_calls++;
  return (IN.esc[g_dec_calls - 1] & 1) ? SV_OK : SV_AUTHENTICATION_ERROR;
}
static int
spec_lb(uint8_t tag)
{
  if (tag == 1 || tag == 7) return 1;
  if ((tag >= 2 && tag <= 6) || tag == 129) return 2;
  return 0;
}
static bool
spec_optional(uint8_t tag)
{
  return tag == 2 || tag == 3 || tag == 7 || tag == 129;
}
/* Specification: walks the TLVs; the k:th (optional) value goes to a decoder unless something failed. */
static bool
spec_walk(bool optional_only, bool *all_ok)
{
  const uint8_t *d = RAW + (sizeof(RAW) - RSIZE);
  size_t pos = 0;
  int k = 0;
  bool ok = true;
  *all_ok = false;
  for (int i = 0; i < RSIZE / 3 + 1; i++) {
    if (!ok || pos >= RSIZE) break;
    int lb = spec_lb(d[pos]);
    if (lb == 0 || RSIZE - pos < 1 + (size_t)lb) {
      ok = false;
      break;
    }
    size_t len = lb == 1 ? d[pos + 1] : (size_t)((d[pos + 1] << 8) | d[pos + 2]);
    if (len == 0 || len > RSIZE - pos - 1 - lb) {
      ok = false;
      break;
    }
    if (!optional_only || spec_optional(d[pos])) {
      if (!(k < g_dec_calls && g_dec_ptr[k] == d + pos + 1 + lb && g_dec_size[k] == len)) return false;
      k++;
      if (!(IN.esc[k - 1] & 1)) {
        ok = false;
        break;
      }
    }
    pos += 1 + lb + len;
  }
  *all_ok = ok;
  return k == g_dec_calls;
}
void
h_loop_decode(void)
{
  init();
  const uint8_t *d = raw(RAWMAX);
  svrc_t rc = tlv_decode(&S, d, RSIZE);
#ifdef VF_CBMC
  bool all_ok;
  VF_CHECK(spec_walk(false, &all_ok), "every value goes to its decoder, in order");
  VF_CHECK((rc == SV_OK) == all_ok, "the data decodes iff every TLV does");
#endif
  VF_REACH(rc == SV_OK, "ok");
  VF_REACH(rc != SV_OK && g_dec_calls == 2, "refused");
}
void
h_loop_optional(void)
{
  init();
  const uint8_t *d = raw(RAWMAX);
  bool r = tlv_find_and_decode_optional_tags(&S, d, RSIZE);
#ifdef VF_CBMC
  bool all_ok;
  VF_CHECK(spec_walk(true, &all_ok), "every optional value goes to its decoder");
  bool decoded = false;
  for (int i = 0; i < g_dec_calls; i++) decoded |= (IN.esc[i] & 1);
  VF_CHECK(r == decoded, "result");
#endif
  VF_REACH(r, "decoded");
  VF_REACH(!r, "nothing");
}
/* Parameter checks */
void
h_tlv_params(void)
{
  init();
  static uint8_t d[4] = {6, 0, 1, 1};
  VF_CHECK(tlv_decode(NULL, d, 4) != SV_OK && tlv_decode(&S, NULL, 4) != SV_OK && tlv_decode(&S, d, 0) != SV_OK, "null");
  VF_CHECK(!tlv_find_and_decode_optional_tags(NULL, d, 4) && !tlv_find_and_decode_optional_tags(&S, NULL, 4) && !tlv_find_and_decode_optional_tags(&S, d, 0), "null");
  VF_REACH(1, "end");
}
