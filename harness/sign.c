/* Contracts on signed_video_h26x_sign.c: generating, completing and handing out SEIs, and the settings of
 * a signing session.  Encoding of TLVs, parsing, hashing and the signing plugin are contract stubs with
 * ghost state: the sequence of events, and the bytes each of them wrote or was given. */
#include "vf.h"
#include "signed_video_internal.h"
#include "signed_video_h26x_internal.h"
#include "signed_video_authenticity.h"
#include "signed_video_openssl_internal.h"
#include "signed_video_tlv.h"
#include "includes/signed_video_common.h"
#include "includes/signed_video_sign.h"
#include "includes/signed_video_signing_plugin.h"

#ifndef HS
#define HS 8
#endif
/* size and escaped size of the four groups: optional, mandatory, vendor, signature */
#ifndef SIZES
#define SIZES 3, 4, 2, 5
#endif
#ifndef WRITTEN
#define WRITTEN SIZES
#endif
#ifndef MSHORT  // size of the mandatory group without hash list
#define MSHORT 2
#endif
#ifndef MSHORTW
#define MSHORTW MSHORT
#endif
#ifndef SMAX
#define SMAX 8
#endif
#ifndef CODEC
#define CODEC SV_CODEC_H264
#endif
#ifndef QTOTAL
#define QTOTAL 0
#endif
#ifndef QDONE
#define QDONE 0
#endif
#ifndef QSEI
#define QSEI 6  // memory of a SEI in the queue
#endif
#ifndef NSIG
#define NSIG 1  // signatures the plugin has available
#endif
#ifndef SIGZ
#define SIGZ 5  // size of the signature
#endif
#ifndef GOLDEN
#define GOLDEN 0
#endif
#ifndef UGOLDEN
#define UGOLDEN 0
#endif
#ifndef MAXPAY
#define MAXPAY 0
#endif
/* what fails: 0 nothing, 1 memory, 2..4 encoding, 5 hashing the SEI, 6 signing, 7 the GOP hash */
#ifndef NINGOP
#define NINGOP 7
#endif
#ifndef FAIL
#define FAIL 0
#endif
#define NOMEM (FAIL == 1)
#define TFAIL(g) ((g) < 3 && FAIL == 2 + (g))
#define RC_DOC (FAIL == 5)
#define RC_SIGN (FAIL == 6)
#define RC_FIN (FAIL == 7)
/* the NALU added: first in GOP, last part, SEI generation enabled */
#ifndef FIRST
#define FIRST 1
#endif
#ifndef LAST
#define LAST 1
#endif
#ifndef ENABLED
#define ENABLED 1
#endif
#ifndef KEY
#define KEY 1
#endif
#ifndef RECUR
#define RECUR 1
#endif
#define LISTIDX0 (2 * HS)
#define QMEM (QTOTAL ? QTOTAL : 1)

struct vf_in {
  uint8_t group[4][SMAX];
  uint8_t qdata[QMEM][QSEI];
  uint16_t qltb[QMEM], g_ltb[4], ltb;
  uint8_t hash[3][HS];
  uint8_t fin[HS];
  int64_t ts, ts_in;
  int rc_hash1, rc_link, rc_sig[3], rc_key, rc_pub, rc_algo, rc_str;
  int valid, ntype, level, algo, peek_type;
  unsigned frame_count, recurrence_in;
  uint64_t size64, hash_size64;
  uint8_t data[8];
  bool epb : 1, hash_off : 1, started : 1, has_ts : 1, want_ts : 1, refhash : 1, primary : 1, hashable : 1, last_was_last : 1, recurrent : 1, avoid : 1, nullself : 1, nulldata : 1, setup : 1, b0 : 1, b1 : 1, want_off : 1, want_num : 1, peek : 1, peek_primary : 1, vend : 1, golden_in : 1;
} IN;

static signed_video_t sv;
static gop_info_t gi;
static sign_or_verify_data_t sd;
static uint8_t sd_hash[MAX_HASH_SIZE], sd_sig[16];
static h26x_nalu_t last_nalu;
static signed_video_product_info_t prod;
static int plugin_dummy, crypto_dummy, key_dummy;
static const size_t gsize[4] = {SIZES};
static const size_t gwritten[4] = {WRITTEN};

/* ---- events ---- */
enum { EV_FIN = 1, EV_OPT, EV_MAND, EV_VEND, EV_SIGNATURE, EV_DOC, EV_SIGN, EV_HASH, EV_LINK, EV_GETSIG };
#define NEV 24
static int ev[NEV], nev;
static void
event(int e)
{
  if (nev < NEV) ev[nev] = e;
  nev++;
}
static int
count(int e)
{
  int n = 0;
  for (int i = 0; i < NEV; i++)
    if (i < nev && ev[i] == e) n++;
  return n;
}
static int
at(int e)
{
  for (int i = 0; i < NEV; i++)
    if (i < nev && ev[i] == e) return i;
  return -1;
}

/* ---- allocation ---- */
static size_t alloc_size;
static uint8_t *alloc_ptr;
static int nalloc;
static void *
vf_malloc(size_t n)
{
  nalloc++;
  if (NOMEM) return NULL;
  alloc_size = n;
  alloc_ptr = malloc(n);
  VF_ASSUME(alloc_ptr);
  return alloc_ptr;
}
#define malloc vf_malloc

/* ---- contracts of the callees ---- */
const uint8_t kUuidSignedVideo[UUID_LEN] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};
static const sv_tlv_tag_t opt_tags[] = {PUBLIC_KEY_TAG, PRODUCT_INFO_TAG};
static const sv_tlv_tag_t mand_tags[] = {GENERAL_TAG, HASH_LIST_TAG};
static const sv_tlv_tag_t vend_tags[] = {VENDOR_AXIS_COMMUNICATIONS_TAG};
const sv_tlv_tag_t *
get_optional_tags(size_t *n)
{
  *n = 2;
  return opt_tags;
}
const sv_tlv_tag_t *
get_mandatory_tags(size_t *n)
{
  *n = 2;
  return mand_tags;
}
/* see tlv_bytes.c */
void
write_byte(uint16_t *ltb, uint8_t **p, uint8_t b, bool epb)
{
  if (epb && *ltb == 0 && b <= 3) {
    *(*p)++ = 3;
    *ltb = (uint16_t)((*ltb << 8) | 3);
  }
  *(*p)++ = b;
  *ltb = (uint16_t)((*ltb << 8) | b);
}
/* see tlv.c: the size without escapes, or the bytes written, resuming with the last two bytes */
static uint8_t *where[4];
static size_t wrote[4];
static uint16_t ltb_at[4];
static bool mand_has_list;
size_t
tlv_list_encode_or_get_size(signed_video_t *self, const sv_tlv_tag_t *tags, size_t n, uint8_t *data)
{
  int g = tags == opt_tags ? 0 : tags == mand_tags ? 1 : tags == vend_tags ? 2 : 3;
  VF_CHECK(g == 3 ? (n == 1 && tags[0] == SIGNATURE_TAG) : g == 2 ? n == 1 : n == 2, "TLV groups");
  const bool brief = g == 1 && gi.list_idx < 0;
  const size_t z = brief ? MSHORT : gsize[g];
  const size_t w = brief ? MSHORTW : gwritten[g];
  if (!data) return z;
  if (z == 0 || (TFAIL(g))) return 0;
  event(EV_OPT + g);
  where[g] = data;
  wrote[g] = w;
  ltb_at[g] = self->last_two_bytes;
  if (g == 1) mand_has_list = !brief;
  for (size_t i = 0; i < w; i++) data[i] = IN.group[g][i % SMAX];
  self->last_two_bytes = IN.g_ltb[g];
  return w;
}
static const uint8_t *parsed_data;
static size_t parsed_size;
static bool parsed_trailing, parsed_auth;
static uint8_t doc[128];
h26x_nalu_t
parse_nalu_info(const uint8_t *data, size_t n, SignedVideoCodec codec, bool trailing, bool auth)
{
  h26x_nalu_t r = {0};
  VF_CHECK(codec == CODEC, "the codec of the session");
  parsed_data = data;
  parsed_size = n;
  parsed_trailing = trailing;
  parsed_auth = auth;
  r.nalu_data = data;
  r.nalu_data_size = n;
  r.hashable_data = data;
  r.hashable_data_size = n;
  r.is_first_nalu_part = true;
  r.is_last_nalu_part = true;
  if (auth) {  // the SEI being generated
    r.is_valid = 1;
    r.is_hashable = true;
    r.is_gop_sei = true;
    r.nalu_type = NALU_TYPE_SEI;
  } else if (data == (const uint8_t *)IN.data) {  // the NALU added or peeked
    r.is_valid = IN.valid;
    r.is_hashable = IN.hashable;
    r.is_first_nalu_in_gop = FIRST;
    r.is_primary_slice = IN.primary;
    r.nalu_type = IN.ntype;
  } else {  // a SEI handed out
    r.is_valid = 1;
    r.payload = data + 2;
  }
  return r;
}
/* see common.c, h_copy_nalu */
void
copy_nalu_except_pointers(h26x_nalu_t *d, const h26x_nalu_t *s)
{
  *d = *s;
  d->nalu_data = NULL;
  d->hashable_data = NULL;
  d->pending_nalu_data = NULL;
  d->payload = NULL;
  d->tlv_start_in_nalu_data = NULL;
  d->tlv_data = NULL;
  d->nalu_data_wo_epb = NULL;
}
/* see common.c, h_hash_and_add */
static h26x_nalu_t hashed;
svrc_t
hash_and_add(signed_video_t *self, const h26x_nalu_t *n)
{
  const int k = n->is_gop_sei ? 0 : 1;
  event(k ? EV_HASH : EV_DOC);
  if (k) hashed = *n;
  if (k ? IN.rc_hash1 : RC_DOC) {
    self->gop_info->list_idx = -1;
    return SV_EXTERNAL_ERROR;
  }
  if (!k) {
    VF_CHECK(n->hashable_data == alloc_ptr, "the document is the SEI from its first byte");
    for (size_t i = 0; i < sizeof(doc); i++)
      if (i < n->hashable_data_size) doc[i] = n->hashable_data[i];
  }
  for (int i = 0; i < HS; i++) gi.nalu_hash[i] = IN.hash[k][i];
  return SV_OK;
}
static bool link_ok;
svrc_t
update_linked_hash(signed_video_t *self, uint8_t *h, size_t n)
{
  event(EV_LINK);
  link_ok = self == &sv && h && n == HS;
  if (link_ok)
    for (int i = 0; i < HS; i++) link_ok &= h[i] == IN.hash[1][i];
  return IN.rc_link ? SV_EXTERNAL_ERROR : SV_OK;
}
static bool fin_primary;
svrc_t
openssl_finalize_hash(void *handle, uint8_t *h, bool primary)
{
  event(EV_FIN);
  VF_CHECK(handle == &crypto_dummy, "crypto handle");
  fin_primary = primary;
  if (RC_FIN) return SV_EXTERNAL_ERROR;
  for (int i = 0; i < HS; i++) h[i] = IN.fin[i];
  return SV_OK;
}
static uint8_t signed_hash[HS];
static size_t signed_size;
SignedVideoReturnCode
sv_signing_plugin_sign(void *handle, const uint8_t *hash, size_t n)
{
  event(EV_SIGN);
  VF_CHECK(handle == &plugin_dummy, "the plugin of the session");
  signed_size = n;
  for (int i = 0; i < HS; i++) signed_hash[i] = hash[i];
  return RC_SIGN ? SV_EXTERNAL_ERROR : SV_OK;
}
static int nsig;
bool
sv_signing_plugin_get_signature(void *handle, uint8_t *sig, size_t max, size_t *n, SignedVideoReturnCode *err)
{
  VF_CHECK(handle == &plugin_dummy, "the plugin of the session");
  VF_CHECK(sig == sd_sig && max == sizeof(sd_sig), "the signature memory of the session");
  if (nsig >= NSIG) {
    *n = 0;
    return false;
  }
  event(EV_GETSIG);
  *n = SIGZ;
  *err = IN.rc_sig[nsig] ? SV_EXTERNAL_ERROR : SV_OK;
  nsig++;
  return true;
}
SignedVideoReturnCode
openssl_private_key_malloc(sign_or_verify_data_t *d, const char *key, size_t n)
{
  VF_CHECK(d == &sd && key && n, "private key");
  if (IN.rc_key) return SV_EXTERNAL_ERROR;
  d->key = &key_dummy;
  return SV_OK;
}
svrc_t
openssl_read_pubkey_from_private_key(sign_or_verify_data_t *d, pem_pkey_t *pem)
{
  VF_CHECK(d == &sd && pem == &sv.pem_public_key, "public key of the session");
  return IN.rc_pub ? SV_EXTERNAL_ERROR : SV_OK;
}
static int nfreed_key;
void
openssl_free_key(void *key)
{
  if (key) nfreed_key++;
}
void *
sv_signing_plugin_session_setup(const void *key, size_t n)
{
  return IN.setup ? &plugin_dummy : NULL;
}
svrc_t
openssl_set_hash_algo(void *handle, const char *name)
{
  return IN.rc_algo ? SV_INVALID_PARAMETER : SV_OK;
}
size_t
openssl_get_hash_size(void *handle)
{
  return IN.hash_size64;
}
static int nstr;
static const char *strs[5];
static char **strd[5];
svrc_t
allocate_memory_and_copy_string(char **d, const char *s)
{
  if (nstr < 5) strs[nstr] = s, strd[nstr] = d;
  nstr++;
  return IN.rc_str == nstr ? SV_MEMORY : SV_OK;
}
static int nprodfree;
void
product_info_free_members(signed_video_product_info_t *p)
{
  VF_CHECK(p == &prod, "product info of the session");
  nprodfree++;
}

#include "signed_video_h26x_sign.c"
#undef malloc

/* ---- state ---- */
static uint8_t *q0[QMEM];
static void
session(void)
{
  sv.codec = CODEC;
  sv.product_info = &prod;
  sv.crypto_handle = &crypto_dummy;
  sv.plugin_handle = &plugin_dummy;
  sv.gop_info = &gi;
  sv.sign_data = &sd;
  sv.last_nalu = &last_nalu;
  sd.hash = sd_hash;
  sd.hash_size = HS;
  sd.signature = sd_sig;
  sd.max_signature_size = sizeof(sd_sig);
  gi.gop_hash = gi.hashes;
  gi.nalu_hash = gi.hashes + HS;
  gi.list_idx = LISTIDX0;
  gi.has_timestamp = IN.has_ts;
  gi.timestamp = IN.ts;
  gi.has_reference_hash = IN.refhash;
  gi.num_nalus_in_gop_hash = NINGOP;
  sv.sei_epb = IN.epb;
  sv.gop_hash_off = IN.hash_off;
  sv.is_golden_sei = GOLDEN;
  sv.using_golden_sei = UGOLDEN;
  sv.max_sei_payload_size = MAXPAY;
  sv.sei_generation_enabled = ENABLED;
  sv.signing_started = IN.started;
  sv.recurrence = RECUR;
  sv.frame_count = IN.frame_count;
  sv.has_recurrent_data = IN.recurrent;
  sv.avoid_checking_available_seis = IN.avoid;
  sv.last_two_bytes = IN.ltb;
  if (gsize[2]) {
    sv.vendor_encoders = vend_tags;
    sv.num_vendor_encoders = 1;
  }
  last_nalu.is_last_nalu_part = IN.last_was_last;
  sv.sei_data_buffer_idx = QTOTAL;
  sv.num_of_completed_seis = QDONE;
  for (int i = 0; i < QTOTAL; i++) {
    q0[i] = malloc(QSEI + 8);
    VF_ASSUME(q0[i]);
    for (int k = 0; k < QSEI; k++) q0[i][k] = IN.qdata[i][k];
    sv.sei_data_buffer[i].sei = q0[i];
    sv.sei_data_buffer[i].write_position = q0[i] + QSEI - 3;
    sv.sei_data_buffer[i].last_two_bytes = IN.qltb[i];
    sv.sei_data_buffer[i].completed_sei_size = i < QDONE ? QSEI - (i & 1) : 0;
  }
}
/* Entry |now| of the queue is what entry |was| was. */
static void
same_entry(int now, int was)
{
  VF_CHECK(sv.sei_data_buffer[now].sei == q0[was] && sv.sei_data_buffer[now].write_position == q0[was] + QSEI - 3 && sv.sei_data_buffer[now].last_two_bytes == IN.qltb[was], "other SEIs are kept in order");
  VF_CHECK(sv.sei_data_buffer[now].completed_sei_size == (was < QDONE ? QSEI - (was & 1) : 0), "the state of other SEIs is kept");
  for (int k = 0; k < QSEI; k++) VF_CHECK(q0[was][k] == IN.qdata[was][k], "the bytes of other SEIs are kept");
}
static void
empty_from(int n)
{
  for (int i = 0; i < MAX_SEI_DATA_BUFFER; i++)
    if (i >= n) VF_CHECK(!sv.sei_data_buffer[i].sei && !sv.sei_data_buffer[i].write_position && !sv.sei_data_buffer[i].completed_sei_size, "the rest of the queue is empty");
}
static size_t
escaped(size_t n)  // most bytes n bytes can become, any two bytes before them
{
  return n + (n + 1) / 2;
}

/* Bytes of the SEI in front of the signature. */
static size_t
check_sei(const uint8_t *p, bool golden)
{
  const bool with_opt = !(UGOLDEN && !golden) && gsize[0] > 0;
  const bool with_mand = !golden;
  size_t full = UUID_LEN + 1 + (with_opt ? gsize[0] : 0) + (with_mand ? gsize[1] : 0) + gsize[2] + gsize[3];
  const bool brief = MAXPAY > 0 && full > MAXPAY && with_mand;
  if (brief) full = full - gsize[1] + MSHORT;
  size_t i = 0;
  VF_CHECK(p[0] == 0 && p[1] == 0 && p[2] == 0 && p[3] == 1, "start code");
  if (CODEC == SV_CODEC_H264) {
    VF_CHECK(p[4] == 6, "H.264 SEI header");
    i = 5;
  } else {
    VF_CHECK(p[4] == 0x4e && p[5] == 1, "H.265 SEI header");
    i = 6;
  }
  VF_CHECK(p[i] == 5, "user data unregistered");
  i++;
  size_t left = full;
  while (left >= 255) {
    VF_CHECK(p[i] == 255, "payload size");
    i++;
    left -= 255;
  }
  VF_CHECK(p[i] == left, "payload size counts every byte up to the stop byte");
  i++;
  for (int k = 0; k < UUID_LEN; k++) VF_CHECK(p[i + k] == kUuidSignedVideo[k], "UUID");
  i += UUID_LEN;
  VF_CHECK(p[i] == ((IN.epb << 7) | (golden << 6) | (1 << 5) | (!IN.hash_off << 4)), "reserved byte");
  i++;
  VF_CHECK((at(EV_OPT) >= 0) == with_opt && (at(EV_MAND) >= 0) == with_mand && (at(EV_VEND) >= 0) == (gsize[2] > 0), "the groups that are due are encoded");
  if (with_opt) {
    VF_CHECK(where[0] == p + i, "optional information follows");
    i += wrote[0];
  }
  if (with_mand) {
    VF_CHECK(where[1] == p + i, "mandatory information follows");
    VF_CHECK(mand_has_list == !brief, "the hash list is left out only when the payload would be too large");
    i += wrote[1];
  }
  if (gsize[2]) {
    VF_CHECK(where[2] == p + i, "vendor information follows");
    i += wrote[2];
  }
  return i;
}

/* A SEI is generated: its bytes, its memory, and what is signed. */
void
h_generate(void)
{
  VF_INPUT();
  session();
  uint8_t *payload = NULL, *sigp = (uint8_t *)&sv;
  const svrc_t rc = generate_sei_nalu(&sv, &payload, &sigp);
#if QTOTAL >= MAX_SEI_DATA_BUFFER
  VF_CHECK(rc == SV_NOT_SUPPORTED && !payload && nalloc == 0 && nev == 0, "a full queue is reported and nothing is signed");
  VF_REACH(rc == SV_NOT_SUPPORTED, "full");
#else
  const bool golden = GOLDEN;
  const bool tfail = (TFAIL(0) && !(UGOLDEN && !golden) && gsize[0] > 0) || (TFAIL(1) && !golden) || (TFAIL(2) && gsize[2] > 0);
  if (NOMEM || tfail || RC_DOC || RC_SIGN) {
    VF_CHECK(rc != SV_OK && !payload && !sigp, "a failure is returned and no SEI is left");
    if (NOMEM || tfail || RC_DOC) VF_CHECK(count(EV_SIGN) == 0, "nothing is signed if the SEI could not be made");
  } else {
    VF_CHECK(rc == SV_OK && payload == alloc_ptr && nalloc == 1, "the SEI is generated");
    const size_t len = check_sei(payload, golden);
    VF_CHECK(sigp == payload + len, "the signature is to be written after the rest");
    VF_CHECK(len + escaped(gsize[3]) + 1 <= alloc_size, "the memory holds the signature however it is escaped");
    VF_CHECK(at(EV_SIGNATURE) < 0, "the signature is not written yet");
    VF_CHECK(count(EV_DOC) == 1 && parsed_data == payload && parsed_size == len && !parsed_trailing && parsed_auth, "the hash covers the SEI up to the signature");
    for (size_t i = 0; i < sizeof(doc); i++)
      if (i < len) VF_CHECK(doc[i] == payload[i], "nothing changes after it was hashed");
    VF_CHECK(count(EV_SIGN) == 1 && signed_size == HS && at(EV_SIGN) > at(EV_DOC), "signed once");
    for (int i = 0; i < HS; i++) VF_CHECK(signed_hash[i] == IN.hash[0][i], "the hash of the SEI is what is signed");
    VF_CHECK(gi.num_nalus_in_gop_hash == 0 && gi.list_idx == 0 && !gi.has_reference_hash && !gi.has_timestamp, "a new GOP starts");
  }
  VF_CHECK(sv.sei_data_buffer_idx == QTOTAL && sv.num_of_completed_seis == QDONE, "the queue is untouched");
  VF_REACH(FAIL ? rc != SV_OK : rc == SV_OK, "generated or failed");
#endif
}

/* The oldest SEI that waits for a signature gets it, whatever the signature is. */
void
h_complete(void)
{
  VF_INPUT();
  session();
  sd.signature_size = SIGZ;
  const bool sig = sd.signature_size != 0;
  const svrc_t rc = complete_sei_nalu_and_add_to_prepend(&sv);
#if QTOTAL == 0
  VF_CHECK(rc == SV_NOT_SUPPORTED && nev == 0, "nothing to complete");
  VF_REACH(1, "empty");
#else
  VF_CHECK(rc == SV_OK, "completing does not fail");
  for (int i = 0; i < QDONE; i++) same_entry(i, i);
  if (sig) {
    VF_CHECK(sv.num_of_completed_seis == QDONE + 1 && sv.sei_data_buffer_idx == QTOTAL, "one more is completed");
    for (int i = QDONE + 1; i < QTOTAL; i++) same_entry(i, i);
    const sei_data_t *s = &sv.sei_data_buffer[QDONE];
    VF_CHECK(s->sei == q0[QDONE], "the oldest SEI that waits is completed");
    VF_CHECK(count(EV_SIGNATURE) == 1 && where[3] == q0[QDONE] + QSEI - 3, "the signature continues where the SEI ended");
    VF_CHECK(ltb_at[3] == IN.qltb[QDONE], "escapes continue where the SEI ended");
    for (int k = 0; k < QSEI - 3; k++) VF_CHECK(q0[QDONE][k] == IN.qdata[QDONE][k], "what was signed is unchanged");
    for (size_t k = 0; k < gwritten[3]; k++) VF_CHECK(q0[QDONE][QSEI - 3 + k] == IN.group[3][k % SMAX], "signature");
    VF_CHECK(q0[QDONE][QSEI - 3 + gwritten[3]] == 0x80, "stop byte");
    VF_CHECK(s->completed_sei_size == QSEI - 3 + gwritten[3] + 1, "the size counts every byte");
    VF_CHECK(!sv.has_recurrent_data, "recurrent information has been sent");
  } else {
    VF_CHECK(sv.num_of_completed_seis == QDONE && sv.sei_data_buffer_idx == QTOTAL - 1, "a SEI that cannot be signed is dropped");
    for (int i = QDONE + 1; i < QTOTAL; i++) same_entry(i - 1, i);
    VF_CHECK(sv.has_recurrent_data == IN.recurrent, "recurrent information is still due");
    empty_from(QTOTAL - 1);
  }
  VF_REACH(rc == SV_OK, "completed");
#endif
}

void
h_add_payload(void)
{
  VF_INPUT();
  session();
  uint8_t *p = malloc(4);
  VF_ASSUME(p);
  add_payload_to_buffer(&sv, p, p + 2);
  const int n = QTOTAL < MAX_SEI_DATA_BUFFER ? QTOTAL + 1 : QTOTAL;
  VF_CHECK(sv.sei_data_buffer_idx == n && sv.num_of_completed_seis == QDONE, "queue size");
  for (int i = 0; i < QTOTAL; i++) same_entry(i, i);
#if QTOTAL < MAX_SEI_DATA_BUFFER
  VF_CHECK(sv.sei_data_buffer[QTOTAL].sei == p && sv.sei_data_buffer[QTOTAL].write_position == p + 2 && sv.sei_data_buffer[QTOTAL].last_two_bytes == IN.ltb && sv.sei_data_buffer[QTOTAL].completed_sei_size == 0, "added last and incomplete");
#endif
  empty_from(n);
  free_sei_data_buffer(sv.sei_data_buffer);
  for (int i = 0; i < MAX_SEI_DATA_BUFFER; i++) VF_CHECK(!sv.sei_data_buffer[i].sei && !sv.sei_data_buffer[i].write_position, "every SEI is released");
  VF_REACH(1, "added");
}

/* SEIs are handed out once, complete, oldest first. */
void
h_get_sei(void)
{
  VF_INPUT();
  session();
#ifdef SIGERR
  VF_ASSUME(IN.rc_sig[0]);
#else
  VF_ASSUME(!IN.rc_sig[0] && !IN.rc_sig[1]);
#endif
  uint8_t out[QSEI + 8];
  for (int i = 0; i < QSEI + 8; i++) out[i] = 0xa5;
  size_t size = 99;
  int off = 99;
  unsigned num = 99;
  const bool newest = false;
#ifdef QUERY
  uint8_t *dst = NULL;
#else
  uint8_t *dst = out;
#endif
  const int done = QDONE + NSIG;
  const svrc_t rc = signed_video_get_sei(&sv, dst, &size, IN.want_off ? &off : NULL, IN.peek ? IN.data : NULL, IN.peek ? 5 : 0, IN.want_num ? &num : NULL);
#ifdef SIGERR
  VF_CHECK(rc == SV_EXTERNAL_ERROR && size == 0 && sv.num_of_completed_seis == QDONE && sv.sei_data_buffer_idx == QTOTAL, "a failed signature is reported and nothing is handed out");
  for (int i = 0; i < QTOTAL; i++) same_entry(i, i);
  VF_REACH(1, "signature error");
#else
  const bool slot = !IN.peek || ((IN.ntype == NALU_TYPE_I || IN.ntype == NALU_TYPE_P) && IN.primary);
  VF_CHECK(rc == SV_OK, "no error");
  VF_CHECK(count(EV_GETSIG) == NSIG && count(EV_SIGNATURE) == NSIG, "every signature there is completes a SEI");
  if (done == 0 || !slot) {
    VF_CHECK(size == 0 && out[0] == 0xa5 && sv.num_of_completed_seis == done && sv.sei_data_buffer_idx == QTOTAL, "nothing is handed out");
    if (IN.want_num) VF_CHECK(num == QTOTAL, "number of SEIs left");
    if (done > 0) VF_CHECK(sv.avoid_checking_available_seis, "a SEI may wait for its place");
  }
#if QDONE + NSIG > 0
  else {
    const size_t want = QDONE > 0 ? QSEI : QSEI - 3 + gwritten[3] + 1;
    VF_CHECK(size == want, "the size is that of the SEI");
    if (dst) {
      for (size_t k = 0; k < want; k++) {
        uint8_t b = IN.qdata[0][k < QSEI ? k : 0];
        if (QDONE == 0 && k >= QSEI - 3) b = k < QSEI - 3 + gwritten[3] ? IN.group[3][(k - (QSEI - 3)) % SMAX] : 0x80;
        VF_CHECK(out[k] == b, "the oldest completed SEI is handed out");
      }
      for (size_t k = want; k < QSEI + 8; k++) VF_CHECK(out[k] == 0xa5, "nothing but the SEI is written");
      VF_CHECK(sv.num_of_completed_seis == done - 1 && sv.sei_data_buffer_idx == QTOTAL - 1, "handed out once");
      for (int i = 1; i < QTOTAL; i++)
        if (i < QDONE || i >= done) same_entry(i - 1, i);
        else VF_CHECK(sv.sei_data_buffer[i - 1].sei == q0[i] && sv.sei_data_buffer[i - 1].completed_sei_size == QSEI - 3 + gwritten[3] + 1, "completed now");
      empty_from(QTOTAL - 1);
      if (IN.want_off) VF_CHECK(off == 2, "offset of the payload");
      if (IN.want_num) VF_CHECK(num == QTOTAL - 1, "number of SEIs left");
    } else {
      VF_CHECK(sv.num_of_completed_seis == done && sv.sei_data_buffer_idx == QTOTAL, "asking for the size hands out nothing");
      if (IN.want_num) VF_CHECK(num == QTOTAL, "number of SEIs left");
      for (int i = 0; i < QDONE; i++) same_entry(i, i);
    }
  }
#endif
  VF_REACH(rc == SV_OK, "returned");
#endif
}
/* The deprecated call: one SEI, the latest, in memory of its own. */
void
h_get_prepend(void)
{
  VF_INPUT();
  session();
  signed_video_nalu_to_prepend_t r;
  r.nalu_data = (uint8_t *)&sv;
  r.nalu_data_size = 99;
  r.prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
  const svrc_t rc = signed_video_get_nalu_to_prepend(&sv, &r);
#if NOMEM && QDONE > 0
  VF_CHECK(rc != SV_OK && !r.nalu_data && r.nalu_data_size == 0 && r.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING && sv.sei_data_buffer_idx == QTOTAL && sv.num_of_completed_seis == QDONE, "without memory nothing is handed out and the SEI is kept");
  for (int i = 0; i < QTOTAL; i++) same_entry(i, i);
#else
  VF_CHECK(rc == SV_OK, "no error");
#endif
#if NOMEM && QDONE > 0
#elif QDONE == 0
  VF_CHECK(!r.nalu_data && r.nalu_data_size == 0 && r.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING && sv.sei_data_buffer_idx == QTOTAL, "nothing is handed out");
#else
  VF_CHECK(r.prepend_instruction == SIGNED_VIDEO_PREPEND_NALU && r.nalu_data == alloc_ptr && r.nalu_data_size == QSEI - ((QDONE - 1) & 1) && alloc_size >= r.nalu_data_size, "one SEI is handed out");
  for (size_t k = 0; k < QSEI; k++)
    if (k < r.nalu_data_size) VF_CHECK(r.nalu_data[k] == IN.qdata[QDONE - 1][k], "the bytes of the SEI");
  VF_CHECK(sv.num_of_completed_seis == QDONE - 1 && sv.sei_data_buffer_idx == QTOTAL - 1, "handed out once");
  for (int i = 0; i < QTOTAL; i++)
    if (i != QDONE - 1) same_entry(i < QDONE - 1 ? i : i - 1, i);
  empty_from(QTOTAL - 1);
#endif
  VF_CHECK(signed_video_get_nalu_to_prepend(NULL, &r) == SV_INVALID_PARAMETER && signed_video_get_nalu_to_prepend(&sv, NULL) == SV_INVALID_PARAMETER, "parameters");
  VF_REACH(1, "returned");
}

/* A NALU, or a part of it, is added for signing. */
#ifndef NDATA
#define NDATA 3
#endif
void
h_add(void)
{
  VF_INPUT();
  VF_ASSUME(RECUR >= 1);
#ifdef CONT
  VF_ASSUME(!IN.last_was_last);
#else
  VF_ASSUME(IN.last_was_last);
#endif
  session();
  if (!KEY) sv.plugin_handle = NULL;
#ifdef CONT
  last_nalu.is_valid = IN.valid;
  last_nalu.is_hashable = IN.hashable;
  last_nalu.is_first_nalu_in_gop = FIRST;
  last_nalu.is_primary_slice = IN.primary;
  last_nalu.is_first_nalu_part = true;
#endif
  const int64_t ts = IN.ts_in;
  const svrc_t rc = signed_video_add_nalu_part_for_signing_with_timestamp(&sv, IN.data, NDATA, IN.want_ts ? &ts : NULL, LAST);
  const bool last = LAST;
  const bool gop_end = FIRST && last;
  const bool generate = gop_end && ENABLED;
  const bool blocked = QDONE > 0 && !IN.avoid;
  VF_CHECK(last_nalu.is_last_nalu_part == last, "the parts of a NALU are tracked");
  if (!KEY || blocked) {
    VF_CHECK(rc == SV_NOT_SUPPORTED && nev == 0 && sv.sei_data_buffer_idx == QTOTAL, "without key, or with SEIs to fetch, nothing is signed");
    if (!KEY) VF_CHECK(sv.signing_started == IN.started, "signing has not started");
  } else if (IN.valid < 0) {
    VF_CHECK(rc == SV_INVALID_PARAMETER && nev == 0 && sv.frame_count == IN.frame_count, "an invalid NALU is refused");
    VF_CHECK(sv.signing_started, "signing has started");
  } else {
    VF_CHECK(sv.signing_started, "signing has started");
    const bool due = IN.primary && last && (IN.frame_count % RECUR) == 0;
    VF_CHECK(sv.frame_count == (unsigned)(IN.frame_count + (IN.primary && last)), "frames are counted once");
    VF_CHECK(sv.has_recurrent_data == (IN.recurrent || due), "recurrent information is due every so many frames");
    const bool fin_fails = generate && RC_FIN;
    const bool full = QTOTAL >= MAX_SEI_DATA_BUFFER;
    const bool gen_fails = generate && !fin_fails && (full || NOMEM || TFAIL(0) || TFAIL(1) || TFAIL(2) || RC_DOC || RC_SIGN);
    VF_CHECK(count(EV_FIN) == (generate ? 1 : 0), "the GOP hash is finalised when a GOP ends");
    if (generate) {
      VF_CHECK(fin_primary, "the GOP hash");
      if (!fin_fails) {
        for (int i = 0; i < HS; i++) VF_CHECK(gi.computed_gop_hash[i] == IN.fin[i], "the hash of the GOP that ended");
      }
    }
    if (fin_fails || gen_fails) {
      VF_CHECK(rc != SV_OK && sv.sei_data_buffer_idx == QTOTAL && count(EV_HASH) == 0, "a failure is returned and no SEI is queued");
      VF_CHECK(gi.has_timestamp == (IN.want_ts || IN.has_ts) || count(EV_SIGN) == 1, "the time is kept");
    } else {
      VF_CHECK(sv.sei_data_buffer_idx == QTOTAL + (generate ? 1 : 0), "one SEI for each GOP that ended");
      VF_CHECK(count(EV_SIGN) == (generate ? 1 : 0), "one signature for each SEI");
      for (int i = 0; i < QTOTAL; i++) same_entry(i, i);
      if (generate) {
        VF_CHECK(at(EV_FIN) < at(EV_MAND) && at(EV_SIGN) < at(EV_HASH), "the GOP that ended is signed before the new one starts");
        VF_CHECK(sv.sei_data_buffer[QTOTAL].sei == alloc_ptr && sv.sei_data_buffer[QTOTAL].completed_sei_size == 0, "the SEI waits for its signature");
        VF_CHECK(sv.sei_data_buffer[QTOTAL].last_two_bytes == IN.g_ltb[2], "the state of the writer is kept with the SEI");
        if (IN.want_ts) VF_CHECK(gi.timestamp == IN.ts_in, "the time of the GOP");
      }
      if (gop_end) VF_CHECK(sv.sei_generation_enabled, "the next GOP gets a SEI");
      else VF_CHECK(sv.sei_generation_enabled == ENABLED, "no GOP has ended");
      VF_CHECK(count(EV_HASH) == 1, "the NALU is hashed once");
      VF_CHECK(hashed.is_hashable == IN.hashable && hashed.is_first_nalu_in_gop == FIRST && hashed.is_last_nalu_part == last, "the NALU is hashed as what it is");
      VF_CHECK(hashed.hashable_data == IN.data, "every byte is hashed");
#ifdef CONT
      size_t n = NDATA;
      while (last && n > 0 && IN.data[n - 1] == 0) n--;
      VF_CHECK(!hashed.is_first_nalu_part && hashed.hashable_data_size == n, "every byte of the part but trailing zeros is hashed");
#else
      VF_CHECK(hashed.is_first_nalu_part && hashed.hashable_data_size == NDATA, "every byte is hashed");
      if (!generate) VF_CHECK(parsed_data == IN.data && parsed_size == NDATA && parsed_trailing == last && !parsed_auth, "the NALU is parsed");
#endif
      const bool link = gop_end && !IN.rc_hash1;
      VF_CHECK(count(EV_LINK) == (link ? 1 : 0), "a GOP is linked to the one before");
      if (link) VF_CHECK(link_ok && at(EV_LINK) > at(EV_HASH), "the link is the hash of the first NALU of the GOP");
      VF_CHECK((rc != SV_OK) == (IN.rc_hash1 || (link && IN.rc_link)), "failures are returned");
    }
  }
#if KEY && !FAIL && !(QTOTAL >= MAX_SEI_DATA_BUFFER && FIRST && LAST && ENABLED)
  VF_REACH(rc == SV_OK, "added");
  VF_REACH(IN.valid < 0, "invalid");
#else
  VF_REACH(rc != SV_OK, "refused");
#endif
}

/* End of stream and golden SEI. */
void
h_extra(void)
{
  VF_INPUT();
  VF_ASSUME(!IN.rc_sig[0] && !IN.rc_sig[1]);
  session();
  if (!KEY) sv.plugin_handle = NULL;
#ifdef MAKE_GOLDEN
  const svrc_t rc = signed_video_generate_golden_sei(&sv);
  const bool golden = true;
#else
  const svrc_t rc = signed_video_set_end_of_stream(&sv);
  const bool golden = false;
#endif
  VF_CHECK(!sv.is_golden_sei, "only this SEI is golden");
  if (!KEY || (QDONE > 0 && !IN.avoid)) {
    VF_CHECK(rc == SV_NOT_SUPPORTED && nev == 0, "without key, or with SEIs to fetch, nothing is signed");
  } else if (NOMEM || RC_DOC || RC_SIGN || (RC_FIN && !golden)) {
    VF_CHECK(rc != SV_OK && sv.sei_data_buffer_idx == QTOTAL && sv.num_of_completed_seis == QDONE, "a failure is returned and no SEI is queued");
  } else {
    VF_CHECK(rc == SV_OK && sv.sei_data_buffer_idx == QTOTAL + 1, "one more SEI");
    VF_CHECK(sv.sei_data_buffer[QTOTAL].sei == alloc_ptr, "queued last");
    check_sei(alloc_ptr, golden);
    VF_CHECK(sv.num_of_completed_seis == QDONE + (golden ? 0 : NSIG), "completed when the signature is there");
#ifdef MAKE_GOLDEN
    VF_CHECK(sv.has_recurrent_data, "a golden SEI has all information");
#elif NINGOP > 0
    VF_CHECK(count(EV_FIN) == 1 && fin_primary && at(EV_FIN) < at(EV_MAND), "the GOP hash is finalised when the stream ends");
    bool fin_ok = true;
    for (int i = 0; i < HS; i++) fin_ok = fin_ok && gi.computed_gop_hash[i] == IN.fin[i];
    VF_CHECK(fin_ok, "the hash of the GOP that ended");
#endif
  }
  VF_REACH(FAIL || !KEY ? rc != SV_OK : rc == SV_OK, "generated or failed");
}

/* Settings: parameters are checked, values taken over exactly, and what both sides rely on is frozen. */
void
h_settings(void)
{
  VF_INPUT();
  session();
  static const char s[5][2] = {"a", "b", "c", "d", "e"};
  signed_video_t before;
  signed_video_t *self = IN.nullself ? NULL : &sv;
  sv.authenticity_level = SV_AUTHENTICITY_LEVEL_FRAME;
  svrc_t rc;
  bool ok;
  int what;
  /* authenticity level */
  rc = signed_video_set_authenticity_level(self, IN.level);
  ok = IN.level == SV_AUTHENTICITY_LEVEL_GOP || IN.level == SV_AUTHENTICITY_LEVEL_FRAME;
  VF_CHECK((rc == SV_OK) == (self && ok), "authenticity level checked");
  VF_CHECK((int)sv.authenticity_level == (rc == SV_OK ? IN.level : (int)SV_AUTHENTICITY_LEVEL_FRAME), "authenticity level set or kept");
  /* recurrence */
  rc = signed_video_set_recurrence_interval_frames(self, IN.recurrence_in);
  VF_CHECK((rc == SV_OK) == (self && IN.recurrence_in >= 1), "recurrence checked");
  VF_CHECK(sv.recurrence == (rc == SV_OK ? IN.recurrence_in : RECUR), "recurrence set or kept");
  /* flags */
  rc = signed_video_set_sei_epb(self, IN.b0);
  VF_CHECK((rc == SV_OK) == (self != NULL) && sv.sei_epb == (rc == SV_OK ? IN.b0 : IN.epb), "emulation prevention set or kept");
  rc = signed_video_add_public_key_to_sei(self, IN.b0);
  VF_CHECK((rc == SV_OK) == (self != NULL) && (rc != SV_OK || sv.add_public_key_to_sei == IN.b0), "public key in SEI set");
  rc = signed_video_set_max_sei_payload_size(self, IN.size64);
  VF_CHECK((rc == SV_OK) == (self != NULL) && sv.max_sei_payload_size == (rc == SV_OK ? IN.size64 : MAXPAY), "maximum payload set or kept");
  rc = signed_video_set_using_golden_sei(self, IN.b0);
  VF_CHECK((rc == SV_OK) == (self && !IN.started), "golden SEI is frozen when signing has started");
  VF_CHECK(sv.using_golden_sei == (rc == SV_OK ? IN.b0 : UGOLDEN), "golden SEI set or kept");
  /* hash algorithm */
  rc = signed_video_set_hash_algo(self, s[0]);
  ok = self && !IN.started && !IN.rc_algo && IN.hash_size64 > 0 && IN.hash_size64 <= MAX_HASH_SIZE;
  VF_CHECK((rc == SV_OK) == ok, "hash algorithm is checked, and frozen when signing has started");
  VF_CHECK(sd.hash_size == (ok ? IN.hash_size64 : HS) && gi.nalu_hash == gi.hashes + (ok ? IN.hash_size64 : HS), "hash size set or kept");
  /* product information */
  nstr = 0;
  rc = signed_video_set_product_info(self, s[0], s[1], s[2], s[3], s[4]);
  VF_CHECK((rc == SV_OK) == (self && (IN.rc_str < 1 || IN.rc_str > 5)), "product information fails only when memory runs out");
  if (rc == SV_OK) {
    VF_CHECK(nstr == 5 && nprodfree == 0, "five strings");
    for (int i = 0; i < 5; i++) {
      VF_CHECK(strs[i] != s[0] || strd[i] == &prod.hardware_id, "hardware id");
      VF_CHECK(strs[i] != s[1] || strd[i] == &prod.firmware_version, "firmware version");
      VF_CHECK(strs[i] != s[2] || strd[i] == &prod.serial_number, "serial number");
      VF_CHECK(strs[i] != s[3] || strd[i] == &prod.manufacturer, "manufacturer");
      VF_CHECK(strs[i] != s[4] || strd[i] == &prod.address, "address");
      for (int k = 0; k < i; k++) VF_CHECK(strs[i] != strs[k], "each string once");
    }
  } else if (self) VF_CHECK(nprodfree == 1, "no half of the product information is left");
  else VF_CHECK(nstr == 0 && nprodfree == 0, "nothing is changed");
  /* private key */
  sv.plugin_handle = NULL;
  sd.key = NULL;
  rc = signed_video_set_private_key_new(self, IN.nulldata ? NULL : s[0], IN.b1);
  ok = self && !IN.nulldata && IN.b1;
  VF_CHECK((rc == SV_OK) == (ok && !IN.rc_key && !IN.rc_pub && IN.setup), "private key accepted only when everything succeeded");
  VF_CHECK(ok || rc == SV_INVALID_PARAMETER, "parameters");
  VF_CHECK(sv.plugin_handle == (rc == SV_OK ? (void *)&plugin_dummy : NULL), "signing is possible only with a key");
  VF_CHECK(!sd.key && nfreed_key == (ok && !IN.rc_key ? 1 : 0), "the private key does not stay in the session");
  VF_CHECK(sv.sei_data_buffer_idx == QTOTAL && nev == 0, "settings sign nothing");
  (void)before;
  (void)what;
  VF_REACH(self && rc == SV_OK, "accepted");
  VF_REACH(!self, "no session");
}
/* Parameters of the calls that use the session. */
void
h_sign_params(void)
{
  VF_INPUT();
  session();
  size_t size = 7;
  uint8_t b[4];
  const int64_t ts = 1;
  VF_CHECK(signed_video_add_nalu_for_signing(NULL, IN.data, 3) == SV_INVALID_PARAMETER, "session");
  VF_CHECK(signed_video_add_nalu_for_signing(&sv, NULL, 3) == SV_INVALID_PARAMETER, "data");
  VF_CHECK(signed_video_add_nalu_for_signing(&sv, IN.data, 0) == SV_INVALID_PARAMETER, "size");
  VF_CHECK(signed_video_add_nalu_for_signing_with_timestamp(NULL, IN.data, 3, &ts) == SV_INVALID_PARAMETER, "session");
  VF_CHECK(signed_video_add_nalu_for_signing_with_timestamp(&sv, NULL, 3, &ts) == SV_INVALID_PARAMETER, "data");
  VF_CHECK(signed_video_add_nalu_for_signing_with_timestamp(&sv, IN.data, 0, &ts) == SV_INVALID_PARAMETER, "size");
  VF_CHECK(signed_video_get_sei(NULL, b, &size, NULL, NULL, 0, NULL) == SV_INVALID_PARAMETER, "session");
  VF_CHECK(signed_video_get_sei(&sv, b, NULL, NULL, NULL, 0, NULL) == SV_INVALID_PARAMETER, "size");
  VF_CHECK(signed_video_set_end_of_stream(NULL) == SV_INVALID_PARAMETER, "session");
  VF_CHECK(signed_video_generate_golden_sei(NULL) == SV_INVALID_PARAMETER, "session");
  VF_CHECK(size == 7 && nev == 0 && sv.sei_data_buffer_idx == QTOTAL && sv.signing_started == IN.started, "nothing is changed");
  signed_video_nalu_data_free(NULL);
  VF_REACH(1, "checked");
}
