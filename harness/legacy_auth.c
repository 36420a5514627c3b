/* Contracts on legacy_h26x_auth.c: validation of streams signed by old versions.  The list of NALUs is
 * the real one (legacy_h26x_nalu_list.c); decoding, hashing and signatures are contract stubs. */
#include "vf.h"
#include "signed_video_internal.h"
#include "legacy_validation.h"
#include "legacy/legacy_internal.h"
#include "legacy/legacy_h26x_internal.h"
#include "legacy/legacy_h26x_nalu_list.h"
#include "legacy/legacy_tlv.h"
#include "signed_video_authenticity.h"
#include "signed_video_openssl_internal.h"
#include "signed_video_tlv.h"
#include "includes/signed_video_common.h"
#include "includes/signed_video_auth.h"
#include "axis-communications/sv_vendor_axis_communications_internal.h"

#ifndef K
#define K 3
#endif
#define KM 5
#define NH 3  // hashes in a hash list
#define HS 8  // hash size
#ifndef HT
#define HT LEGACY_DOCUMENT_HASH
#endif

struct vf_in {
  uint8_t kind[KM], st[KM], bits[KM], fna[KM], sec[KM];
  uint8_t hash[KM][HS], second[KM][HS], listh[NH][HS];
  uint8_t ghash[KM + 2][HS];
  int sig, list_n, sent, auth, pend0;
  int rc_decode, rc_verify, rc_vendor, rc_key, rc_reset;
  uint32_t counter, d_counter;
  int vendor_val, pubkey_val, manuf, cmp;
  uint8_t data[8];
  char sn[4];
  int rc_report, rc_parse, rc_hash;
  int valid;
  bool first : 1, synced : 1, transition : 1, noend : 1, lost : 1, keychg : 1, has_key : 1, signing : 1, auth_result : 1, decoded : 1, d_keychg : 1, got_key : 1, first_sei : 1, gop_sei : 1, opt : 1, nulls : 1, want : 1, find : 1, epb : 1, hashable : 1, reset_first : 1, status_ok : 1;
} IN;

static legacy_sv_t sv;
static signed_video_t parent;
static legacy_gop_info_t gi;
static sign_or_verify_data_t vd;
static uint8_t vd_hash[MAX_HASH_SIZE];
static signed_video_latest_validation_t latest;
static signed_video_accumulated_validation_t acc;
static signed_video_authenticity_t report;
static signed_video_product_info_t prod;
static sv_vendor_axis_supplemental_authenticity_t supp;
static char sn1[4];
static int crypto_dummy, vendor_dummy;
static legacy_h26x_nalu_list_t *L;
static legacy_h26x_nalu_list_item_t *it[KM];
static legacy_h26x_nalu_t *na[KM];
static char st0[KM];
static bool fna0[KM], sec0[KM];
static int ndecode, nverify, nopt;
static const uint8_t *decoded_at;
static size_t decoded_size;
static uint8_t verified_what[HS];
static bool verify_saw_key;

/* ---- contracts of the callees: see legacy_common.c and legacy_tlv.c ---- */
void
legacy_gop_state_reset(legacy_gop_state_t *g)
{
  legacy_gop_state_t z = {0};
  *g = z;
}
void
legacy_gop_state_update(legacy_gop_state_t *g, legacy_h26x_nalu_t *n)
{
  if (!n || n->is_valid <= 0 || !n->is_hashable) return;
  g->has_sei |= n->is_gop_sei;
}
svrc_t
legacy_tlv_decode(legacy_sv_t *self, const uint8_t *data, size_t n)
{
  VF_CHECK(self == &sv, "session");
  ndecode++;
  decoded_at = data;
  decoded_size = n;
  if (IN.rc_decode) return SV_AUTHENTICATION_ERROR;
  gi.global_gop_counter = IN.d_counter;
  gi.num_sent_nalus = (uint16_t)IN.sent;
  gi.signature_hash_type = HT;
  for (int j = 0; j < NH; j++)
    for (int i = 0; i < HS; i++) gi.hash_list[j * HS + i] = IN.listh[j][i];
  gi.list_idx = IN.list_n * HS;
  if (IN.d_keychg) latest.public_key_has_changed = true;
  if (IN.got_key) sv.has_public_key = true;
  return SV_OK;
}
bool
legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self, const uint8_t *data, size_t n)
{
  VF_CHECK(self == &sv && data && n, "recurrent data is looked for in a SEI");
  nopt++;
  return IN.opt;
}
static const uint8_t *find_data;
static size_t find_size;
static bool find_epb;
static sv_tlv_tag_t find_tag;
const uint8_t *
tlv_find_tag(const uint8_t *p, size_t n, sv_tlv_tag_t t, bool epb)
{
  find_data = p;
  find_size = n;
  find_tag = t;
  find_epb = epb;
  return IN.find ? p + 2 : NULL;
}
svrc_t
openssl_verify_hash(const sign_or_verify_data_t *v, int *res)
{
  nverify++;
  for (int i = 0; i < HS; i++) verified_what[i] = v->hash[i];
  verify_saw_key = sv.has_public_key;
  VF_CHECK(v == &vd && res == &gi.verified_signature_hash, "the signature of this session");
  if (IN.rc_verify) {
    *res = -1;
    return SV_INVALID_PARAMETER;
  }
  *res = IN.sig;
  return SV_OK;
}
static const void *vendor_key;
svrc_t
set_axis_communications_public_key(void *h, const void *key, bool changed)
{
  VF_CHECK(h == &vendor_dummy, "vendor data of this session");
  (void)changed;
  if (!key) return SV_INVALID_PARAMETER;
  vendor_key = key;
  return SV_OK;
}
svrc_t
get_axis_communications_supplemental_authenticity(void *h, sv_vendor_axis_supplemental_authenticity_t **s)
{
  VF_CHECK(h == &vendor_dummy, "vendor data of this session");
  VF_CHECK(vendor_key == vd.key, "the vendor verifies the key in use");
  if (IN.rc_vendor) return SV_MEMORY;
  *s = &supp;
  return SV_OK;
}
/* the GOP hash is a chain: log what goes into it */
static uint8_t glog[KM + 2][HS];
static int gn, nreset;
svrc_t
legacy_reset_gop_hash(legacy_sv_t *self)
{
  VF_CHECK(self == &sv, "session");
  nreset++;
  gn = 0;
  if (IN.rc_reset == 1) return SV_EXTERNAL_ERROR;
  return SV_OK;
}
svrc_t
legacy_update_gop_hash(void *h, legacy_gop_info_t *g)
{
  VF_CHECK(h == &crypto_dummy && g == &gi && nreset == 1, "the GOP hash of the session, from its start");
  if (IN.rc_reset == 2 + gn) return SV_EXTERNAL_ERROR;
  VF_CHECK(gn < KM + 2, "ghost log large enough");
  for (int i = 0; i < HS; i++) {
    glog[gn][i] = g->nalu_hash[i];
    g->gop_hash[i] = IN.ghash[gn][i];  // any digest
  }
  gn++;
  return SV_OK;
}
void
legacy_copy_nalu_except_pointers(legacy_h26x_nalu_t *dst, const legacy_h26x_nalu_t *src)
{
  if (!dst || !src) return;
  *dst = *src;
  dst->nalu_data = dst->hashable_data = dst->payload = dst->tlv_start_in_nalu_data = dst->tlv_data = NULL;
  dst->nalu_data_wo_epb = NULL;
}
char
legacy_nalu_type_to_char(const legacy_h26x_nalu_t *n)
{
  return n ? 'n' : ' ';
}
/* Contracts of these list functions, see legacy_list.c: missing items are ghost state, so the list
 * keeps its shape. */
#ifndef REALLIST
#define legacy_h26x_nalu_list_add_missing real_add_missing
#define legacy_h26x_nalu_list_get_stats real_get_stats
#include "legacy/legacy_h26x_nalu_list.c"
#undef legacy_h26x_nalu_list_add_missing
#undef legacy_h26x_nalu_list_get_stats
static struct {
  legacy_h26x_nalu_list_item_t *item;
  int num;
  bool append;
} gm[8];
static int gm_n, gm_total;
svrc_t
legacy_h26x_nalu_list_add_missing(legacy_h26x_nalu_list_t *list, int num, bool append, legacy_h26x_nalu_list_item_t *item)
{
  VF_CHECK(list == L, "the list of the session");
  if (!item || num < 0) return SV_INVALID_PARAMETER;
  if (num == 0) return SV_OK;
  VF_CHECK(gm_n < 8, "ghost log large enough");
  gm[gm_n].item = item;
  gm[gm_n].num = num;
  gm[gm_n].append = append;
  gm_n++;
  gm_total += num;
  return SV_OK;
}
bool
legacy_h26x_nalu_list_get_stats(const legacy_h26x_nalu_list_t *list, int *inv, int *mis)
{
  bool v = real_get_stats(list, inv, NULL);
  if (mis) *mis = gm_total;
  return v;
}
#else
#include "legacy/legacy_h26x_nalu_list.c"
#endif

static int seq, at_parse, at_append, at_flags, at_hash, at_acc, at_get, nacc;
static int nhash, nget;
static legacy_h26x_nalu_t parsed;
static uint8_t *woepb;
legacy_h26x_nalu_t
legacy_parse_nalu_info(const uint8_t *d, size_t n, SignedVideoCodec codec, bool trail, bool auth)
{
  (void)codec;
  VF_CHECK(trail && auth, "the whole NALU is parsed for validation");
  at_parse = ++seq;
  legacy_h26x_nalu_t x = parsed;
  x.nalu_data = d;
  x.nalu_data_size = n;
  x.hashable_data = d;
  x.hashable_data_size = n;
  x.tlv_start_in_nalu_data = x.is_gop_sei ? d : NULL;
  x.tlv_data = x.is_gop_sei ? d : NULL;
  x.tlv_size = x.is_gop_sei ? n : 0;
  x.nalu_data_wo_epb = woepb;
  return x;
}
void
legacy_update_validation_flags(legacy_validation_flags_t *f, legacy_h26x_nalu_t *n)
{
  at_flags = ++seq;
  f->is_first_sei = !f->signing_present && n->is_gop_sei;
  f->signing_present |= n->is_gop_sei;
}
static legacy_h26x_nalu_list_item_t *hashed;
svrc_t
legacy_hash_and_add_for_auth(legacy_sv_t *self, legacy_h26x_nalu_list_item_t *item)
{
  VF_CHECK(self == &sv && item && item->nalu, "hashing a NALU of the list");
  at_hash = ++seq;
  hashed = item;
  nhash++;
  return IN.rc_hash ? SV_EXTERNAL_ERROR : SV_OK;
}
signed_video_authenticity_t *
signed_video_get_authenticity_report(signed_video_t *p)
{
  VF_CHECK(p == &parent, "the report of the session");
  nget++;
  at_get = ++seq;
  return &report;
}
static int acc_saw;
static unsigned acc_list;
void
update_accumulated_validation(const signed_video_latest_validation_t *l, signed_video_accumulated_validation_t *a)
{
  VF_CHECK(l == &report.latest_validation && a == &acc, "the results of the session");
  nacc++;
  at_acc = ++seq;
  acc_saw = l->authenticity;
  acc_list = (unsigned)L->num_items;
  a->authenticity = IN.auth;
}
int
signed_video_compare_versions(const char *a, const char *b)
{
  VF_CHECK(a == report.this_version && b == report.version_on_signing_side, "versions of both sides");
  return IN.cmp;
}

#include "legacy/legacy_h26x_auth.c"

/* ---- a session in any state of validation ---- */
enum { KP, KI, KS, KX, KA };  // picture, first of a GOP, signed SEI, not hashed, picture right after a SEI
static int
kind(int i)
{
#ifdef KINDS
  static const uint8_t kk[] = {KINDS};
  return kk[i];
#else
  return IN.kind[i] % 5;
#endif
}
static char
status_of(int i)
{
#ifdef DONE
  static const char dd[] = DONE;
  return dd[i];
#else
  static const char s[8] = {'P', 'P', 'P', '.', 'N', 'M', 'E', 'U'};
  char c = s[IN.st[i] & 7];
  if (kind(i) == KX) return c == 'M' ? 'M' : '_';
  return c;
#endif
}
static bool
has_second(int i)
{
  return kind(i) == KI || kind(i) == KA;
}
/* waits for its second verification */
static bool
second_of(int i)
{
#ifdef SEC
  static const char ss[] = SEC;
  return ss[i] == '1';
#else
  return has_second(i) && status_of(i) == 'P' && (IN.sec[i] & 1);
#endif
}
static void
build(int k)
{
  L = calloc(1, sizeof(legacy_h26x_nalu_list_t));
  VF_ASSUME(L);
  for (int i = 0; i < k; i++) {
    it[i] = calloc(1, sizeof(legacy_h26x_nalu_list_item_t));
    VF_ASSUME(it[i]);
    st0[i] = status_of(i);
    it[i]->validation_status = st0[i];
    it[i]->taken_ownership_of_nalu = true;
    if (st0[i] != 'M') {
      na[i] = calloc(1, sizeof(legacy_h26x_nalu_t));
      VF_ASSUME(na[i]);
      na[i]->is_valid = st0[i] == 'U' ? 0 : 1;
      na[i]->is_hashable = kind(i) != KX && st0[i] != 'U';
      na[i]->is_first_nalu_in_gop = kind(i) == KI;
      na[i]->is_gop_sei = kind(i) == KS;
      if (kind(i) == KS) {
        na[i]->tlv_data = IN.data;
        na[i]->tlv_size = 4;
      }
      it[i]->nalu = na[i];
      it[i]->hash_size = HS;
      for (int j = 0; j < HS; j++) it[i]->hash[j] = IN.hash[i][j];
      if (has_second(i)) {
        it[i]->second_hash = malloc(MAX_HASH_SIZE);
        VF_ASSUME(it[i]->second_hash);
        for (int j = 0; j < HS; j++) it[i]->second_hash[j] = IN.second[i][j];
        sec0[i] = second_of(i);
        /* the first verification can have failed only if there was one */
        fna0[i] = sec0[i] && (IN.fna[i] & 1);
        it[i]->need_second_verification = sec0[i];
        it[i]->first_verification_not_authentic = fna0[i];
      }
    }
    if (i) {
      it[i]->prev = it[i - 1];
      it[i - 1]->next = it[i];
    }
  }
  L->first_item = k ? it[0] : NULL;
  L->last_item = k ? it[k - 1] : NULL;
  L->num_items = k;
}
static void
session(void)
{
  sv.parent = &parent;
  sv.gop_info = &gi;
  sv.verify_data = &vd;
  vd.hash = vd_hash;
  vd.hash_size = HS;
  vd.key = &crypto_dummy;
  sv.crypto_handle = &crypto_dummy;
  sv.vendor_handle = &vendor_dummy;
  sv.latest_validation = &latest;
  sv.accumulated_validation = &acc;
  sv.authenticity = &report;
  sv.product_info = &prod;
  sv.nalu_list = L;
  gi.gop_hash = gi.hashes;
  gi.nalu_hash = gi.hashes + HS;
  gi.verified_signature_hash = -1;
  gi.signature_hash_type = HT;
  for (int j = 0; j < NH; j++)
    for (int i = 0; i < HS; i++) gi.hash_list[j * HS + i] = IN.listh[j][i];
  VF_ASSUME(IN.list_n >= 0 && IN.list_n <= NH);
  gi.list_idx = IN.list_n * HS;
  gi.num_sent_nalus = (uint16_t)IN.sent;
  gi.global_gop_counter = IN.counter;
  gi.global_gop_counter_is_synced = IN.synced;
  sv.validation_flags.is_first_validation = IN.first;
  sv.validation_flags.signing_present = IN.signing;
  sv.validation_flags.has_auth_result = IN.auth_result;
  sv.validation_flags.is_first_sei = IN.first_sei;
  sv.has_public_key = IN.has_key;
  VF_ASSUME(IN.auth >= 0 && IN.auth <= 4);
  VF_ASSUME(IN.sig >= -1 && IN.sig <= 1);  // see openssl.c, h_verify
  latest.authenticity = IN.auth;
  latest.public_key_has_changed = IN.keychg;
}
static bool
eq(const uint8_t *a, const uint8_t *b)
{
  for (int i = 0; i < HS; i++)
    if (a[i] != b[i]) return false;
  return true;
}
static const uint8_t *
hash_of(int i)
{
  return sec0[i] ? IN.second[i] : IN.hash[i];
}
static int
sei_pos(int k)
{
  for (int i = 0; i < k; i++)
    if (st0[i] == 'P' && kind(i) == KS) return i;
  return -1;
}
/* item i is verified with the SEI at s: pending, not after the first NALU of the next GOP, nor after
 * the NALU following the SEI (both included) */
static bool in_gop[KM];
static int lastused;
static int
gop_of(int k, int s)
{
  int n = 0;
  bool end = false;
  lastused = -1;
  for (int i = 0; i < k; i++) {
    in_gop[i] = false;
    if (end || st0[i] != 'P') continue;
    if (i == s + 1 || (kind(i) == KI && !sec0[i])) end = true;
    if (kind(i) == KS) continue;
    in_gop[i] = true;
    lastused = i;
    n++;
  }
  return n;
}

/* ---- a lost SEI ---- */
void
h_decode(void)
{
  VF_INPUT();
  build(0);
  session();
  sv.gop_state.no_gop_end_before_sei = IN.noend;
  sv.gop_state.has_lost_sei = IN.lost;
  sv.gop_state.gop_transition_is_lost = IN.transition;
  svrc_t rc = legacy_decode_sei_data(&sv, IN.data, 4);
  VF_CHECK(ndecode == 1 && decoded_at == IN.data && decoded_size == 4, "the SEI is decoded");
  VF_CHECK((rc == SV_OK) == !IN.rc_decode, "an error is returned");
  if (rc == SV_OK) {
    const bool lost = IN.synced && IN.d_counter != (uint32_t)(IN.counter + 1u);
    VF_CHECK(sv.gop_state.has_lost_sei == lost, "a SEI is lost if and only if the counter is not the next one, and is in sync");
    VF_CHECK(sv.gop_state.gop_transition_is_lost == (IN.transition || (IN.noend && lost)), "the transition between GOPs is lost too if there was no new GOP before the SEI");
    VF_REACH(lost && IN.d_counter < IN.counter, "wraparound");
    VF_REACH(IN.synced && !lost && IN.d_counter == 0, "no loss at the wraparound");
  } else {
    VF_CHECK(sv.gop_state.has_lost_sei == IN.lost && sv.gop_state.gop_transition_is_lost == IN.transition, "no effect");
  }
}

/* ---- verification against a hash list ---- */
/* specification: the expected outcome per item */
static char e_st[KM];
static bool e_sec[KM], e_fna[KM];
static int e_before[KM], e_rest, e_total, e_last, e_inv;
static bool e_lastmatch;
static void
spec_list(void)
{
  e_last = -1;
  e_inv = 0;
  e_rest = e_total = 0;
  e_lastmatch = false;
  for (int i = 0; i < K; i++) {
    e_st[i] = st0[i];
    e_sec[i] = sec0[i];
    e_fna[i] = fna0[i];
    e_before[i] = 0;
    if (!in_gop[i]) continue;
    int m = -1;
    for (int j = 0; j < NH; j++)
      if (j > e_last && j < IN.list_n && m < 0 && eq(hash_of(i), IN.listh[j])) m = j;
    if (m >= 0) {
      if (kind(i) == KI && !sec0[i]) {
        e_sec[i] = true;
      } else {
        e_st[i] = fna0[i] ? 'N' : '.';
        e_sec[i] = false;
      }
      const int miss = m - e_last - 1 - e_inv;
      e_before[i] = miss > 0 ? miss : 0;
      e_total += e_before[i];
      e_last = m;
      e_inv = 0;
      e_lastmatch = true;
    } else {
      if (has_second(i) && !sec0[i]) {
        e_sec[i] = true;
        e_fna[i] = true;
      } else {
        e_st[i] = 'N';
        e_sec[i] = false;
      }
      e_inv++;
      e_lastmatch = false;
    }
  }
  if (e_last < 0 && lastused >= 0) {
    e_rest = IN.list_n - e_inv;
  } else if (e_last < 0) {
    e_rest = IN.list_n;
  } else if (e_lastmatch) {
    e_rest = IN.list_n - 1 - e_last - 1;
  }
  if (e_rest < 0) e_rest = 0;
  e_total += e_rest;
}
static void
check_items(int s, bool all)
{
  for (int i = 0; i < K; i++) {
    const char c = it[i]->validation_status;
    if (in_gop[i]) {
      bool listed = false;
      for (int j = 0; j < NH; j++) listed |= j < IN.list_n && eq(hash_of(i), IN.listh[j]);
      VF_CHECK(c != '.' || listed, "only a NALU in the hash list is authentic");
      VF_CHECK(c != '.' || !fna0[i], "only if also its first verification succeeded");
      VF_CHECK(c == e_st[i], "a NALU is authentic if and only if it is in the list after the previous match");
      if (c == 'P') {
        VF_CHECK(it[i]->need_second_verification, "a pending NALU was verified once");
        VF_CHECK(it[i]->first_verification_not_authentic == e_fna[i], "and the outcome is remembered");
      } else {
        VF_CHECK(!it[i]->need_second_verification, "a verified NALU is done");
      }
    } else if (i == s) {
      VF_CHECK(c == '.', "the SEI was verified");
    } else {
      VF_CHECK(c == st0[i] && it[i]->need_second_verification == sec0[i] && it[i]->first_verification_not_authentic == fna0[i], "NALUs of other GOPs are untouched");
    }
  }
  (void)all;
}
void
h_hash_list(void)
{
  VF_INPUT();
  build(K);
  session();
  const int s = sei_pos(K);
  VF_ASSUME(s >= 0 && IN.list_n >= 1);
  const int n = gop_of(K, s);
  gi.verified_signature_hash = 1;
  int exp = -7, rec = -7;
  bool ok = legacy_verify_hashes_with_hash_list(&sv, &exp, &rec);
  VF_CHECK(ok && exp == IN.list_n, "verified");
  VF_CHECK(rec == n || (rec == n + 1 && e_lastmatch) || rec == n + 1, "received NALUs");
  spec_list();
  check_items(s, true);
  int missing = 0;
  for (int q = 0; q < 8; q++) {
    if (q >= gm_n) break;
    missing += gm[q].num;
    for (int i = 0; i < K; i++)
      if (in_gop[i] && gm[q].item == it[i] && !gm[q].append && e_last >= 0) VF_CHECK(gm[q].num == e_before[i], "missing NALUs are where they are missing");
    if (gm[q].append && e_last >= 0) VF_CHECK(lastused >= 0 && gm[q].item == it[lastused < 0 ? 0 : lastused] && gm[q].num == e_rest, "or after the last NALU of the GOP");
  }
  VF_CHECK(missing == e_total, "the number of missing NALUs");
#ifndef NORM
  VF_REACH(missing > 0 && e_last >= 0, "some missing");
#endif
  VF_REACH(n > 0 && missing == 0 && e_last == IN.list_n - 1, "all there");
  VF_REACH(e_last < 0, "nothing found");
}

/* ---- no SEI to verify with ---- */
void
h_without(void)
{
  VF_INPUT();
  build(K);
  session();
  bool r = legacy_verify_hashes_without_sei(&sv);
  bool end = false;
  int marked = 0;
  for (int i = 0; i < K; i++) {
    const char c = it[i]->validation_status;
    VF_CHECK(c != '.' || st0[i] == '.', "nothing becomes authentic without a SEI");
    if (end || st0[i] != 'P') {
      VF_CHECK(c == st0[i] && it[i]->need_second_verification == sec0[i] && it[i]->first_verification_not_authentic == fna0[i], "other NALUs are untouched");
      continue;
    }
    if (kind(i) == KI && !sec0[i]) {
      end = true;
      VF_CHECK(c == 'P' && it[i]->need_second_verification && it[i]->first_verification_not_authentic, "the NALU shared with the next GOP is pending, and has failed");
    } else {
      VF_CHECK(c == 'N' && !it[i]->need_second_verification, "pending NALUs of the GOP are not authentic");
      marked++;
    }
  }
  VF_CHECK(r == end, "tells if there is a next GOP");
  VF_CHECK(gi.global_gop_counter == (uint32_t)(IN.counter + (IN.signing && marked > 0 ? 1u : 0u)), "the GOP is counted if there was one");
  VF_REACH(end && marked > 0, "next GOP");
  VF_REACH(!end, "none");
}

/* ---- verification against a GOP hash ---- */
void
h_gop_hash(void)
{
  VF_INPUT();
  build(K);
  session();
  const int s = sei_pos(K);
  VF_ASSUME(s >= 0);
  for (int i = 0; i < K; i++)
    if (i == s) it[i]->has_been_decoded = IN.decoded;
  const int n = gop_of(K, s);
#ifdef FAILAT
  IN.rc_reset = FAILAT;
#else
  IN.rc_reset = 0;
#endif
  svrc_t rc = legacy_compute_gop_hash(&sv, it[s]);
  VF_CHECK((rc == SV_OK) == (IN.decoded && !(IN.rc_reset == 1 || (IN.rc_reset > 1 && IN.rc_reset - 2 <= n))), "computed, or an error is returned");
  if (rc == SV_OK) {
    VF_CHECK(gn == n + 1, "one hash per NALU of the GOP, and that of the SEI");
    int c = 0;
    for (int i = 0; i < K; i++) {
      if (!in_gop[i]) continue;
      VF_CHECK(eq(glog[c], hash_of(i)), "in order");
      c++;
    }
    for (int i = 0; i < K; i++)
      if (i == s) VF_CHECK(eq(glog[n], IN.hash[i]), "the SEI is last");
  }
  for (int i = 0; i < K; i++) VF_CHECK(it[i]->used_in_gop_hash == (rc == SV_OK && (in_gop[i] || i == s)) && it[i]->validation_status == st0[i] && it[i]->need_second_verification == sec0[i], "exactly the NALUs of the GOP and its SEI are marked as covered");
#ifndef FAILAT
  VF_REACH(rc == SV_OK && n > 1, "several NALUs");
#endif
  VF_REACH(rc != SV_OK, "failed");
}
void
h_verify_gop_hash(void)
{
  VF_INPUT();
  build(K);
  session();
  const int s = sei_pos(K);
  VF_ASSUME(s >= 0);
  const int n = gop_of(K, s);
  for (int i = 0; i < K; i++) it[i]->used_in_gop_hash = in_gop[i] || i == s;
  gi.verified_signature_hash = SIG;
  VF_ASSUME(IN.sent >= 0 && IN.sent <= 6);
  gi.num_sent_nalus = (uint16_t)IN.sent;
  int exp = -7, rec = -7;
  bool ok = legacy_verify_hashes_with_gop_hash(&sv, &exp, &rec);
  int done = 0;
  for (int i = 0; i < K; i++) {
    const char c = it[i]->validation_status;
    VF_CHECK(c != '.' || st0[i] == '.' || (SIG == 1 && !fna0[i] && (in_gop[i] || i == s)), "authentic only if the signed GOP hash covers the NALU, and no earlier verification failed");
#if SIG >= 0
    VF_CHECK(!it[i]->used_in_gop_hash, "marks are removed");
    if (in_gop[i] && has_second(i) && !sec0[i]) {
      VF_CHECK(c == 'P' && it[i]->need_second_verification && it[i]->first_verification_not_authentic == (SIG != 1), "the NALU shared with the next GOP awaits its second verification, the first is remembered");
    } else if (in_gop[i] || i == s) {
      VF_CHECK(c == (SIG == 1 && !fna0[i] ? '.' : 'N') && !it[i]->need_second_verification, "the others are done");
      done++;
    } else {
      VF_CHECK(c == st0[i] && it[i]->need_second_verification == sec0[i] && it[i]->first_verification_not_authentic == fna0[i], "NALUs of other GOPs are untouched");
    }
#endif
  }
#if SIG >= 0
  VF_CHECK(ok && exp == IN.sent && rec == done, "expected and received NALUs");
  const int miss = IN.first || IN.sent - done < 0 ? 0 : IN.sent - done;
  VF_CHECK(gm_total == miss, "missing NALUs are counted");
#endif
  (void)n;
  VF_REACH(ok, "end");
}

/* ---- the verdict on the oldest GOP ---- */
void
h_verdict(void)
{
  VF_INPUT();
  build(K);
  VF_ASSUME(IN.sent >= 1 && IN.sent <= 6 && IN.list_n >= (HT == LEGACY_DOCUMENT_HASH));
#ifdef SIG
  VF_ASSUME(IN.sig == SIG);
#endif
#ifdef FIRST
  VF_ASSUME(IN.first == FIRST);
#endif
  session();
  sv.validation_flags.signing_present = true;
  sv.validation_flags.reset_first_validation = false;
  const int s = sei_pos(K);
  VF_ASSUME(s >= 0);
  for (int i = 0; i < K; i++) it[i]->has_been_decoded = st0[i] != 'P' && kind(i) == KS;
  const int n = gop_of(K, s);
  VF_ASSUME(IN.auth >= 1);
  VF_ASSUME(legacy_has_pending_gop(&sv));
  IN.rc_reset = 0;
  VF_ASSUME(legacy_prepare_for_validation(&sv) == SV_OK);
  VF_CHECK(ndecode == 1 && nverify == 1 && verify_saw_key, "one signature is verified, with a key");
  for (int i = 0; i < K; i++)
    if (i == s) {
      VF_CHECK(decoded_at == na[i]->tlv_data && decoded_size == na[i]->tlv_size && it[i]->has_been_decoded, "the SEI under validation is decoded");
#if HT == 1
      VF_CHECK(eq(verified_what, IN.hash[i]), "the signature covers the hash of the SEI");
#endif
    }
#if HT == 0
  VF_CHECK(gn == n + 1 && eq(verified_what, IN.ghash[n]), "the signature covers the hash of the GOP and the SEI");
#endif
  const bool lost = sv.gop_state.has_lost_sei && !sv.gop_state.gop_transition_is_lost;
  const bool keychg = latest.public_key_has_changed;
  VF_CHECK(keychg == (IN.d_keychg || (IN.auth_result && IN.keychg)), "a change of key stays visible until it is reported");
  int inv0 = 0;
  for (int i = 0; i < K; i++) inv0 += st0[i] == 'N' || st0[i] == 'E';
  legacy_validate_authenticity(&sv);
  const int v = latest.authenticity;
  VF_CHECK(v >= SV_AUTH_RESULT_SIGNATURE_PRESENT && v <= SV_AUTH_RESULT_OK, "a verdict");
  const bool good = v == SV_AUTH_RESULT_OK || v == SV_AUTH_RESULT_OK_WITH_MISSING_INFO;
  if (IN.auth_result && IN.auth >= SV_AUTH_RESULT_NOT_OK) VF_CHECK(v <= IN.auth, "a worse result of an earlier GOP is not overwritten before it is reported");
  /* what became of the NALUs */
  int pend = 0, pend0 = 0, done = 0, newinv = 0, second = 0, second0 = 0, auth = 0;
  for (int i = 0; i < K; i++) {
    const char c = it[i]->validation_status;
    pend0 += st0[i] == 'P';
    pend += c == 'P';
    done += st0[i] == 'P' && c != 'P';
    newinv += c == 'N' || c == 'E';
    auth += c == '.' && kind(i) != KS;
    second0 += sec0[i];
    second += it[i]->need_second_verification && c == 'P';
    if (st0[i] == 'P' && c == '.') {
      VF_CHECK((in_gop[i] || i == s) && IN.sig == 1 && !lost, "a NALU becomes authentic only with the verified signature of its GOP");
      VF_CHECK(!fna0[i], "and never after a failed verification");
#if HT == 1
      if (i != s) {
        bool listed = false;
        for (int j = 0; j < NH; j++) listed |= j < IN.list_n && eq(hash_of(i), IN.listh[j]);
        VF_CHECK(listed, "and only if it is in the hash list");
      }
#endif
    }
    if (st0[i] != 'P' && !IN.first) VF_CHECK(c == st0[i], "validated NALUs keep their status");
    if (IN.sig >= 0) VF_CHECK(!it[i]->used_in_gop_hash, "marks are removed");
    if (fna0[i] && c == 'P' && !IN.first) VF_CHECK(it[i]->first_verification_not_authentic, "a failed verification is remembered");
  }
  if (good) {
    VF_CHECK(!keychg, "not OK when the public key has changed");
    VF_CHECK(newinv == 0 && inv0 == 0, "OK only if nothing is marked not authentic");
    if (n > 0 && sec0[0] && !lost) VF_CHECK(IN.sig == 1, "OK only with a verified signature");
    if (IN.first) VF_CHECK((v == SV_AUTH_RESULT_OK || IN.auth_result) && IN.sig == 1 && (auth > 0 || second > 0), "the first validation of a session needs authentic NALUs");
  }
  if (v == SV_AUTH_RESULT_OK) VF_CHECK(IN.first || gm_total == 0, "OK only if nothing is missing");
  /* completeness */
  bool every = IN.sig == 1 && !lost && !keychg && n > 0 && inv0 == 0;
#if HT == 1
  spec_list();
  for (int i = 0; i < K; i++)
    if (in_gop[i] && (e_st[i] == 'N' || e_fna[i] || fna0[i])) every = false;
  if (e_total) every = false;
#else
  for (int i = 0; i < K; i++)
    if (fna0[i]) every = false;
  if (gm_total) every = false;
#endif
  if (every && (auth > 0 || second > 0) && (!IN.auth_result || IN.auth == SV_AUTH_RESULT_OK)) VF_CHECK(v == SV_AUTH_RESULT_OK, "an unmodified GOP is OK");
  if (!IN.first && !good) VF_CHECK(v == SV_AUTH_RESULT_NOT_OK, "otherwise it is not OK");
  if (keychg) VF_CHECK(v == SV_AUTH_RESULT_NOT_OK, "a changed public key is not OK");
  /* progress: a NALU is done, or has had its first verification */
  if (!IN.first) VF_CHECK(done > 0 || second > second0, "validation makes progress");
#ifdef RLOST
  VF_REACH(lost, "lost SEI");
#endif
#ifdef ROK
  VF_REACH(v == SV_AUTH_RESULT_OK && n > 0, "OK");
#endif
#ifdef RMISS
  VF_REACH(v == SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "OK with missing info");
#endif
#if !defined(FIRST) || FIRST == 0
  VF_REACH(v == SV_AUTH_RESULT_NOT_OK, "not OK");
#endif
}

/* ---- when validation takes place ---- */
void
h_pending(void)
{
  VF_INPUT();
  build(K);
  session();
  sv.gop_state.gop_transition_is_lost = IN.transition;
  sv.gop_state.has_lost_sei = IN.lost;
  bool r = legacy_has_pending_gop(&sv);
  int ends = 0, firstsei = -1, lastp = -1, found = -1;
  bool after = false;
  for (int i = 0; i < K; i++) {
    if (found >= 0 || st0[i] != 'P' || kind(i) == KX) continue;
    if (lastp >= 0 && kind(lastp) == KS) after = true;
    ends += kind(i) == KI && !sec0[i];
    if (kind(i) == KS && firstsei < 0) firstsei = i;
    lastp = i;
    if (IN.signing ? (ends > 0 && firstsei >= 0) : ends >= 2) found = i;
    if (after) found = i;
  }
  VF_CHECK(r == (found >= 0), "validation takes place when a GOP with its SEI is complete, or the SEI is followed by another NALU");
  VF_CHECK(sv.gop_state.no_gop_end_before_sei == (after && ends < 2), "whether a new GOP started before the SEI");
  VF_CHECK(!sv.gop_state.has_lost_sei && !sv.gop_state.gop_transition_is_lost, "the state of the previous GOP is forgotten");
  VF_CHECK(sv.gop_state.validate_after_next_nalu == (!r && lastp >= 0 && kind(lastp) == KS), "a SEI without a complete GOP waits for one more NALU");
  VF_CHECK(!r || !IN.signing || (sei_pos(K) >= 0 && sv.gop_state.has_sei), "a signed GOP is validated only with a SEI");
  VF_REACH(r && IN.signing, "signed");
  VF_REACH(r && !IN.signing, "unsigned");
  VF_REACH(!r, "nothing to do");
}

/* ---- the rounds of validation ---- */
static int rnd, r_prep, r_val, r_bad;
static bool r_sig_clean = true, r_init_ok = true, r_seq = true, r_key_ok = true;
static int r_auth[KM + 1];
static bool r_again;  // the latest round asks for another first validation
static int
pending_now(void)
{
  int n = 0;
  for (int i = 0; i < K; i++) n += it[i]->validation_status == 'P';
  return n;
}
bool
vf_has_pending_gop(legacy_sv_t *self)
{
  VF_CHECK(self == &sv, "session");
  if (rnd > 0 && gi.verified_signature_hash != -1) r_sig_clean = false;
  if (pending_now() == 0 || rnd > KM) return false;
  return (IN.bits[rnd < KM ? rnd : KM - 1] & 1) != 0;
}
svrc_t
vf_prepare(legacy_sv_t *self)
{
  VF_CHECK(self == &sv, "session");
  if (rnd > 0 && latest.authenticity != r_auth[rnd - 1]) r_init_ok = false;
  if (latest.public_key_has_changed != IN.keychg) r_key_ok = false;
  if (r_prep != r_val + r_bad) r_seq = false;
  if (IN.bits[rnd < KM ? rnd : KM - 1] & 2) {
    r_bad++;
    r_prep++;
    return SV_NOT_SUPPORTED;
  }
  gi.verified_signature_hash = IN.sig;
  r_prep++;
  return SV_OK;
}
void
vf_validate(legacy_sv_t *self)
{
  VF_CHECK(self == &sv, "session");
  if (r_prep != r_val + 1 || r_bad || gi.verified_signature_hash != IN.sig) r_seq = false;
  bool done = false;
  for (int i = 0; i < K; i++)
    if (!done && it[i]->validation_status == 'P') {
      it[i]->validation_status = '.';
      done = true;
    }
  latest.authenticity = 2 + ((IN.bits[rnd < KM ? rnd : KM - 1] >> 2) & 1);
  r_auth[rnd < KM ? rnd : KM] = latest.authenticity;
  /* see h_verdict: set only when a first validation failed */
  r_again = IN.bits[rnd < KM ? rnd : KM - 1] & 8;
  if (r_again) sv.validation_flags.reset_first_validation = true;
  r_val++;
  rnd++;
}
bool
vf_recurrent(legacy_sv_t *self)
{
  VF_CHECK(self == &sv, "session");
  return IN.decoded;
}
void
h_rounds(void)
{
  VF_INPUT();
  build(K);
  session();
  sv.validation_flags.has_auth_result = false;
  gi.verified_signature_hash = -1;
  VF_ASSUME(st0[K - 1] == 'P' || st0[K - 1] == '_' || st0[K - 1] == 'U');
  const int auth0 = latest.authenticity;
  const int pend0 = pending_now();
  latest.number_of_pending_picture_nalus = IN.pend0;
  svrc_t rc = legacy_maybe_validate_gop(&sv, na[K - 1]);
  int h = K - 2;  // the hashable NALU before
  while (h >= 0 && !(na[h] && na[h]->is_hashable)) h--;
  const bool aftersei = h >= 0 && kind(h) == KS && st0[h] == 'P';
  const bool feasible = IN.decoded && st0[K - 1] == 'P' && (kind(K - 1) == KS || (kind(K - 1) == KI && !sec0[K - 1]) || aftersei);
  const int pend = pending_now();
  VF_CHECK(r_seq, "each GOP is validated after it was prepared");
  if (!feasible) {
    VF_CHECK(rc == SV_OK && r_prep == 0 && r_val == 0, "only a SEI, the NALU after it or the start of a GOP triggers validation, when it is possible");
    VF_CHECK(sv.validation_flags.has_auth_result == IN.first_sei, "no result but that a signature is present");
    if (IN.first_sei) VF_CHECK(latest.authenticity == SV_AUTH_RESULT_SIGNATURE_PRESENT && !latest.public_key_has_changed && (int)latest.number_of_pending_picture_nalus == pend, "signature present");
    else VF_CHECK(latest.authenticity == auth0 && pend == pend0, "otherwise nothing happens");
  } else {
    VF_CHECK((rc == SV_OK) == (r_bad == 0), "the error of a GOP that cannot be validated is returned");
    VF_CHECK(r_init_ok, "results of several GOPs are merged");
    VF_CHECK(r_key_ok, "a change of key is kept");
    VF_CHECK(r_sig_clean && (r_prep == 0 || r_bad || gi.verified_signature_hash == -1), "a signature is used for one GOP only");
    const int done = IN.signing ? r_val : r_prep - r_bad;
    VF_CHECK(sv.validation_flags.has_auth_result == (done > 0), "a result if and only if something was validated");
    if (!IN.signing) {
      VF_CHECK(r_val == 0 && r_prep <= 1 && pend == pend0, "nothing is validated in an unsigned stream");
      if (done > 0) VF_CHECK(latest.authenticity == SV_AUTH_RESULT_NOT_SIGNED && sv.validation_flags.is_first_validation, "which is reported as not signed");
    } else if (done > 0) {
      VF_CHECK(sv.validation_flags.is_first_validation == r_again, "the first validation is done, unless its SEI belonged to something before the stream");
      VF_CHECK(latest.authenticity == r_auth[done - 1], "the result is that of the validation");
    }
    if (done > 0 && rc == SV_OK) VF_CHECK((int)latest.number_of_pending_picture_nalus == pend, "the number of pending NALUs");
    VF_CHECK(pend + r_val == pend0 && r_val <= pend0, "never more rounds than pending NALUs");
  }
#ifdef RV
  VF_REACH(r_val == pend0 && rc == SV_OK, "all validated");
  VF_REACH(r_val > 0 && rc != SV_OK, "error after a validation");
  VF_REACH(r_val > 1 && !r_again, "several");
#endif
  VF_REACH(rc == SV_OK, "end");
}

void
h_recurrent(void)
{
  VF_INPUT();
  build(K);
  session();
  bool r = legacy_is_recurrent_data_decoded(&sv);
  bool any = false;
  for (int i = 0; i < K; i++) any |= st0[i] == 'P' && kind(i) == KS;
  const bool need = !IN.has_key && IN.signing;
  VF_CHECK(r == (!need || (any && IN.opt)), "validation waits for the public key of a signed stream");
  VF_CHECK(nopt == 0 || need, "the data of a pending SEI is decoded only if it is needed");
  VF_REACH(need && r, "decoded");
  VF_REACH(!r, "not decoded");
}

/* ---- preparation ---- */
static char m_axis[] = "Axis Communications AB", m_other[] = "Axis Communications AC";
void
h_prepare(void)
{
  VF_INPUT();
  build(K);
  session();
  sv.gop_state.has_sei = IN.gop_sei;
  IN.rc_reset = 0;
  const int s = sei_pos(K);
  for (int i = 0; i < K; i++) it[i]->has_been_decoded = i == s && IN.decoded;
  VF_ASSUME(IN.sn[3] == 0);
  for (int j = 0; j < 4; j++) sn1[j] = IN.sn[j];
  prod.manufacturer = IN.manuf == 0 ? NULL : IN.manuf == 1 ? m_axis : m_other;
  prod.serial_number = sn1;
  supp.public_key_validation = IN.vendor_val;
  for (int j = 0; j < 4; j++) supp.serial_number[j] = IN.nulls ? IN.sn[j] : (char)IN.data[j];
  supp.serial_number[3] = 0;
  VF_ASSUME(IN.pubkey_val >= 0 && IN.pubkey_val <= 2);
  latest.public_key_validation = IN.pubkey_val;
  const bool dec = s >= 0 && !IN.decoded;
  svrc_t rc = legacy_prepare_for_validation(&sv);
  const bool key = IN.has_key || (dec && !IN.rc_decode && IN.got_key);
  VF_CHECK(ndecode == dec, "a SEI is decoded once");
  if (rc == SV_OK) {
    VF_CHECK(!(dec && IN.rc_decode), "decoding succeeded");
    VF_CHECK(!IN.signing || key, "there is a public key");
    VF_CHECK(nverify == IN.gop_sei && !(IN.gop_sei && IN.rc_verify), "the signature is verified if there is one");
    if (IN.gop_sei) VF_CHECK(gi.verified_signature_hash == IN.sig, "the result of the verification");
  }
  if (dec) VF_CHECK(latest.public_key_has_changed == ((IN.auth_result && IN.keychg) || (!IN.rc_decode && IN.d_keychg)), "a change of key stays visible until it is reported");
  else VF_CHECK(latest.public_key_has_changed == IN.keychg, "a change of key is kept");
  if (rc != SV_OK) {
    VF_CHECK((dec && IN.rc_decode) || (IN.signing && !key) || (IN.manuf == 1 && IN.rc_vendor) || (IN.gop_sei && IN.rc_verify), "errors have a reason");
    VF_CHECK(gi.verified_signature_hash != 1, "no verified signature");
  }
  if (IN.signing && !key) VF_CHECK(nverify == 0 && rc != SV_OK, "nothing is verified without a public key");
  bool same = true, z = false;
  for (int j = 0; j < 4; j++) {
    if (!z && sn1[j] != supp.serial_number[j]) same = false;
    if (sn1[j] == 0 && supp.serial_number[j] == 0) z = true;
  }
  const int pv = latest.public_key_validation;
  if (IN.manuf != 1) VF_CHECK(pv == IN.pubkey_val, "the public key is validated by its vendor only");
  else if (rc == SV_OK) VF_CHECK(pv == (!same ? SV_PUBKEY_VALIDATION_NOT_OK : IN.vendor_val == 1 ? SV_PUBKEY_VALIDATION_OK : IN.vendor_val == 0 ? SV_PUBKEY_VALIDATION_NOT_OK : SV_PUBKEY_VALIDATION_NOT_FEASIBLE), "the public key is valid only for the right serial number and if the vendor says so");
  VF_REACH(rc == SV_OK && IN.manuf == 1 && pv == SV_PUBKEY_VALIDATION_OK, "attested");
  VF_REACH(rc == SV_NOT_SUPPORTED, "no key");
}

/* ---- what is hashed of a SEI ---- */
void
h_hashable(void)
{
  VF_INPUT();
  static legacy_h26x_nalu_t n;
  n.is_valid = 1;
  n.is_hashable = IN.hashable;
  n.is_gop_sei = IN.gop_sei;
  n.with_epb = IN.epb;
  n.hashable_data = IN.data;
  n.hashable_data_size = 8;
  n.tlv_start_in_nalu_data = IN.data + 2;
  n.tlv_size = 5;
  legacy_update_hashable_data(&n);
  const bool use = IN.hashable && IN.gop_sei;
  if (use) VF_CHECK(find_data == IN.data + 2 && find_size == 5 && find_epb == IN.epb && find_tag == SIGNATURE_TAG, "the signature is searched for in the payload");
  VF_CHECK(n.hashable_data == IN.data && n.hashable_data_size == (use && IN.find ? 4 : 8), "everything but the signature of a SEI is hashed");
  VF_REACH(use && IN.find, "SEI");
  VF_REACH(!use, "other");
}

/* ---- adding a NALU ---- */
static int nmaybe;
svrc_t
vf_maybe(legacy_sv_t *self, legacy_h26x_nalu_t *n)
{
  VF_CHECK(self == &sv && n && L->last_item->nalu == n, "the NALU added");
  nmaybe++;
  if (IN.auth_result) sv.validation_flags.has_auth_result = true;
  return IN.rc_parse ? SV_NOT_SUPPORTED : SV_OK;
}
static int nupd, at_upd;
void
vf_update_report(legacy_sv_t *self)
{
  VF_CHECK(self == &sv, "session");
  nupd++;
  at_upd = ++seq;
}
void
h_add(void)
{
  VF_INPUT();
  build(K);
  session();
  sv.validation_flags.has_auth_result = IN.nulls;  // of the previous NALU
  parsed.is_valid = NVALID;
  parsed.is_hashable = NVALID == 1 && NKIND != KX;
  parsed.is_gop_sei = NKIND == KS;
  parsed.is_first_nalu_in_gop = NKIND == KI;
  woepb = IN.epb ? malloc(8) : NULL;
  uint8_t *raw = malloc(8);
  VF_ASSUME(raw);
  for (int i = 0; i < 8; i++) raw[i] = IN.data[i];
  signed_video_authenticity_t *a = (signed_video_authenticity_t *)&crypto_dummy;
  const unsigned rec0 = acc.number_of_received_nalus;
  latest.has_timestamp = true;
  svrc_t rc = legacy_sv_add_nalu_and_authenticate(&sv, raw, 8, IN.want ? &a : NULL);
  free(raw);
  VF_ASSUME(rc != SV_MEMORY);
  VF_CHECK(L->num_items == K + 1 && L->first_item == it[0], "the NALU is in the list");
  legacy_h26x_nalu_list_item_t *x = L->last_item;
  VF_CHECK(x->prev == it[K - 1] && x->taken_ownership_of_nalu && x->nalu, "as the last, with its own copy");
  VF_CHECK(!x->nalu->nalu_data && !x->nalu->hashable_data && !x->nalu->payload && !x->nalu->tlv_start_in_nalu_data, "no pointer to the memory of the caller");
  VF_CHECK((x->nalu->tlv_data != NULL) == (NKIND == KS), "what a SEI contains is kept");
#if NKIND == 2
  for (int i = 0; i < 8; i++) VF_CHECK(x->nalu->tlv_data[i] == IN.data[i], "the same bytes");
#endif
  VF_CHECK(acc.number_of_received_nalus == rec0 + 1, "the NALU is counted");
#if NVALID < 0
  VF_CHECK(rc != SV_OK && nhash == 0 && nmaybe == 0 && x->validation_status == 'E', "a NALU that cannot be parsed is an error");
#else
  VF_CHECK(nhash == (NVALID > 0), "a valid NALU is hashed once");
  if (nhash) VF_CHECK(hashed == x, "it is the NALU added");
  const bool hashfail = NVALID > 0 && IN.rc_hash;
  VF_CHECK(nmaybe == !hashfail, "validation follows");
  VF_CHECK((rc == SV_OK) == (!hashfail && !IN.rc_parse), "errors are returned");
  VF_CHECK((x->validation_status == 'E') == (rc != SV_OK), "and marked");
  VF_CHECK(sv.validation_flags.signing_present == (IN.signing || NKIND == KS), "a SEI tells that the stream is signed");
#endif
  const bool result = rc == SV_OK && IN.auth_result && nmaybe;
  VF_CHECK(nupd == result && nget == (result && IN.want), "a report if and only if there is a new result");
  if (IN.want) VF_CHECK(a == (result ? &report : NULL), "the report is returned");
  if (result && IN.want) VF_CHECK(at_upd < at_get, "after it was updated");
  for (int i = 0; i < K; i++) VF_CHECK(it[i]->validation_status == st0[i] && it[i]->nalu == na[i], "earlier NALUs are untouched");
#if NVALID >= 0
  VF_REACH(result && IN.want, "report");
  VF_REACH(rc == SV_OK && !result, "no report");
#endif
  VF_REACH(rc != SV_OK, "error");
}
void
h_add_params(void)
{
  VF_INPUT();
  build(1);
  session();
  signed_video_authenticity_t *a = &report;
  VF_CHECK(legacy_sv_add_nalu_and_authenticate(&sv, NULL, 4, &a) == SV_INVALID_PARAMETER, "no data");
  VF_CHECK(legacy_sv_add_nalu_and_authenticate(&sv, IN.data, 0, &a) == SV_INVALID_PARAMETER, "no size");
  VF_CHECK(legacy_sv_add_nalu_and_authenticate(NULL, IN.data, 4, &a) == SV_OK && a == &report, "no old stream");
  VF_CHECK(L->num_items == 1 && seq == 0, "no effect");
  VF_CHECK(legacy_get_nalu_list_items(&sv) == 1 && legacy_get_nalu_list_items(NULL) == 0, "number of items");
  VF_REACH(true, "end");
}

/* ---- the report ---- */
void
h_report(void)
{
  VF_INPUT();
  build(K);
  session();
  sv.latest_validation = &report.latest_validation;
  report.latest_validation.authenticity = IN.auth;
  report.latest_validation.nalu_str = malloc(2);
  report.latest_validation.validation_str = NULL;
  static char v1[8], v2[8];
  report.this_version = v1;
  report.version_on_signing_side = v2;
  const unsigned val0 = acc.number_of_validated_nalus;
  legacy_update_authenticity_report(&sv);
  VF_CHECK(nacc == 1, "the accumulated result is updated once");
  VF_CHECK(acc_saw == (IN.cmp == 2 ? SV_AUTH_RESULT_VERSION_MISMATCH : IN.auth), "with the result, or that the version is newer");
  VF_CHECK(report.latest_validation.authenticity == (SignedVideoAuthenticityResult)acc_saw, "which is reported");
  unsigned gone = 0;
  bool keep = false;
  for (int i = 0; i < K; i++) {
    if (st0[i] == 'P' || sec0[i]) keep = true;
    if (!keep && st0[i] != 'M') gone++;
  }
  VF_CHECK(acc.number_of_validated_nalus == val0 + (IN.auth == SV_AUTH_RESULT_NOT_SIGNED ? 0 : gone), "validated NALUs are counted, once");
  char *v = report.latest_validation.validation_str;
  if (v) {
    bool ok = true;
    for (int i = 0; i < K; i++) ok &= v[i] == st0[i];
    VF_CHECK(ok && v[K] == 0, "the status of every NALU is reported, before those that are done are removed");
  }
  char *ns = report.latest_validation.nalu_str;
  if (ns) VF_CHECK(ns != v && ns[K] == 0, "the kind of every NALU is reported");
  free(ns);
  free(v);
  VF_REACH(v && IN.cmp == 2, "newer");
  VF_REACH(v && gone > 0 && IN.cmp != 2, "some done");
}
