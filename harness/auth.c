/* Contracts on signed_video_h26x_auth.c: validation of a stream.  The list of NALUs is the real one
 * (signed_video_h26x_nalu_list.c); decoding, hashing, signatures and the report are contract stubs. */
#include "vf.h"
#include "signed_video_internal.h"
#include "signed_video_h26x_internal.h"
#include "signed_video_h26x_nalu_list.h"
#include "signed_video_authenticity.h"
#include "signed_video_openssl_internal.h"
#include "signed_video_tlv.h"
#include "includes/signed_video_common.h"
#include "includes/signed_video_auth.h"
#include "axis-communications/sv_vendor_axis_communications_internal.h"

#ifndef K
#define K 3
#endif
#ifndef KM
#define KM 4
#endif
#ifndef NH
#define NH 3  // hashes in a hash list
#endif
#ifndef GC_HS
#define GC_HS 32
#endif
#define GC_STREAM ((KM + 1) * GC_HS)
#ifndef GC_DIGESTS
#define GC_DIGESTS 3
#endif
#include "ghost_crypto.h"

struct vf_in {
  uint8_t kind[KM];  // see add()
  uint8_t st[KM];
  uint8_t hash[KM][GC_HS];
  uint8_t second[KM][GC_HS];
  uint8_t listh[NH][GC_HS];
  uint8_t rgop[GC_HS], cgop[GC_HS], rlink[GC_HS], link[GC_HS], link2[GC_HS];
  struct gc_in gc;
  int sig, list_n, sent, auth, exp, rec, received0, expected0, pend0;
  int rc_decode, rc_verify, rc_vendor, rc_key;
  uint32_t counter, latest_gop, d_counter;
  int vendor_val, pubkey_val, manuf;
  uint8_t data[8];
  char sn[4];
  int is_valid;
  uint8_t reserved;
  uint8_t bits[KM];
  int rc_report, rc_parse, rc_hash, rc_legacy, rc_append;
  uint8_t linkedbits[KM];
  bool first : 1, synced : 1, lost : 1, transition : 1, noend : 1, keychg : 1, order : 1, has_key : 1, signing : 1, auth_result : 1, decoded : 1, d_keychg : 1, got_key : 1, first_sei : 1, golden : 1, gop_sei : 1, hashable : 1, ingop : 1, algo : 1, opt : 1, opt_algo : 1, nulls : 1, want : 1, has_pem : 1, started : 1, legacy : 1, epb : 1, find : 1;
} IN;

#define LK(i) (IN.linkedbits[i] & 1)
/* ---- contracts of the callees ---- */
static signed_video_t sv;
static gop_info_t gi;
static sign_or_verify_data_t vd;
static uint8_t vd_hash[MAX_HASH_SIZE];
static signed_video_latest_validation_t latest;
static signed_video_accumulated_validation_t acc;
static signed_video_authenticity_t report;
static signed_video_product_info_t prod;
static sv_vendor_axis_supplemental_authenticity_t supp;
static char manuf[24];
static char sn1[4];
static int crypto_dummy, vendor_dummy;
static h26x_nalu_list_t *L;
static h26x_nalu_list_item_t *it[KM];
static h26x_nalu_t *na[KM];
static char st0[KM];
static int ndecode, nverify, nlinked;
static const uint8_t *decoded_at;
static size_t decoded_size;
static uint8_t linked_arg[GC_HS];
static uint8_t verified_what[GC_HS];
static bool verify_saw_key;
static int linked_item;

/* see common.c, h_flags */
void
gop_state_reset(gop_state_t *g)
{
  gop_state_t z = {0};
  *g = z;
}
void
gop_state_update(gop_state_t *g, h26x_nalu_t *n)
{
  if (!n || n->is_valid <= 0 || !n->is_hashable) return;
  g->has_sei |= n->is_gop_sei;
}
/* see common.c, h_linked_hash */
svrc_t
update_linked_hash(signed_video_t *self, uint8_t *h, size_t n)
{
  VF_CHECK(self == &sv && h && n == GC_HS, "the link is a hash of the NALU");
  nlinked++;
  for (int i = 0; i < GC_HS; i++) {
    linked_arg[i] = h[i];
    gi.linked_hashes[i] = gi.linked_hashes[GC_HS + i];
    gi.linked_hashes[GC_HS + i] = h[i];
  }
  return SV_OK;
}
/* see tlv.c: a SEI sets what it contains to anything, or decoding fails */
svrc_t
tlv_decode(signed_video_t *self, const uint8_t *data, size_t n)
{
  ndecode++;
  decoded_at = data;
  decoded_size = n;
  if (IN.rc_decode) return SV_AUTHENTICATION_ERROR;
  for (int i = 0; i < GC_HS; i++) {
    self->received_gop_hash[i] = IN.rgop[i];
    self->received_linked_hash[i] = IN.rlink[i];
  }
  self->gop_info->global_gop_counter = IN.d_counter;
  self->gop_info->num_sent_nalus = (uint16_t)IN.sent;
  if (IN.list_n > 0) {
    for (int j = 0; j < NH; j++)
      for (int i = 0; i < GC_HS; i++) self->gop_info->hash_list[j * GC_HS + i] = IN.listh[j][i];
    self->gop_info->list_idx = IN.list_n * GC_HS;
  }
  if (IN.d_keychg) self->latest_validation->public_key_has_changed = true;
  if (IN.got_key) self->has_public_key = true;
  return SV_OK;
}
static int nopt;
bool
tlv_find_and_decode_optional_tags(signed_video_t *self, const uint8_t *data, size_t n)
{
  VF_CHECK(data && n, "recurrent data is looked for in a SEI");
  nopt++;
  if (IN.opt && IN.opt_algo) self->validation_flags.hash_algo_known = true;
  return IN.opt;
}
static const uint8_t *find_data;
static size_t find_size;
static bool find_epb;
static sv_tlv_tag_t find_tag;
const uint8_t *
tlv_find_tag(const uint8_t *p, size_t n, sv_tlv_tag_t t, bool epb)
{
  find_data = p;
  find_size = n;
  find_tag = t;
  find_epb = epb;
  return IN.find ? p + 2 : NULL;
}
svrc_t
openssl_verify_hash(const sign_or_verify_data_t *v, int *res)
{
  nverify++;
  for (int i = 0; i < GC_HS; i++) verified_what[i] = v->hash[i];
  verify_saw_key = sv.has_public_key;
  VF_CHECK(v == &vd && res == &gi.verified_signature_hash, "the signature of this session");
  if (IN.rc_verify) {
    *res = -1;
    return SV_INVALID_PARAMETER;
  }
  *res = IN.sig;
  return SV_OK;
}
static const void *vendor_key;  /* ghost: the key the vendor verifies; stale until set */
svrc_t
set_axis_communications_public_key(void *h, const void *key, bool changed)
{
  VF_CHECK(h == &vendor_dummy, "vendor data of this session");
  (void)changed;
  if (!key) return SV_INVALID_PARAMETER;
  vendor_key = key;
  return SV_OK;
}
svrc_t
get_axis_communications_supplemental_authenticity(void *h, sv_vendor_axis_supplemental_authenticity_t **s)
{
  VF_CHECK(h == &vendor_dummy, "vendor data of this session");
  VF_CHECK(vendor_key == vd.key, "the vendor verifies the key in use");
  if (IN.rc_vendor) return SV_MEMORY;
  *s = &supp;
  return SV_OK;
}
#ifndef OWN_NALU_STUBS
void
copy_nalu_except_pointers(h26x_nalu_t *dst, const h26x_nalu_t *src)
{
  if (!dst || !src) return;
  *dst = *src;
  dst->nalu_data = dst->hashable_data = dst->payload = dst->tlv_start_in_nalu_data = dst->tlv_data = NULL;
  dst->pending_nalu_data = dst->nalu_data_wo_epb = NULL;
}
#endif
char
nalu_type_to_char(const h26x_nalu_t *n)
{
  return n ? 'n' : ' ';
}
#ifdef GHOST_MISSING
/* Contracts of these list functions, see nalu_list.c: missing items are ghost state, so the list
 * keeps its shape. */
#define h26x_nalu_list_add_missing real_add_missing
#define h26x_nalu_list_get_stats real_get_stats
#define h26x_nalu_list_remove_missing_items real_remove_missing_items
#include "signed_video_h26x_nalu_list.c"
#undef h26x_nalu_list_add_missing
#undef h26x_nalu_list_get_stats
#undef h26x_nalu_list_remove_missing_items
static struct {
  h26x_nalu_list_item_t *item;
  int num;
  bool append;
} gm[8];
static int gm_n, gm_total, gm_removed;
svrc_t
h26x_nalu_list_add_missing(h26x_nalu_list_t *list, int num, bool append, h26x_nalu_list_item_t *item)
{
  VF_CHECK(list == L, "the list of the session");
  if (!item || num < 0) return SV_INVALID_PARAMETER;
  if (num == 0) return SV_OK;
  VF_CHECK(gm_n < 8, "ghost log large enough");
  gm[gm_n].item = item;
  gm[gm_n].num = num;
  gm[gm_n].append = append;
  gm_n++;
  gm_total += num;
  return SV_OK;
}
bool
h26x_nalu_list_get_stats(const h26x_nalu_list_t *list, int *inv, int *mis)
{
  bool v = real_get_stats(list, inv, NULL);
  if (mis) *mis = gm_total;
  return v;
}
void
h26x_nalu_list_remove_missing_items(h26x_nalu_list_t *list)
{
  gm_removed++;
  real_remove_missing_items(list);
}
#else
#include "signed_video_h26x_nalu_list.c"
#endif

/* ---- the rest of the interface used when a NALU is added ---- */
static h26x_nalu_t parsed;
static int seq, at_parse, at_append, at_flags, at_hash, at_report, at_get, at_create;
static int nhash, nreport, nlegacy, nlegacy_create, nacc_init, nget;
static const uint8_t *parse_data;
static size_t parse_size;
static uint8_t *woepb;
static int legacy_dummy;
h26x_nalu_t
parse_nalu_info(const uint8_t *d, size_t n, SignedVideoCodec codec, bool trail, bool auth)
{
  (void)codec;
  VF_CHECK(trail && auth, "the whole NALU is parsed for validation");
  parse_data = d;
  parse_size = n;
  at_parse = ++seq;
  h26x_nalu_t x = parsed;
  x.nalu_data = d;
  x.nalu_data_size = n;
  x.hashable_data = d;
  x.hashable_data_size = n;
  x.tlv_start_in_nalu_data = x.is_gop_sei ? d : NULL;
  x.tlv_data = x.is_gop_sei ? d : NULL;
  x.tlv_size = x.is_gop_sei ? n : 0;
  x.nalu_data_wo_epb = woepb;
  return x;
}
void
update_validation_flags(validation_flags_t *f, h26x_nalu_t *n)
{
  at_flags = ++seq;
  f->is_first_sei = !f->signing_present && n->is_gop_sei;
  f->signing_present |= n->is_gop_sei;
}
static h26x_nalu_list_item_t *hashed[KM + 2];
svrc_t
hash_and_add_for_auth(signed_video_t *self, h26x_nalu_list_item_t *item)
{
  VF_CHECK(self == &sv && item && item->nalu, "hashing a NALU of the list");
  at_hash = ++seq;
  if (nhash < KM + 2) hashed[nhash] = item;
  nhash++;
  if (IN.rc_hash) return SV_EXTERNAL_ERROR;
  return SV_OK;
}
svrc_t
create_local_authenticity_report_if_needed(signed_video_t *self)
{
  (void)self;
  at_create = ++seq;
  return IN.rc_report ? SV_MEMORY : SV_OK;
}
void
update_authenticity_report(signed_video_t *self)
{
  VF_CHECK(self == &sv, "session");
  nreport++;
  at_report = ++seq;
}
signed_video_authenticity_t *
signed_video_get_authenticity_report(signed_video_t *self)
{
  (void)self;
  nget++;
  at_get = ++seq;
  return &report;
}
void
accumulated_validation_init(signed_video_accumulated_validation_t *a)
{
  VF_CHECK(a == &acc, "accumulated result of the session");
  nacc_init++;
}
legacy_sv_t *
legacy_sv_create(signed_video_t *parent)
{
  (void)parent;
  nlegacy_create++;
  return (legacy_sv_t *)&legacy_dummy;
}
svrc_t
legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self, const uint8_t *d, size_t n, signed_video_authenticity_t **a)
{
  (void)d;
  (void)n;
  (void)a;
  if (!self) return SV_OK;
  nlegacy++;
  return IN.rc_legacy ? SV_EXTERNAL_ERROR : SV_OK;
}
static int npub;
svrc_t
openssl_public_key_malloc(sign_or_verify_data_t *v, pem_pkey_t *k)
{
  VF_CHECK(v == &vd && k == &sv.pem_public_key, "key of the session");
  npub++;
  return IN.rc_key ? SV_EXTERNAL_ERROR : SV_OK;
}

#include "signed_video_h26x_auth.c"

/* ---- a session in any state of validation ---- */
enum { KP, KI, KS, KX, KG };  // picture, first of a GOP, signed SEI, not hashed, golden SEI
static int
kind(int i)
{
#ifdef KINDS
  static const uint8_t kk[] = {KINDS};
  return kk[i];
#else
  return IN.kind[i] % 4;
#endif
}
/* status of an item: pending, or done */
static char
status_of(int i)
{
#ifdef DONE
  static const char dd[] = DONE;
  return dd[i];
#else
  static const char s[8] = {'P', 'P', 'P', '.', 'N', 'M', 'E', 'U'};
  char c = s[IN.st[i] & 7];
  if (kind(i) == KX) return c == 'M' ? 'M' : '_';
  return c;
#endif
}
static void
build(int k)
{
  L = calloc(1, sizeof(h26x_nalu_list_t));
  VF_ASSUME(L);
  for (int i = 0; i < k; i++) {
    it[i] = calloc(1, sizeof(h26x_nalu_list_item_t));
    VF_ASSUME(it[i]);
    st0[i] = status_of(i);
    it[i]->validation_status = st0[i];
    it[i]->taken_ownership_of_nalu = true;
    if (st0[i] != 'M') {
      na[i] = calloc(1, sizeof(h26x_nalu_t));
      VF_ASSUME(na[i]);
      na[i]->is_valid = st0[i] == 'U' ? 0 : 1;
      na[i]->is_hashable = kind(i) != KX && st0[i] != 'U';
      na[i]->is_first_nalu_in_gop = kind(i) == KI;
      na[i]->is_gop_sei = kind(i) == KS;
      if (kind(i) == KS) {
        na[i]->tlv_data = IN.data;
        na[i]->tlv_size = 4;
      }
      it[i]->nalu = na[i];
      it[i]->hash_size = GC_HS;
      for (int j = 0; j < GC_HS; j++) it[i]->hash[j] = IN.hash[i][j];
      if (kind(i) == KI) {
        it[i]->second_hash = malloc(MAX_HASH_SIZE);
        VF_ASSUME(it[i]->second_hash);
        for (int j = 0; j < GC_HS; j++) it[i]->second_hash[j] = IN.second[i][j];
        it[i]->used_for_linked_hash = LK(i);
      }
    }
    if (i) {
      it[i]->prev = it[i - 1];
      it[i - 1]->next = it[i];
    }
  }
  L->first_item = k ? it[0] : NULL;
  L->last_item = k ? it[k - 1] : NULL;
  L->num_items = k;
}
static void
session(void)
{
  gc_input = &IN.gc;
  sv.gop_info = &gi;
  sv.verify_data = &vd;
  vd.hash = vd_hash;
  vd.hash_size = GC_HS;
  vd.key = &crypto_dummy;
  sv.crypto_handle = &crypto_dummy;
  sv.vendor_handle = &vendor_dummy;
  sv.latest_validation = &latest;
  sv.accumulated_validation = &acc;
  sv.authenticity = &report;
  sv.product_info = &prod;
  sv.nalu_list = L;
  gi.verified_signature_hash = -1;
  for (int i = 0; i < GC_HS; i++) {
    gi.linked_hashes[i] = IN.link[i];
    gi.linked_hashes[GC_HS + i] = IN.link2[i];
    gi.computed_gop_hash[i] = IN.cgop[i];
    sv.received_gop_hash[i] = IN.rgop[i];
    sv.received_linked_hash[i] = IN.rlink[i];
  }
  for (int j = 0; j < NH; j++)
    for (int i = 0; i < GC_HS; i++) gi.hash_list[j * GC_HS + i] = IN.listh[j][i];
  VF_ASSUME(IN.list_n >= -1 && IN.list_n <= NH);
  gi.list_idx = IN.list_n < 0 ? -1 : IN.list_n * GC_HS;
  gi.num_sent_nalus = (uint16_t)IN.sent;
  gi.global_gop_counter = IN.counter;
  gi.latest_validated_gop = IN.latest_gop;
  gi.global_gop_counter_is_synced = IN.synced;
  sv.validation_flags.is_first_validation = IN.first;
  sv.validation_flags.signing_present = IN.signing;
  sv.validation_flags.has_auth_result = IN.auth_result;
  sv.validation_flags.is_first_sei = IN.first_sei;
  sv.validation_flags.hash_algo_known = IN.algo;
  sv.has_public_key = IN.has_key;
  VF_ASSUME(IN.auth >= 0 && IN.auth <= 4);
  latest.authenticity = IN.auth;
  latest.public_key_has_changed = IN.keychg;
}
static h26x_nalu_list_item_t *
at(int i)
{
  h26x_nalu_list_item_t *x = L->first_item;
  while (i-- > 0 && x) x = x->next;
  return x;
}
static bool
eq(const uint8_t *a, const uint8_t *b)
{
  for (int i = 0; i < GC_HS; i++)
    if (a[i] != b[i]) return false;
  return true;
}
static bool
zero(const uint8_t *a)
{
  for (int i = 0; i < GC_HS; i++)
    if (a[i]) return false;
  return true;
}
static const uint8_t *
hash_of(int i)
{
  return kind(i) == KI ? IN.second[i] : IN.hash[i];
}
/* the oldest pending signed SEI */
static int
sei_pos(int k)
{
  for (int i = 0; i < k; i++)
    if (st0[i] == 'P' && kind(i) == KS) return i;
  return -1;
}
/* item i belongs to the oldest GOP of which the SEI is at s: pending, before the SEI and before the
 * first NALU of the next GOP */
static bool in_gop[KM];
static int
gop_of(int k, int s)
{
  int n = 0;
  bool end = false;
  for (int i = 0; i < k; i++) {
    in_gop[i] = false;
    if (st0[i] != 'P' || end || kind(i) == KX) continue;
    if (i == s || (kind(i) == KI && n > 0)) {
      end = true;
      continue;
    }
    in_gop[i] = true;
    n++;
  }
  return n;
}

/* ---- C11 ---- */
void
h_lost_sei(void)
{
  VF_INPUT();
  session();
  sv.gop_state.no_gop_end_before_sei = IN.noend;
  detect_lost_sei(&sv);
  const uint32_t ahead = IN.counter - (IN.latest_gop + 1);  // modulo 2^32
  const bool lost = IN.synced && ahead != 0 && ahead < 0x80000000u;
  const bool lag = ahead >= 0x80000000u;
  if (lost && IN.counter > IN.latest_gop) VF_CHECK(sv.gop_state.has_lost_sei, "a counter ahead of the expected one is a lost SEI");
  if (lost && IN.counter < IN.latest_gop) VF_CHECK(sv.gop_state.has_lost_sei, "also across the wraparound");
  if (ahead == 0 || !IN.synced) VF_CHECK(!sv.gop_state.has_lost_sei, "the expected counter, or a session that is not in sync, is no lost SEI");
  if (lag && IN.counter <= IN.latest_gop && IN.latest_gop != UINT32_MAX) VF_CHECK(!sv.gop_state.has_lost_sei, "a counter that lags behind is no lost SEI");
  VF_CHECK(sv.gop_state.gop_transition_is_lost == (IN.noend && sv.gop_state.has_lost_sei), "the transition between GOPs is lost too if there was no new GOP before the SEI");
  VF_CHECK(gi.latest_validated_gop == IN.latest_gop && gi.global_gop_counter == IN.counter && gi.global_gop_counter_is_synced == IN.synced, "only the state of the GOP changes");
  VF_REACH(lost && IN.counter < IN.latest_gop, "wraparound");
  VF_REACH(lost && IN.counter > IN.latest_gop, "lost");
  VF_REACH(lag, "lag");
}

/* ---- C08: comparing hashes ---- */
void
h_compare(void)
{
  VF_INPUT();
  session();
  VF_CHECK(verify_gop_hash(&sv) == eq(IN.cgop, IN.rgop), "the GOP hash is verified if and only if every byte is equal");
  VF_CHECK(verify_linked_hash(&sv) == (zero(IN.link) || eq(IN.link, IN.rlink)), "the link is verified if and only if every byte is equal, or there is no previous GOP");
  VF_REACH(eq(IN.cgop, IN.rgop), "equal");
  VF_REACH(!zero(IN.link) && !eq(IN.link, IN.rlink), "different");
}

/* ---- C08: the computed GOP hash covers exactly the NALUs of the GOP ---- */
void
h_gop_hash(void)
{
  VF_INPUT();
  build(K);
  session();
  const int s = sei_pos(K);
  VF_ASSUME(s >= 0);
  const int n = gop_of(K, s);
  svrc_t rc = prepare_for_link_and_gop_hash_verification(&sv, it[s]);
#ifdef GC_FAIL
  VF_CHECK(rc == SV_OK || rc == SV_EXTERNAL_ERROR, "a failing hash operation is returned");
  if (rc != SV_OK) VF_CHECK(!eq(gi.computed_gop_hash, IN.rgop) || eq(IN.cgop, IN.rgop), "no GOP hash is made up");
#else
  VF_CHECK(rc == SV_OK, "the GOP hash can be computed");
#endif
  if (rc == SV_OK) {
    VF_CHECK(gc_num == 1 && gc_dg[0].primary && gc_eq(gi.computed_gop_hash, 0), "the GOP hash is the digest");
    VF_CHECK(gc_dg[0].in.n == (size_t)n * GC_HS, "of one hash per NALU of the GOP");
    int c = 0;
    for (int i = 0; i < K; i++) {
      if (!in_gop[i]) continue;
      for (int j = 0; j < GC_HS; j++) VF_CHECK(gc_dg[0].in.s[c * GC_HS + j] == hash_of(i)[j], "in order");
      c++;
    }
  }
  for (int i = 0; i < K; i++) VF_CHECK(it[i]->used_in_gop_hash == (rc == SV_OK && in_gop[i]) && it[i]->validation_status == st0[i], "exactly the NALUs of the GOP are marked as covered");
#ifdef GC_FAIL
  VF_REACH(rc != SV_OK, "failed");
#else
  VF_REACH(n > 1, "several NALUs");
  VF_REACH(n == 0, "no NALUs");
#endif
}

/* ---- C24: the link to the next GOP ---- */
void
h_update_link(void)
{
  VF_INPUT();
  build(K);
  session();
  int f = -1;
  for (int i = 0; i < K; i++) {
    it[i]->used_in_gop_hash = st0[i] != 'M' && (IN.bits[i] & 1);
    if (f < 0 && it[i]->used_in_gop_hash && kind(i) == KI) f = i;
  }
  const bool was = f >= 0 && LK(f);
  update_link_hash_for_auth(&sv);
  if (f >= 0 && !was) {
    VF_CHECK(nlinked == 1, "the link is updated once");
    for (int i = 0; i < K; i++)
      if (i == f) VF_CHECK(eq(linked_arg, IN.second[i]) && it[i]->used_for_linked_hash, "the link is the hash of the first NALU of the GOP");
  } else {
    VF_CHECK(nlinked == 0, "no link without the first NALU of a GOP, or a second time");
  }
  for (int i = 0; i < K; i++)
    if (i != f && st0[i] != 'M' && kind(i) == KI) VF_CHECK(it[i]->used_for_linked_hash == LK(i), "other NALUs are untouched");
  VF_REACH(nlinked == 1, "updated");
  VF_REACH(was, "already used");
}

/* ---- C09: verification against a hash list ---- */
void
h_hash_list(void)
{
  VF_INPUT();
  build(K);
  session();
  const int s = sei_pos(K);
  VF_ASSUME(s >= 0 && IN.list_n >= 1);
  const int n = gop_of(K, s);
  for (int i = 0; i < K; i++) it[i]->used_in_gop_hash = in_gop[i];
  /* the first NALU of the GOP under validation has been used for the link, others have not */
  for (int i = 0; i < K; i++)
    if (in_gop[i] && kind(i) == KI) it[i]->used_for_linked_hash = true;
  gi.verified_signature_hash = 1;
  int exp = -7, rec = -7;
  bool ok = verify_hashes_with_hash_list(&sv, &exp, &rec, IN.order);
  VF_CHECK(ok, "verified");
  VF_CHECK(exp == IN.list_n && rec == n, "expected and received numbers");
  /* specification: match in order */
  char e[KM];
  int before[KM] = {0};
  int last = -1, inv = 0, lastused = -1, total = 0;
  bool order = IN.order, lastmatch = false;
  for (int i = 0; i < K; i++) {
    e[i] = st0[i];
    if (!in_gop[i]) continue;
    lastused = i;
    int m = -1;
    for (int j = 0; j < NH; j++)
      if (j > last && j < IN.list_n && m < 0 && eq(hash_of(i), IN.listh[j])) m = j;
    if (m >= 0) {
      e[i] = order ? '.' : 'N';
      order = true;
      int miss = m - last - 1 - inv;
      before[i] = miss > 0 ? miss : 0;
      total += before[i];
      last = m;
      inv = 0;
      lastmatch = true;
    } else {
      e[i] = 'N';
      inv++;
      lastmatch = false;
    }
  }
  int rest = 0;
  if (last < 0) {
    rest = IN.list_n - inv;
    if (rest < 0) rest = 0;
  } else if (lastmatch) {
    rest = IN.list_n - 1 - last;
  }
  total += rest;
  for (int i = 0; i < K; i++) {
    const char c = it[i]->validation_status;
    if (in_gop[i]) {
      bool listed = false;
      for (int j = 0; j < NH; j++) listed |= j < IN.list_n && eq(hash_of(i), IN.listh[j]);
      VF_CHECK(c != '.' || listed, "only a NALU in the hash list is authentic");
      VF_CHECK(c == e[i], "a NALU is authentic if and only if it is in the list after the previous match, and the order of GOPs is right");
    } else if (i == s) {
      VF_CHECK(c == '.', "the SEI was verified");
    } else {
      VF_CHECK(c == st0[i], "NALUs of other GOPs are untouched");
    }
  }
  /* missing NALUs */
  int missing = 0;
  for (int q = 0; q < 8; q++) {
    if (q >= gm_n) break;
    missing += gm[q].num;
    for (int i = 0; i < K; i++)
      if (in_gop[i] && gm[q].item == it[i] && !gm[q].append && last >= 0) VF_CHECK(gm[q].num == before[i], "missing NALUs are where they are missing");
    if (gm[q].append && last >= 0) VF_CHECK(lastused >= 0 && gm[q].item == it[lastused < 0 ? 0 : lastused] && gm[q].num == rest, "or after the last NALU of the GOP");
  }
  VF_CHECK(missing == total, "the number of missing NALUs");
  VF_REACH(missing > 0 && last >= 0, "some missing");
  VF_REACH(n > 0 && missing == 0 && last == IN.list_n - 1 && IN.order, "all there");
  VF_REACH(n > 0 && !IN.order, "wrong order");
}

/* ---- C08: the verdict on the oldest GOP ---- */
static int
one_gop(void)
{
  VF_ASSUME(has_pending_gop(&sv));
  return 0;
}
void
h_verdict(void)
{
  VF_INPUT();
  build(K);
  VF_ASSUME(IN.sent >= 1 && IN.sent <= 4);
  VF_ASSUME(!(IN.first && IN.synced));
#ifdef NOLIST
  VF_ASSUME(IN.list_n == 0);
#endif
#ifdef SIG
  VF_ASSUME(IN.sig == SIG);
#endif
  session();
  gi.list_idx = 0;
  sv.validation_flags.signing_present = true;
  sv.validation_flags.has_auth_result = false;
  latest.authenticity = SV_AUTH_RESULT_SIGNATURE_PRESENT;
  latest.number_of_expected_picture_nalus = 0;
  latest.number_of_received_picture_nalus = 0;
  gi.num_sent_nalus = 0;
  const int s = sei_pos(K);
  VF_ASSUME(s >= 0);
  const int n = gop_of(K, s);
  /* what the list looks like between validations */
  for (int i = 0; i < K; i++)
    if (st0[i] == 'P' && !in_gop[i]) VF_ASSUME(!LK(i));
  one_gop();
  VF_ASSUME(prepare_for_validation(&sv) == SV_OK);
  /* C08, C18: it is the signature of this SEI that was verified, with a key, after decoding it once */
  VF_CHECK(ndecode == 1 && nverify == 1 && verify_saw_key, "one signature is verified, with a key");
  for (int i = 0; i < K; i++)
    if (i == s) VF_CHECK(eq(verified_what, IN.hash[i]) && decoded_at == na[i]->tlv_data && decoded_size == na[i]->tlv_size && it[i]->has_been_decoded, "the signature covers the hash of the SEI under validation");
  update_link_hash_for_auth(&sv);
  const bool lost = sv.gop_state.has_lost_sei && !sv.gop_state.gop_transition_is_lost;
  const bool gop_ok = gc_eq(IN.rgop, 0);
  const bool order_ok = zero(gi.linked_hashes) || eq(gi.linked_hashes, IN.rlink);
  const bool keychg = latest.public_key_has_changed;
  VF_CHECK(keychg == IN.d_keychg, "a change of key concerns this SEI");
  bool was_linked[KM];
  for (int i = 0; i < K; i++) was_linked[i] = it[i]->used_for_linked_hash;
  validate_authenticity(&sv);
  const int v = latest.authenticity;
  VF_CHECK(v >= SV_AUTH_RESULT_SIGNATURE_PRESENT && v <= SV_AUTH_RESULT_OK, "a verdict");
  char sei_st = 0;
  for (int i = 0; i < K; i++)
    if (i == s) sei_st = it[i]->validation_status;
  const bool good = v == SV_AUTH_RESULT_OK || v == SV_AUTH_RESULT_OK_WITH_MISSING_INFO;
  /* soundness */
  bool allok = true, sub = true;
  int last = -1;
  for (int i = 0; i < K; i++) {
    if (!in_gop[i]) continue;
    if (it[i]->validation_status != '.') allok = false;
    int m = -1;
    for (int j = 0; j < NH; j++)
      if (j > last && j < IN.list_n && m < 0 && eq(hash_of(i), IN.listh[j])) m = j;
    if (m < 0) sub = false;
    else last = m;
  }
  const bool by_hash = gop_ok && order_ok;
  const bool by_list = IN.list_n > 0 && sub && order_ok;
  if (good) {
    VF_CHECK(IN.sig == 1, "only with a verified signature");
    VF_CHECK(!keychg, "not when the public key has changed");
    VF_CHECK(!lost, "not when the SEI of the GOP was lost");
    const bool empty = n == 0 && IN.list_n == 1 && v == SV_AUTH_RESULT_OK_WITH_MISSING_INFO;
    VF_CHECK(by_hash || by_list || empty, "only if the GOP hash or the hash list, and the order of GOPs, is right");
    VF_CHECK(allok, "only if every NALU of the GOP is marked authentic");
    if (IN.first) VF_CHECK(n > 0 && v == SV_AUTH_RESULT_OK, "the first validation of a session needs authentic NALUs");
    if (!by_hash) VF_CHECK(n > 0 || empty, "not if nothing of the GOP was received");
    if (v == SV_AUTH_RESULT_OK && !by_hash) VF_CHECK(n == IN.list_n, "OK only if nothing in the hash list is missing");
  }
  for (int i = 0; i < K; i++) {
    const char c = it[i]->validation_status;
    if (st0[i] == 'P' && c == '.') VF_CHECK((in_gop[i] || i == s) && IN.sig == 1 && !lost, "a NALU becomes authentic only with the verified signature of its GOP");
    if (st0[i] == 'P' && c == '.' && i != s) VF_CHECK(by_hash || (IN.list_n > 0), "and the right hash");
    if (st0[i] != 'P' && !IN.first) VF_CHECK(c == st0[i], "validated NALUs keep their status");
    VF_CHECK(!it[i]->used_in_gop_hash, "marks are removed");
  }
  /* completeness: an unmodified GOP is OK */
  if (IN.sig == 1 && by_hash && !lost && !keychg && n > 0 && n == IN.sent) VF_CHECK(v == SV_AUTH_RESULT_OK && allok && sei_st == '.', "an unmodified GOP is OK");
  if (!IN.first && !good) VF_CHECK(v == SV_AUTH_RESULT_NOT_OK, "otherwise it is not OK");
  if (IN.first && !keychg && !good) VF_CHECK(v == SV_AUTH_RESULT_SIGNATURE_PRESENT, "or a signature is present, when it is the first");
  if (keychg) VF_CHECK(v == SV_AUTH_RESULT_NOT_OK, "a changed public key is not OK");
  /* C13: progress */
  if (!IN.first) {
    int pend = 0, pend0 = 0;
    for (int i = 0; i < K; i++) {
      pend0 += st0[i] == 'P';
      pend += it[i]->validation_status == 'P';
    }
    VF_CHECK(pend < pend0, "at least one pending NALU is done");
  }
  VF_CHECK(!lost || sei_st == 'P', "a SEI that belongs to a later GOP is kept");
#ifdef RLOST
  VF_REACH(lost, "lost SEI");
#endif
#ifdef ROK
  VF_REACH(v == SV_AUTH_RESULT_OK && !IN.first && n > 0, "OK");
#endif
#ifdef RMISS
  VF_REACH(v == SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "OK with missing info");
#endif
  VF_REACH(v == SV_AUTH_RESULT_NOT_OK, "not OK");
}

/* ---- C13: when validation takes place ---- */
void
h_pending(void)
{
  VF_INPUT();
  build(K);
  session();
  sv.gop_state.gop_transition_is_lost = IN.transition;
  sv.gop_state.has_lost_sei = IN.lost;
  bool r = has_pending_gop(&sv);
  int ends = 0, firstsei = -1, lastp = -1, found = -1;
  bool after = false;
  for (int i = 0; i < K; i++) {
    if (found >= 0 || st0[i] != 'P' || kind(i) == KX) continue;
    if (lastp >= 0 && kind(lastp) == KS) after = true;
    ends += kind(i) == KI;
    if (kind(i) == KS && firstsei < 0) firstsei = i;
    lastp = i;
    if (IN.signing ? (ends > 0 && firstsei >= 0) : ends >= 2) found = i;
    if (after) found = i;
  }
  VF_CHECK(r == (found >= 0), "validation takes place when a GOP with its SEI is complete, or the SEI is followed by another NALU");
  VF_CHECK(sv.gop_state.no_gop_end_before_sei == (after && ends < 2), "whether a new GOP started before the SEI");
  VF_CHECK(!sv.gop_state.has_lost_sei && !sv.gop_state.gop_transition_is_lost, "the state of the previous GOP is forgotten");
  VF_CHECK(sv.gop_state.validate_after_next_nalu == (!r && lastp >= 0 && kind(lastp) == KS), "a SEI without a complete GOP waits for one more NALU");
  VF_CHECK(!r || !IN.signing || sei_pos(K) >= 0, "a signed GOP is validated only with a SEI");
  VF_REACH(r && IN.signing, "signed");
  VF_REACH(r && !IN.signing, "unsigned");
  VF_REACH(!r, "nothing to do");
}

/* ---- C13, C10: the rounds of validation ---- */
static int rnd, r_prep, r_val, r_bad, r_linkupd;
static int r_rc[KM + 1], r_auth[KM + 1];
static bool r_sig_clean = true, r_init_ok = true, r_seq = true;
static int
pending_now(void)
{
  int n = 0;
  for (int i = 0; i < K; i++) n += it[i]->validation_status == 'P';
  return n;
}
/* see h_pending: with something pending this may be either */
bool
vf_has_pending_gop(signed_video_t *self)
{
  VF_CHECK(self == &sv, "session");
  if (rnd > 0 && gi.verified_signature_hash != -1) r_sig_clean = false;
  if (pending_now() == 0 || rnd > KM) return false;
  return (IN.bits[rnd < KM ? rnd : KM - 1] & 1) != 0;
}
svrc_t
vf_prepare_for_validation(signed_video_t *self)
{
  VF_CHECK(self == &sv, "session");
  if (rnd == 0 && !IN.auth_result && (latest.authenticity != SV_AUTH_RESULT_SIGNATURE_PRESENT || latest.number_of_expected_picture_nalus != 0 || latest.number_of_received_picture_nalus != 0)) r_init_ok = false;
  if (rnd > 0 && latest.authenticity != r_auth[rnd - 1]) r_init_ok = false;
  if (r_prep != r_val + r_bad) r_seq = false;
  if (IN.bits[rnd < KM ? rnd : KM - 1] & 2) {
    r_bad++;
    r_prep++;
    return SV_NOT_SUPPORTED;
  }
  gi.verified_signature_hash = IN.sig;
  r_prep++;
  return SV_OK;
}
void
vf_update_link_hash_for_auth(signed_video_t *self)
{
  VF_CHECK(self == &sv, "session");
  r_linkupd++;
}
/* see h_verdict: at least one NALU is done, and the result never gets better */
void
vf_validate_authenticity(signed_video_t *self)
{
  VF_CHECK(self == &sv, "session");
  if (r_prep != r_val + 1 || r_bad || gi.verified_signature_hash != IN.sig || r_linkupd != r_val + 1) r_seq = false;
  bool done = false;
  for (int i = 0; i < K; i++)
    if (!done && it[i]->validation_status == 'P') {
      it[i]->validation_status = '.';
      done = true;
    }
  latest.authenticity = 2 + ((IN.bits[rnd < KM ? rnd : KM - 1] >> 2) & 1);
  r_auth[rnd < KM ? rnd : KM] = latest.authenticity;
  r_val++;
  rnd++;
}
bool
vf_is_recurrent_data_decoded(signed_video_t *self)
{
  VF_CHECK(self == &sv, "session");
  return IN.decoded;
}
void
h_rounds(void)
{
  VF_INPUT();
  build(K);
  session();
  if (IN.golden && na[K - 1]) na[K - 1]->is_golden_sei = kind(K - 1) == KS;
  const bool golden = IN.golden && kind(K - 1) == KS;
  gi.verified_signature_hash = IN.sig;
  h26x_nalu_t *lastn = na[K - 1];
  VF_ASSUME(st0[K - 1] == 'P' || st0[K - 1] == '_' || st0[K - 1] == 'U');
  const int auth0 = latest.authenticity;
  const int pend0 = pending_now();
  latest.number_of_pending_picture_nalus = IN.pend0;
  svrc_t rc = maybe_validate_gop(&sv, lastn);
  const bool feasible = IN.decoded && st0[K - 1] == 'P' && (kind(K - 1) == KS || kind(K - 1) == KI) && !golden;
  const int pend = pending_now();
  VF_CHECK(r_seq, "each GOP is validated after it was prepared");
  if (!feasible) {
    VF_CHECK(rc == SV_OK && r_prep == 0 && r_val == 0, "only a SEI or the start of a GOP triggers validation, when it is possible");
    VF_CHECK(sv.validation_flags.has_auth_result == (IN.auth_result || IN.first_sei), "no result but that a signature is present");
    if (IN.first_sei && !golden) VF_CHECK(latest.authenticity == SV_AUTH_RESULT_SIGNATURE_PRESENT && !latest.public_key_has_changed && pend == pend0, "signature present");
    if (IN.first_sei && golden) {
      VF_CHECK(latest.authenticity == (IN.sig == 1 ? SV_AUTH_RESULT_SIGNATURE_PRESENT : SV_AUTH_RESULT_NOT_OK), "a golden SEI tells at most that a signature is present");
      VF_CHECK(it[K - 1]->validation_status == (IN.sig == 1 ? '.' : IN.sig == 0 ? 'N' : 'E'), "and is authentic only if its signature is verified");
      VF_CHECK(IN.sig == 1 ? sv.has_public_key == IN.has_key : !sv.has_public_key, "its public key is not used otherwise");
    }
    if (IN.first_sei) VF_CHECK((int)latest.number_of_pending_picture_nalus == pend, "number of pending NALUs");
    if (!IN.first_sei) VF_CHECK(latest.authenticity == auth0 && pend == pend0, "otherwise nothing happens");
  } else {
    VF_CHECK((rc == SV_OK) == (r_bad == 0), "the error of a GOP that cannot be validated is returned");
    VF_CHECK(r_init_ok, "results of several GOPs are merged");
    VF_CHECK(r_sig_clean && (r_prep == 0 || r_bad || gi.verified_signature_hash == -1), "a signature is used for one GOP only");
    const int done = IN.signing ? r_val : r_prep - r_bad;
    VF_CHECK(sv.validation_flags.has_auth_result == (IN.auth_result || done > 0), "a result if and only if something was validated");
    if (!IN.signing) {
      VF_CHECK(r_val == 0 && r_prep <= 1 && pend == pend0, "nothing is validated in an unsigned stream");
      if (done > 0) VF_CHECK(latest.authenticity == SV_AUTH_RESULT_NOT_SIGNED && sv.validation_flags.is_first_validation, "which is reported as not signed");
    } else if (done > 0) {
      VF_CHECK(!sv.validation_flags.is_first_validation, "the first validation is done");
      VF_CHECK(latest.authenticity == r_auth[done - 1], "the result is that of the validation");
    }
    if (done > 0) VF_CHECK((int)latest.number_of_pending_picture_nalus == pend, "the number of pending NALUs");
    VF_CHECK(pend + r_val == pend0 && r_val <= pend0, "never more rounds than pending NALUs");
  }
#ifdef RV
  VF_REACH(r_val == pend0 && rc == SV_OK, "all validated");
  VF_REACH(r_val > 0 && rc != SV_OK, "error after a validation");
#endif
  VF_REACH(rc == SV_OK, "end");
}

/* ---- C08, C18: what is known before validation can start ---- */
void
h_recurrent(void)
{
  VF_INPUT();
  build(K);
  session();
  bool r = is_recurrent_data_decoded(&sv);
  bool any = false;
  for (int i = 0; i < K; i++) any |= st0[i] == 'P' && kind(i) == KS;
  const bool need = !IN.has_key && IN.signing;
  VF_CHECK(r == (!need || (any && IN.opt)), "validation waits for the public key of a signed stream");
  VF_CHECK(nopt == 0 || need, "the data of a pending SEI is decoded only if it is needed");
  VF_REACH(need && r, "decoded");
  VF_REACH(!r, "not decoded");
}

/* ---- C08, C18, C19: preparation, with or without a SEI ---- */
static char m_axis[] = "Axis Communications AB", m_other[] = "Axis Communications AC";
void
h_prepare(void)
{
  VF_INPUT();
  build(K);
  session();
  sv.gop_state.has_sei = IN.gop_sei;
  const int s = sei_pos(K);
  for (int i = 0; i < K; i++) it[i]->has_been_decoded = i == s && IN.decoded;
  for (int j = 0; j < GC_HS; j++) vd_hash[j] = IN.cgop[j];
  VF_ASSUME(IN.sn[3] == 0);
  for (int j = 0; j < 4; j++) sn1[j] = IN.sn[j];
  prod.manufacturer = IN.manuf == 0 ? NULL : IN.manuf == 1 ? m_axis : m_other;
  prod.serial_number = sn1;
  supp.public_key_validation = IN.vendor_val;
  for (int j = 0; j < 4; j++) supp.serial_number[j] = IN.nulls ? IN.sn[j] : (char)IN.data[j];
  supp.serial_number[3] = 0;
  VF_ASSUME(IN.pubkey_val >= 0 && IN.pubkey_val <= 2);
  latest.public_key_validation = IN.pubkey_val;
  const bool dec = s >= 0 && !IN.decoded;
  if (dec) gi.list_idx = GC_HS;  // of the SEI before
  svrc_t rc = prepare_for_validation(&sv);
  if (dec && rc == SV_OK) VF_CHECK(IN.list_n > 0 ? gi.list_idx == IN.list_n * GC_HS : gi.list_idx <= 0, "the hash list is that of this SEI");
  const bool key = IN.has_key || (dec && !IN.rc_decode && IN.got_key);
  VF_CHECK(ndecode == dec, "a SEI is decoded once");
  if (rc == SV_OK) {
    VF_CHECK(!(dec && IN.rc_decode), "decoding succeeded");
    VF_CHECK(!IN.signing || key, "there is a public key");
    VF_CHECK(nverify == IN.gop_sei && !(IN.gop_sei && IN.rc_verify), "the signature is verified if there is one");
    if (dec && IN.gop_sei)
      for (int i = 0; i < K; i++)
        if (i == s) VF_CHECK(eq(verified_what, IN.hash[i]), "the signature of the SEI");
    if (IN.gop_sei) VF_CHECK(gi.verified_signature_hash == IN.sig, "the result of the verification");
  }
  if (dec) VF_CHECK(latest.public_key_has_changed == ((IN.auth_result && IN.keychg) || (!IN.rc_decode && IN.d_keychg)), "a change of key is that of this SEI, or of one not yet reported");
  else VF_CHECK(latest.public_key_has_changed == IN.keychg, "a change of key is kept");
  if (rc != SV_OK) {
    VF_CHECK((dec && IN.rc_decode) || (IN.signing && !key) || (IN.manuf == 1 && IN.rc_vendor) || (IN.gop_sei && IN.rc_verify), "errors have a reason");
    VF_CHECK(gi.verified_signature_hash != 1, "no verified signature");
  }
  if (IN.signing && !key) VF_CHECK(nverify == 0 && rc != SV_OK, "nothing is verified without a public key");
  bool same = true, z = false;
  for (int j = 0; j < 4; j++) {
    if (!z && sn1[j] != supp.serial_number[j]) same = false;
    if (!sn1[j]) z = true;
  }
  if (IN.manuf == 1 && rc == SV_OK) {
    VF_CHECK(latest.public_key_validation == (!same ? SV_PUBKEY_VALIDATION_NOT_OK : IN.vendor_val == 1 ? SV_PUBKEY_VALIDATION_OK : IN.vendor_val == 0 ? SV_PUBKEY_VALIDATION_NOT_OK : SV_PUBKEY_VALIDATION_NOT_FEASIBLE), "public key validation is that of the vendor, for this serial number");
    VF_REACH(latest.public_key_validation == SV_PUBKEY_VALIDATION_OK, "key OK");
    VF_REACH(!same, "serial number differs");
  }
  if (IN.manuf != 1) VF_CHECK(latest.public_key_validation == IN.pubkey_val, "other vendors do not matter");
  VF_REACH(rc == SV_OK && nverify, "verified");
}

/* ---- C12, C17, C07: adding a NALU ---- */
static int n_maybe, n_golden;
static bool maybe_saw_result, maybe_in_list;
svrc_t
vf_maybe_validate_gop(signed_video_t *self, h26x_nalu_t *nalu)
{
  VF_CHECK(self == &sv && nalu, "session");
  n_maybe++;
  maybe_saw_result = sv.validation_flags.has_auth_result;
  maybe_in_list = L->last_item && L->last_item->nalu == nalu && L->last_item->prev == it[K - 1];
  if (IN.rc_key) return SV_AUTHENTICATION_ERROR;
  sv.validation_flags.has_auth_result = IN.want && !sv.legacy_sv;
  return SV_OK;
}
svrc_t
vf_prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
{
  VF_CHECK(self == &sv && sei == L->last_item, "session");
  n_golden++;
  return IN.rc_decode ? SV_AUTHENTICATION_ERROR : SV_OK;
}
void
h_add(void)
{
  VF_INPUT();
  build(K);
  session();
  sv.validation_flags.hash_algo_known = IN.algo;
  sv.has_public_key = IN.has_key;
  acc.number_of_received_nalus = 5;
  parsed.is_valid = NVALID;
  parsed.is_hashable = NVALID > 0 && NKIND != KX;
  parsed.is_first_nalu_in_gop = NKIND == KI;
  parsed.is_gop_sei = NKIND == KS || NKIND == KG;
  parsed.is_golden_sei = NKIND == KG;
  parsed.reserved_byte = IN.reserved;
  static uint8_t data[6];
  for (int j = 0; j < 6; j++) data[j] = IN.data[j];
  signed_video_authenticity_t *out = &report;
  const bool sign = IN.signing || parsed.is_gop_sei;
  svrc_t rc = signed_video_add_nalu_and_authenticate(&sv, data, 6, IN.nulls ? NULL : &out);
  VF_CHECK(sv.authentication_started, "validation has started");
  if (IN.rc_report) {
    VF_CHECK(rc != SV_OK && L->num_items == K, "without memory for the report nothing is added");
    VF_CHECK(IN.nulls || !out, "no report");
    return;
  }
  /* the NALU is in the list, once and last */
  VF_CHECK(L->num_items == K + 1 && L->last_item && L->last_item->prev == it[K - 1] && !L->last_item->next && it[K - 1]->next == L->last_item, "the NALU is the last of the list");
  VF_CHECK(parse_data == data && parse_size == 6, "all of the NALU is parsed");
  const bool newalgo = NVALID >= 0 && !IN.algo && sign && (IN.has_key || !IN.rc_hash) && sv.validation_flags.hash_algo_known;
  const bool legacy = sv.legacy_sv != NULL;
  VF_CHECK(acc.number_of_received_nalus == 6, "the NALU is counted");
  if (n_maybe) VF_CHECK(n_maybe == 1 && !maybe_saw_result && maybe_in_list, "validation takes place once, with the NALU in the list");
  if (rc == SV_OK) {
    VF_CHECK(NVALID >= 0 && n_maybe == 1, "validation takes place");
    VF_CHECK(!IN.rc_hash || nhash == 0, "everything was hashed");
    if (NVALID > 0) VF_CHECK(nhash > 0 && hashed[0] == L->last_item, "the NALU is hashed");
    if (newalgo && !legacy) {
      for (int i = 0; i < K; i++) {
        int h = 0;
        for (int q = 0; q < KM + 2; q++) h += q < nhash && hashed[q] == it[i];
        VF_CHECK(h == (na[i]->is_valid > 0 ? 1 : 0), "NALUs kept are hashed when the algorithm is known");
      }
    }
    VF_CHECK(nreport == (sv.validation_flags.has_auth_result ? 1 : 0), "the report is updated if and only if there is a result");
    if (!IN.nulls) VF_CHECK(out == (nreport ? &report : NULL), "a report is handed out if and only if there is a result");
    if (nreport && !IN.nulls) VF_CHECK(at_get > at_report, "after it was updated");
    VF_CHECK(L->last_item->validation_status != 'E', "no error");
  } else {
    VF_CHECK((sv.validation_flags.has_auth_result && !IN.rc_legacy) ? false : true, "no result on failure");
    if (!IN.rc_legacy || !legacy) VF_CHECK(L->last_item->validation_status == 'E' && nreport == 0 && (IN.nulls || !out), "a NALU that cannot be handled is marked, and nothing is reported");
  }
  if (legacy) VF_CHECK(newalgo && !(IN.reserved & 0x30) && NKIND != KG && nacc_init == 1, "old streams are recognised from the SEI");
  if (newalgo && !(IN.reserved & 0x30) && NKIND != KG && n_maybe) VF_CHECK(legacy, "and always");
  if (n_golden) VF_CHECK(NKIND == KG && newalgo, "golden SEI");
  if (newalgo && NKIND == KG && n_maybe) VF_CHECK(n_golden == 1, "a golden SEI is handled when it comes first");
#if NVALID >= 0
  VF_REACH(rc == SV_OK && nreport, "report");
#endif
  VF_REACH(rc != SV_OK, "failure");
}

void
h_add_params(void)
{
  VF_INPUT();
  build(1);
  session();
  static uint8_t data[4];
  signed_video_authenticity_t *out = &report;
  svrc_t a = signed_video_add_nalu_and_authenticate(NULL, data, 4, &out);
  svrc_t b = signed_video_add_nalu_and_authenticate(&sv, NULL, 4, &out);
  svrc_t c = signed_video_add_nalu_and_authenticate(&sv, data, 0, &out);
  VF_CHECK(a == SV_INVALID_PARAMETER && b == SV_INVALID_PARAMETER && c == SV_INVALID_PARAMETER, "invalid parameters are refused");
  VF_CHECK(!sv.authentication_started && L->num_items == 1 && seq == 0, "without any effect");
  VF_REACH(true, "end");
}

/* ---- C17, C18: the public key of the user ---- */
void
h_set_key(void)
{
  VF_INPUT();
  session();
  static char key[6], old[2];
  for (int j = 0; j < 6; j++) key[j] = (char)IN.data[j];
  sv.authentication_started = IN.started;
  sv.has_public_key = false;
  sv.pem_public_key.key = IN.has_pem ? old : NULL;
  sv.pem_public_key.key_size = IN.has_pem ? 2 : 0;
  svrc_t rc = signed_video_set_public_key(IN.legacy ? NULL : &sv, IN.nulls ? NULL : key, IN.opt ? 0 : 6);
  const bool bad = IN.legacy || IN.nulls || IN.opt;
  if (bad) VF_CHECK(rc == SV_INVALID_PARAMETER, "invalid parameters are refused");
  else if (IN.has_pem || IN.started) VF_CHECK(rc == SV_NOT_SUPPORTED, "a key can be set once and before validation has started");
  else VF_CHECK((rc == SV_OK) == !IN.rc_key, "a key that cannot be used is refused");
  if (bad || IN.has_pem || IN.started) {
    VF_CHECK(!sv.has_public_key && sv.pem_public_key.key == (IN.has_pem ? old : NULL) && sv.pem_public_key.key_size == (IN.has_pem ? 2u : 0u) && npub == 0, "a refused key changes nothing");
  } else {
    VF_CHECK(sv.has_public_key == (rc == SV_OK), "a key that was set is used");
    if (rc == SV_OK) {
      VF_CHECK(sv.pem_public_key.key_size == 6 && (char *)sv.pem_public_key.key != key, "the key is copied");
      for (int j = 0; j < 6; j++) VF_CHECK(((char *)sv.pem_public_key.key)[j] == key[j], "completely");
    }
  }
  VF_REACH(rc == SV_OK, "set");
  VF_REACH(rc == SV_NOT_SUPPORTED, "refused");
}

/* ---- C06, C07: the part of a SEI that is hashed ---- */
void
h_hashable(void)
{
  VF_INPUT();
  h26x_nalu_t n = {0};
  static uint8_t d[8];
  n.is_valid = 1;
  n.is_hashable = IN.hashable;
  n.is_gop_sei = IN.gop_sei;
  n.with_epb = IN.epb;
  n.hashable_data = d;
  n.hashable_data_size = 8;
  n.tlv_start_in_nalu_data = d + 3;
  n.tlv_size = 4;
  update_hashable_data(&n);
  const bool s = IN.hashable && IN.gop_sei;
  VF_CHECK(n.hashable_data == d, "hashing starts at the same byte");
  VF_CHECK(n.hashable_data_size == (s && IN.find ? 5u : 8u), "everything up to the signature of a SEI is hashed, and all of other NALUs");
  if (s) VF_CHECK(find_data == d + 3 && find_size == 4 && find_epb == IN.epb && find_tag == SIGNATURE_TAG, "the signature is searched for in the TLV data of the SEI");
  VF_REACH(n.hashable_data_size == 5, "SEI");
}
