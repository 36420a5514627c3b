/* Contracts on signed_video_authenticity.c: the authenticity report. */
#include "vf.h"
#include "signed_video_internal.h"
#include "signed_video_h26x_internal.h"
#include "signed_video_authenticity.h"
#include "signed_video_h26x_nalu_list.h"
#include "includes/signed_video_common.h"

#ifndef LA
#define LA 2
#endif
#ifndef LB
#define LB 3
#endif
#ifndef DSTLEN
#define DSTLEN -1
#endif

struct vf_in {
  uint8_t str[8][8];
  int latest_auth, acc_auth, latest_pub, acc_pub;
  int64_t ts, first_ts, last_ts;
  unsigned int received, validated, pending, removed, items;
  int exp, rec, pend;
  int cmp;
  uint8_t mask;
  bool lchg : 1, achg : 1, lts : 1, ats : 1, legacy : 1, nostr : 1;
} IN;

/* ---- contracts of the callees ---- */
static signed_video_t sv;
static h26x_nalu_list_t nlist;
static signed_video_product_info_t prod;
static int calls_clean, calls_str, calls_cmp, order;
static bool cmp_args_ok;
static char *made[2];
char *
h26x_nalu_list_get_str(const h26x_nalu_list_t *list, NaluListStringType t)
{
  VF_CHECK(list == &nlist && calls_clean == 0, "strings are taken before validated NALUs are removed");
  char *s = malloc(3);
  VF_ASSUME(s);
  s[0] = t == NALU_STR ? 'I' : '.';
  s[1] = t == NALU_STR ? 'P' : 'N';
  s[2] = 0;
  made[t == NALU_STR] = s;
  calls_str++;
  return s;
}
unsigned int
h26x_nalu_list_clean_up(h26x_nalu_list_t *list)
{
  calls_clean += list == &nlist;
  return IN.removed;
}
int
legacy_get_nalu_list_items(legacy_sv_t *l)
{
  (void)l;
  return (int)(IN.items & 0xffff) + 1;
}
static bool
eqs(const char *a, const char *b)
{
  int i = 0;
  for (; i < 14 && a[i] && a[i] == b[i]; i++)
    ;
  return a[i] == b[i];
}
static char signing_version[SV_VERSION_MAX_STRLEN];
/* contract: see common.c, h_versions */
int
signed_video_compare_versions(const char *a, const char *b)
{
  calls_cmp++;
  cmp_args_ok = a && b && eqs(a, SIGNED_VIDEO_VERSION) && eqs(b, signing_version);
  return IN.cmp;
}
void
product_info_free_members(signed_video_product_info_t *p)
{
  if (!p) return;
  free(p->hardware_id);
  free(p->firmware_version);
  free(p->serial_number);
  free(p->manufacturer);
  free(p->address);
  p->hardware_id = p->firmware_version = p->serial_number = p->manufacturer = p->address = NULL;
}

/* the NOMEM:th reallocation finds no memory (0: none) */
#ifndef NOMEM
#define NOMEM 0
#endif
static int n_realloc = -100;
static void *
vf_realloc(void *p, size_t z)
{
  if (++n_realloc == NOMEM) return NULL;
  void *r = realloc(p, z);
  VF_ASSUME(r);
  return r;
}
#define realloc vf_realloc
#include "signed_video_authenticity.c"
#undef realloc

/* a string of exactly |n| characters (NULL if negative) in memory of its own */
static char *
mkstr(int k, int n)
{
  if (n < 0) return NULL;
  char *s = malloc((size_t)n + 1);
  VF_ASSUME(s);
  for (int i = 0; i < n; i++) s[i] = IN.str[k][i] ? (char)IN.str[k][i] : 'x';
  s[n] = 0;
  return s;
}
static bool
isstr(const char *s, int k, int n)
{
  if (!s) return false;
  for (int i = 0; i < n; i++)
    if (s[i] != (IN.str[k][i] ? (char)IN.str[k][i] : 'x')) return false;
  return n < 0 ? s[0] == 0 : s[n] == 0;
}
#define VALIDRES(x) ((x) >= SV_AUTH_RESULT_NOT_SIGNED && (x) < SV_AUTH_NUM_SIGNED_GOP_VALID_STATES)
#define VALIDPUB(x) ((x) >= SV_PUBKEY_VALIDATION_NOT_FEASIBLE && (x) < SV_PUBKEY_VALIDATION_NUM_STATES)

/* ---- accumulation: any state, any new result ---- */
static signed_video_latest_validation_t lat;
static signed_video_accumulated_validation_t acc;
static void
fill(signed_video_latest_validation_t *l, signed_video_accumulated_validation_t *a)
{
  VF_ASSUME(VALIDRES(IN.latest_auth) && VALIDRES(IN.acc_auth) && VALIDPUB(IN.latest_pub) && VALIDPUB(IN.acc_pub));
  l->authenticity = IN.latest_auth;
  l->public_key_has_changed = IN.lchg;
  l->public_key_validation = IN.latest_pub;
  l->number_of_expected_picture_nalus = IN.exp;
  l->number_of_received_picture_nalus = IN.rec;
  l->number_of_pending_picture_nalus = IN.pend;
  l->has_timestamp = IN.lts;
  l->timestamp = IN.ts;
  a->authenticity = IN.acc_auth;
  a->public_key_has_changed = IN.achg;
  a->public_key_validation = IN.acc_pub;
  a->number_of_received_nalus = IN.received;
  a->number_of_validated_nalus = IN.validated;
  a->number_of_pending_nalus = IN.pending;
  a->has_timestamp = IN.ats;
  a->first_timestamp = IN.first_ts;
  a->last_timestamp = IN.last_ts;
}
/* severity, as the enum documents it: failed < mismatch < missing < ok; nothing validated yet is neutral */
static int
rank(int r)
{
  switch (r) {
    case SV_AUTH_RESULT_NOT_OK:
      return 1;
    case SV_AUTH_RESULT_VERSION_MISMATCH:
      return 2;
    case SV_AUTH_RESULT_OK_WITH_MISSING_INFO:
      return 3;
    case SV_AUTH_RESULT_OK:
      return 4;
    default:
      return 5;
  }
}
static void
check_accumulated(int latest_auth, const signed_video_accumulated_validation_t *a)
{
  const int r = a->authenticity;
  VF_CHECK(VALIDRES(r), "a result");
  VF_CHECK(rank(r) <= rank(IN.acc_auth), "the accumulated result never gets better than it was");
  VF_CHECK(rank(r) <= rank(latest_auth), "the accumulated result is never better than the latest one");
  VF_CHECK(rank(r) == rank(latest_auth) || rank(r) == rank(IN.acc_auth), "and it is one of the two");
  if (rank(IN.acc_auth) == 5) VF_CHECK(r == latest_auth, "before anything is validated it follows the latest one");
  VF_CHECK(IN.acc_auth != SV_AUTH_RESULT_NOT_OK || r == SV_AUTH_RESULT_NOT_OK, "not OK is never forgotten");
  VF_CHECK(a->public_key_has_changed == (IN.achg || IN.lchg), "a changed key is never forgotten");
  VF_CHECK(a->public_key_validation == (IN.acc_pub == SV_PUBKEY_VALIDATION_NOT_OK ? SV_PUBKEY_VALIDATION_NOT_OK : IN.latest_pub), "a key that failed validation stays failed");
  VF_CHECK(a->has_timestamp == (IN.ats || IN.lts), "timestamp flag");
  VF_CHECK(a->first_timestamp == ((IN.lts && !IN.ats) ? IN.ts : IN.first_ts), "first timestamp is kept");
  VF_CHECK(a->last_timestamp == (IN.lts ? IN.ts : IN.last_ts), "last timestamp follows");
  VF_CHECK(a->number_of_received_nalus == IN.received, "received NALUs untouched");
}
void
h_accumulate(void)
{
  VF_INPUT();
  fill(&lat, &acc);
  update_accumulated_validation(&lat, &acc);
  check_accumulated(IN.latest_auth, &acc);
  VF_CHECK(acc.number_of_validated_nalus == IN.validated && acc.number_of_pending_nalus == IN.pending, "numbers untouched");
  VF_CHECK((int)lat.authenticity == IN.latest_auth && lat.timestamp == IN.ts, "the latest result is only read");
  VF_REACH(IN.latest_auth == SV_AUTH_RESULT_OK && acc.authenticity == SV_AUTH_RESULT_NOT_OK, "sticky");
  VF_REACH(acc.authenticity == SV_AUTH_RESULT_OK, "ok");
}

/* ---- the report after a validation ---- */
static void
local_report(void)
{
  sv.nalu_list = &nlist;
  sv.product_info = &prod;
  svrc_t rc = create_local_authenticity_report_if_needed(&sv);
  VF_ASSUME(rc == SV_OK);
  VF_CHECK(sv.authenticity && sv.latest_validation == &sv.authenticity->latest_validation && sv.accumulated_validation == &sv.authenticity->accumulated_validation, "the session's report");
  VF_ASSUME(sv.authenticity->version_on_signing_side && sv.authenticity->this_version);
  signing_version[0] = 'v';
  for (int i = 1; i < 7; i++) signing_version[i] = (char)IN.str[7][i];
  for (int i = 0; i < 13; i++) sv.authenticity->version_on_signing_side[i] = signing_version[i];
}
void
h_update_report(void)
{
  VF_INPUT();
  local_report();
  fill(sv.latest_validation, sv.accumulated_validation);
  if (!IN.nostr) {
    sv.latest_validation->nalu_str = mkstr(0, LA);
    sv.latest_validation->validation_str = mkstr(1, LB);
  }
  VF_ASSUME(IN.validated < 0x7fffffff && IN.removed < 0x7fffffff);
  int dummy;
  if (IN.legacy) sv.legacy_sv = (legacy_sv_t *)&dummy;
  update_authenticity_report(&sv);
  signed_video_latest_validation_t *l = &sv.authenticity->latest_validation;
  signed_video_accumulated_validation_t *a = &sv.authenticity->accumulated_validation;
  if (IN.legacy) {
    VF_CHECK((int)l->authenticity == IN.latest_auth && (int)a->authenticity == IN.acc_auth && calls_clean == 0 && calls_str == 0, "legacy validation reports itself");
  } else {
    VF_CHECK(calls_cmp >= 1 && cmp_args_ok, "this version is compared with that of the signing side");
    const int want = IN.cmp == 2 ? SV_AUTH_RESULT_VERSION_MISMATCH : IN.latest_auth;
    VF_CHECK((int)l->authenticity == want, "a newer signing side, and only that, is a version mismatch");
    check_accumulated(want, a);
    VF_CHECK(l->nalu_str == made[1] && l->validation_str == made[0] && calls_str == 2, "the strings of this validation");
    VF_CHECK(calls_clean == 1, "validated NALUs are removed once");
    VF_CHECK(a->number_of_validated_nalus == IN.validated + (a->authenticity == SV_AUTH_RESULT_NOT_SIGNED ? 0 : IN.removed), "validated NALUs are counted");
    VF_CHECK(a->number_of_pending_nalus == IN.pending && l->number_of_expected_picture_nalus == IN.exp && l->number_of_received_picture_nalus == IN.rec && l->number_of_pending_picture_nalus == IN.pend && (int)l->public_key_validation == IN.latest_pub && l->public_key_has_changed == IN.lchg, "the rest is kept");
  }
  VF_REACH(!IN.legacy && IN.cmp == 2, "mismatch");
  VF_REACH(!IN.legacy && IN.cmp == 0, "match");
  VF_REACH(IN.legacy, "legacy");
  signed_video_authenticity_report_free(sv.authenticity);
}

/* ---- the user's copy ---- */
void
h_get_report(void)
{
  VF_INPUT();
  VF_CHECK(!signed_video_get_authenticity_report(NULL) && !signed_video_get_authenticity_report(&sv), "no report without validation");
  local_report();
  signed_video_authenticity_t *loc = sv.authenticity;
  fill(sv.latest_validation, sv.accumulated_validation);
  if (!IN.nostr) {
    loc->latest_validation.nalu_str = mkstr(0, LA);
    loc->latest_validation.validation_str = mkstr(1, LB);
  }
  free(loc->product_info.hardware_id);
  loc->product_info.hardware_id = mkstr(2, 3);
  free(loc->product_info.firmware_version);
  loc->product_info.firmware_version = mkstr(3, 0);
  free(loc->product_info.serial_number);
  loc->product_info.serial_number = mkstr(4, -1);
  free(loc->product_info.manufacturer);
  loc->product_info.manufacturer = mkstr(5, 1);
  free(loc->product_info.address);
  loc->product_info.address = mkstr(6, 2);
  nlist.num_items = (int)(IN.items & 0xffff);
  int dummy;
  if (IN.legacy) sv.legacy_sv = (legacy_sv_t *)&dummy;
  const unsigned pend = IN.acc_auth == SV_AUTH_RESULT_NOT_SIGNED ? IN.received : IN.legacy ? (IN.items & 0xffff) + 1 : (IN.items & 0xffff);
  n_realloc = 0;
  signed_video_authenticity_t *r = signed_video_get_authenticity_report(&sv);
#if NOMEM
  VF_CHECK((r == NULL) == (n_realloc >= NOMEM), "a report is complete or there is none");
  VF_CHECK(sv.authenticity == loc && isstr(loc->product_info.hardware_id, 2, 3) && loc->version_on_signing_side[0] == 'v', "the session's report survives");
  VF_REACH(true, "returned");
  if (!r) return;
#endif
  VF_ASSUME(r);
  VF_CHECK(r != loc && sv.authenticity == loc, "the user gets a copy");
  const signed_video_latest_validation_t *l = &r->latest_validation;
  const signed_video_accumulated_validation_t *a = &r->accumulated_validation;
  VF_CHECK((int)l->authenticity == IN.latest_auth && l->public_key_has_changed == IN.lchg && (int)l->public_key_validation == IN.latest_pub, "latest result");
  VF_CHECK(l->number_of_expected_picture_nalus == IN.exp && l->number_of_received_picture_nalus == IN.rec && l->number_of_pending_picture_nalus == IN.pend, "latest numbers");
  VF_CHECK(l->has_timestamp == IN.lts && l->timestamp == IN.ts, "latest timestamp");
  VF_CHECK((int)a->authenticity == IN.acc_auth && a->public_key_has_changed == IN.achg && (int)a->public_key_validation == IN.acc_pub, "accumulated result");
  VF_CHECK(a->number_of_received_nalus == IN.received && a->number_of_validated_nalus == IN.validated && a->number_of_pending_nalus == pend, "accumulated numbers, all pending NALUs counted");
  VF_CHECK(a->has_timestamp == IN.ats && a->first_timestamp == IN.first_ts && a->last_timestamp == IN.last_ts, "accumulated timestamps");
  VF_CHECK(isstr(l->nalu_str, 0, IN.nostr ? -1 : LA) && isstr(l->validation_str, 1, IN.nostr ? -1 : LB), "strings");
  VF_CHECK(l->nalu_str != loc->latest_validation.nalu_str && l->validation_str != loc->latest_validation.validation_str && l->nalu_str != l->validation_str, "strings are copies");
  VF_CHECK(isstr(r->product_info.hardware_id, 2, 3) && isstr(r->product_info.firmware_version, 3, 0) && isstr(r->product_info.serial_number, 4, -1) && isstr(r->product_info.manufacturer, 5, 1) && isstr(r->product_info.address, 6, 2), "product information");
  VF_CHECK(r->product_info.hardware_id != loc->product_info.hardware_id && r->product_info.firmware_version != loc->product_info.firmware_version && r->product_info.manufacturer != loc->product_info.manufacturer && r->product_info.address != loc->product_info.address, "product information is copied");
  VF_CHECK(r->version_on_signing_side != loc->version_on_signing_side && eqs(r->version_on_signing_side, signing_version) && r->this_version != loc->this_version && eqs(r->this_version, SIGNED_VIDEO_VERSION), "versions");
  /* freeing the user's report leaves the session's report alone, and the other way around */
  signed_video_authenticity_report_free(r);
  VF_CHECK(isstr(loc->product_info.hardware_id, 2, 3) && loc->version_on_signing_side[0] == 'v', "the session's report survives");
  if (!IN.nostr) VF_CHECK(isstr(loc->latest_validation.nalu_str, 0, LA), "the session's strings survive");
  signed_video_authenticity_report_free(loc);
  signed_video_authenticity_report_free(NULL);
#if !NOMEM
  VF_REACH(IN.legacy, "legacy");
  VF_REACH(!IN.legacy && IN.acc_auth != SV_AUTH_RESULT_NOT_SIGNED, "signed");
#endif
#if !NOMEM
  VF_REACH(IN.nostr, "no strings");
#endif
}

/* ---- copying strings ---- */
void
h_copy_string(void)
{
  VF_INPUT();
  char *dst = mkstr(0, DSTLEN);
  char *src = mkstr(1, LB);
  svrc_t rc = allocate_memory_and_copy_string(&dst, src);
  if (rc == SV_OK) {
    VF_CHECK(dst && dst != src && isstr(dst, 1, LB), "a copy (empty for no string)");
  } else {
    VF_CHECK(rc == SV_MEMORY && !dst, "out of memory leaves no string");
  }
  VF_CHECK(allocate_memory_and_copy_string(NULL, src) == SV_INVALID_PARAMETER, "parameters");
  VF_CHECK(transfer_product_info(NULL, &prod) == SV_OK && transfer_product_info(&prod, NULL) == SV_OK, "nothing to transfer");
  VF_REACH(rc == SV_OK, "copied");
  free(dst);
  free(src);
}

/* ---- product information, perhaps without memory ---- */
void
h_product(void)
{
  VF_INPUT();
  signed_video_product_info_t d = {0}, s = {0};
  d.hardware_id = mkstr(0, 2);
  s.hardware_id = mkstr(2, 3);
  s.firmware_version = mkstr(3, 2);
  s.serial_number = mkstr(4, -1);
  s.manufacturer = mkstr(5, 1);
  s.address = mkstr(6, 2);
  VF_ASSUME(d.hardware_id && s.hardware_id && s.firmware_version && s.manufacturer && s.address);
  n_realloc = 0;
  svrc_t rc = transfer_product_info(&d, &s);
  VF_CHECK((rc == SV_OK) == (NOMEM == 0 || n_realloc < NOMEM), "succeeds unless memory ran out");
  if (rc == SV_OK)
    VF_CHECK(isstr(d.hardware_id, 2, 3) && isstr(d.firmware_version, 3, 2) && isstr(d.serial_number, 4, -1) && isstr(d.manufacturer, 5, 1) && isstr(d.address, 6, 2), "all of the product information is copied");
  else
    VF_CHECK(rc == SV_MEMORY, "the memory ran out");
  VF_CHECK(isstr(s.hardware_id, 2, 3) && isstr(s.firmware_version, 3, 2) && isstr(s.manufacturer, 5, 1) && isstr(s.address, 6, 2), "the original is kept");
  free(d.hardware_id);
  free(d.firmware_version);
  free(d.serial_number);
  free(d.manufacturer);
  free(d.address);
  VF_REACH(true, "returned");
}

/* ---- a fresh report ---- */
void
h_fresh_report(void)
{
  VF_INPUT();
  VF_CHECK(create_local_authenticity_report_if_needed(NULL) == SV_INVALID_PARAMETER, "parameters");
  prod.hardware_id = mkstr(2, 3);
  prod.address = mkstr(6, 2);
  sv.product_info = &prod;
  svrc_t rc = create_local_authenticity_report_if_needed(&sv);
  VF_CHECK(rc == SV_OK || rc == SV_MEMORY, "created, or out of memory");
  if (rc == SV_OK) {
    signed_video_authenticity_t *r = sv.authenticity;
    VF_CHECK(sv.latest_validation == &r->latest_validation && sv.accumulated_validation == &r->accumulated_validation, "shortcuts");
    VF_CHECK(r->latest_validation.authenticity == SV_AUTH_RESULT_NOT_SIGNED && r->accumulated_validation.authenticity == SV_AUTH_RESULT_NOT_SIGNED, "nothing signed yet");
    VF_CHECK(r->latest_validation.public_key_validation == SV_PUBKEY_VALIDATION_NOT_FEASIBLE && r->accumulated_validation.public_key_validation == SV_PUBKEY_VALIDATION_NOT_FEASIBLE, "no key validated yet");
    VF_CHECK(r->latest_validation.number_of_expected_picture_nalus == -1 && r->latest_validation.number_of_received_picture_nalus == -1 && r->latest_validation.number_of_pending_picture_nalus == 0, "latest numbers");
    VF_CHECK(!r->accumulated_validation.number_of_received_nalus && !r->accumulated_validation.number_of_validated_nalus && !r->accumulated_validation.number_of_pending_nalus, "accumulated numbers");
    VF_CHECK(!r->latest_validation.has_timestamp && !r->accumulated_validation.has_timestamp && !r->latest_validation.public_key_has_changed && !r->accumulated_validation.public_key_has_changed, "flags");
    VF_CHECK(isstr(r->product_info.hardware_id, 2, 3) && r->product_info.hardware_id != prod.hardware_id, "product information");
    VF_CHECK(create_local_authenticity_report_if_needed(&sv) == SV_OK && sv.authenticity == r, "created once");
    /* re-initialization gives the same values, from any values */
    fill(&r->latest_validation, &r->accumulated_validation);
    r->latest_validation.nalu_str = mkstr(0, LA);
    r->latest_validation.validation_str = mkstr(1, LB);
    latest_validation_init(&r->latest_validation);
    accumulated_validation_init(&r->accumulated_validation);
    const signed_video_latest_validation_t *l = &r->latest_validation;
    const signed_video_accumulated_validation_t *a = &r->accumulated_validation;
    VF_CHECK(l->authenticity == SV_AUTH_RESULT_NOT_SIGNED && !l->public_key_has_changed && l->number_of_expected_picture_nalus == -1 && l->number_of_received_picture_nalus == -1 && l->number_of_pending_picture_nalus == 0 && l->public_key_validation == SV_PUBKEY_VALIDATION_NOT_FEASIBLE && !l->has_timestamp && !l->nalu_str && !l->validation_str, "latest result as new");
    VF_CHECK(a->authenticity == SV_AUTH_RESULT_NOT_SIGNED && !a->public_key_has_changed && !a->number_of_received_nalus && !a->number_of_validated_nalus && !a->number_of_pending_nalus && a->public_key_validation == SV_PUBKEY_VALIDATION_NOT_FEASIBLE && !a->has_timestamp, "accumulated result as new");
  }
  latest_validation_init(NULL);
  accumulated_validation_init(NULL);
  VF_REACH(rc == SV_OK, "created");
}
