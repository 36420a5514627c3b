/* Contracts on legacy_h26x_nalu_list.c: the list of NALUs under validation of an old stream. */
#include "vf.h"
#include "signed_video_internal.h"
#include "legacy_validation.h"
#include "legacy/legacy_internal.h"
#include "legacy/legacy_h26x_internal.h"
#include "legacy/legacy_h26x_nalu_list.h"

#ifndef K
#define K 3
#endif
#ifndef POS
#define POS 0
#endif
#ifndef NM
#define NM 2
#endif
#define KM 9

struct vf_in {
  uint8_t st[KM];
  uint8_t flag[KM];  // 1 decoded, 2 used in GOP hash, 4 signed SEI, 8 second hash, 16 waits for a second verification, 32 failed the first
  uint8_t type[KM];
  int valid;
  uint8_t data[16], noepb[16];
  size_t off;
  bool hashable : 1, append : 1, known : 1, with_tlv : 1;
} IN;

/* contracts of the callees, see common.c */
#ifndef REALCOPY
void
legacy_copy_nalu_except_pointers(legacy_h26x_nalu_t *dst, const legacy_h26x_nalu_t *src)
{
  if (!dst || !src) return;
  *dst = *src;
  dst->nalu_data = NULL;
  dst->hashable_data = NULL;
  dst->payload = NULL;
  dst->tlv_start_in_nalu_data = NULL;
  dst->tlv_data = NULL;
  dst->nalu_data_wo_epb = NULL;
}
#endif
char
legacy_nalu_type_to_char(const legacy_h26x_nalu_t *nalu)
{
  if (!nalu) return 'x';
  return (char)('a' + (unsigned)nalu->nalu_type);
}
#include "legacy/legacy_h26x_nalu_list.c"

static legacy_h26x_nalu_list_t *L;
static legacy_h26x_nalu_list_item_t *it[KM];
static legacy_h26x_nalu_t *na[KM];
static char st[KM];
static const char kinds[8] = {'P', 'U', '_', '.', 'N', 'M', 'E', 'P'};

static void
build(int k)
{
  L = legacy_h26x_nalu_list_create();
  VF_ASSUME(L);
  VF_CHECK(!L->first_item && !L->last_item && L->num_items == 0, "a new list is empty");
  for (int i = 0; i < k; i++) {
    it[i] = calloc(1, sizeof(legacy_h26x_nalu_list_item_t));
    VF_ASSUME(it[i]);
    st[i] = kinds[IN.st[i] & 7];
    it[i]->validation_status = st[i];
    if (st[i] != 'M') {
      na[i] = calloc(1, sizeof(legacy_h26x_nalu_t));
      VF_ASSUME(na[i]);
      na[i]->is_gop_sei = !!(IN.flag[i] & 4);
      na[i]->nalu_type = IN.type[i] % 7;
      it[i]->nalu = na[i];
    }
    it[i]->taken_ownership_of_nalu = true;
    it[i]->has_been_decoded = IN.flag[i] & 1;
    it[i]->used_in_gop_hash = !!(IN.flag[i] & 2);
    it[i]->need_second_verification = !!(IN.flag[i] & 16);
    it[i]->first_verification_not_authentic = !!(IN.flag[i] & 32);
    if (IN.flag[i] & 8) it[i]->second_hash = malloc(MAX_HASH_SIZE);
    if (i) {
      it[i]->prev = it[i - 1];
      it[i - 1]->next = it[i];
    }
  }
  L->first_item = k ? it[0] : NULL;
  L->last_item = k ? it[k - 1] : NULL;
  L->num_items = k;
}
/* the list holds exactly |n| items, properly linked; |ex| maps position to the expected item */
static void
wellformed(int n)
{
  VF_CHECK(L->num_items == n, "the number of items is right");
  VF_CHECK((L->first_item == NULL) == (n == 0) && (L->last_item == NULL) == (n == 0), "first and last exist exactly when there are items");
  legacy_h26x_nalu_list_item_t *p = NULL, *x = L->first_item;
  int c = 0;
  for (int i = 0; i < KM + 4; i++) {
    if (!x) break;
    VF_CHECK(x->prev == p, "linked both ways");
    p = x;
    x = x->next;
    c++;
  }
  VF_CHECK(!x && c == n && L->last_item == p, "linked from first to last");
}
static legacy_h26x_nalu_list_item_t *
at(int i)
{
  legacy_h26x_nalu_list_item_t *x = L->first_item;
  while (i-- > 0 && x) x = x->next;
  return x;
}
static bool
same(int i)
{
  legacy_h26x_nalu_list_item_t *x = it[i];
  return x->nalu == na[i] && x->validation_status == st[i] && x->has_been_decoded == (IN.flag[i] & 1) && x->used_in_gop_hash == !!(IN.flag[i] & 2) && x->need_second_verification == !!(IN.flag[i] & 16) && x->first_verification_not_authentic == !!(IN.flag[i] & 32) && (x->second_hash != NULL) == !!(IN.flag[i] & 8);
}

void
h_append(void)
{
  VF_INPUT();
  build(K);
  static legacy_h26x_nalu_t n;
  n.is_valid = IN.valid;
  n.is_hashable = IN.hashable;
  svrc_t rc = legacy_h26x_nalu_list_append(L, &n);
  VF_CHECK(rc == SV_OK || rc == SV_MEMORY, "appended, or out of memory");
  if (rc == SV_OK) {
    wellformed(K + 1);
    VF_CHECK(L->last_item->nalu == &n && !L->last_item->taken_ownership_of_nalu && !L->last_item->used_in_gop_hash && !L->last_item->has_been_decoded && !L->last_item->need_second_verification && !L->last_item->first_verification_not_authentic && !L->last_item->second_hash, "the NALU is last");
    const char e = IN.valid < 0 ? 'E' : IN.valid == 0 ? 'U' : IN.hashable ? 'P' : '_';
    VF_CHECK(L->last_item->validation_status == e, "initial status");
  } else {
    wellformed(K);
  }
  for (int i = 0; i < K; i++) VF_CHECK(at(i) == it[i] && same(i), "earlier NALUs are untouched");
  VF_CHECK(legacy_h26x_nalu_list_append(NULL, &n) == SV_INVALID_PARAMETER && legacy_h26x_nalu_list_append(L, NULL) == SV_INVALID_PARAMETER, "parameters");
  VF_REACH(rc == SV_OK && IN.valid > 0 && IN.hashable, "appended");
  legacy_h26x_nalu_list_free(L);
}

void
h_add_missing(void)
{
  VF_INPUT();
  build(K);
  static legacy_h26x_nalu_list_item_t foreign;
  VF_CHECK(legacy_h26x_nalu_list_add_missing(NULL, NM, IN.append, it[POS]) == SV_INVALID_PARAMETER && legacy_h26x_nalu_list_add_missing(L, NM, IN.append, NULL) == SV_INVALID_PARAMETER && legacy_h26x_nalu_list_add_missing(L, -1, IN.append, it[POS]) == SV_INVALID_PARAMETER && legacy_h26x_nalu_list_add_missing(L, NM, IN.append, &foreign) == SV_INVALID_PARAMETER, "parameters");
  wellformed(K);
  svrc_t rc = legacy_h26x_nalu_list_add_missing(L, NM, IN.append, it[POS]);
  VF_ASSUME(rc != SV_MEMORY);
  VF_CHECK(rc == SV_OK, "added");
  wellformed(K + NM);
  const int where = IN.append ? POS + 1 : POS;  // position of the first added
  for (int i = 0; i < K + NM; i++) {
    legacy_h26x_nalu_list_item_t *x = at(i);
    if (i < where) {
      VF_CHECK(x == it[i] && same(i), "earlier NALUs are untouched");
    } else if (i < where + NM) {
      VF_CHECK(x->validation_status == 'M' && !x->nalu && !x->need_second_verification, "missing NALUs are at the given position");
    } else {
      VF_CHECK(x == it[i - NM] && same(i - NM), "later NALUs are untouched");
    }
  }
  VF_REACH(IN.append, "append");
  VF_REACH(!IN.append, "prepend");
  legacy_h26x_nalu_list_free(L);
}

/* A first validation that could not be performed: nothing is lost but leading missing items. */
void
h_remove_missing(void)
{
  VF_INPUT();
  build(K);
  /* specification on the statuses */
  char e[K + 1];
  uint8_t f[K + 1];
  int lead = 0;
  while (lead < K && st[lead] == 'M') lead++;
  bool pend = false, sei = false;
  for (int i = 0; i < K; i++) {
    e[i] = st[i];
    f[i] = IN.flag[i];
    if (pend && sei) continue;
    if (!pend) f[i] &= (uint8_t)~32;
    if (i < lead) continue;
    if ((IN.flag[i] & 1) && e[i] != 'U') {
      e[i] = 'U';
      sei = true;
    }
    if (e[i] == 'P') pend = true;
  }
  legacy_h26x_nalu_list_remove_missing_items(L);
  wellformed(K - lead);
  for (int i = 0; i < K; i++) {
    if (i < lead) continue;
    VF_CHECK(at(i - lead) == it[i], "only missing items in front are removed");
    const char n = it[i]->validation_status;
    VF_CHECK(n != '.' || st[i] == '.', "nothing becomes authentic");
    VF_CHECK(n == e[i], "the SEI used is unknown, the rest is untouched");
    VF_CHECK(it[i]->first_verification_not_authentic == !!(f[i] & 32), "a failure is forgotten up to the first pending NALU, and no further");
    st[i] = n;
    IN.flag[i] = f[i];
    VF_CHECK(same(i), "items are otherwise untouched");
  }
  VF_REACH(lead > 0 && lead < K, "removed");
  VF_REACH(lead == 0, "none");
  legacy_h26x_nalu_list_free(L);
}

void
h_read(void)
{
  VF_INPUT();
  build(K);
  int first = -1, inv = 0, mis = 0, pend = 0, i2 = -7, m2 = -7;
  bool val = false;
  for (int i = 0; i < K; i++) {
    if (first < 0 && st[i] == 'P' && (IN.flag[i] & 4)) first = i;
    pend += st[i] == 'P';
    inv += st[i] == 'N' || st[i] == 'E';
    mis += st[i] == 'M';
    if (st[i] == '.' && !(na[i] && (IN.flag[i] & 4))) val = true;
    if (st[i] == 'P' && (IN.flag[i] & 48) == 16) val = true;
  }
  legacy_h26x_nalu_list_item_t *s = legacy_h26x_nalu_list_get_next_sei_item(L);
  VF_CHECK(first < 0 ? s == NULL : s == it[first], "the oldest pending signed SEI");
  VF_CHECK(legacy_h26x_nalu_list_get_stats(L, &i2, &m2) == val && i2 == inv && m2 == mis, "statistics of the NALUs");
  VF_CHECK(legacy_h26x_nalu_list_get_stats(L, NULL, NULL) == val, "statistics are optional");
  VF_CHECK(legacy_h26x_nalu_list_num_pending_items(L) == pend, "number of pending NALUs");
  char *v = legacy_h26x_nalu_list_get_str(L, LEGACY_VALIDATION_STR), *n = legacy_h26x_nalu_list_get_str(L, LEGACY_NALU_STR);
  if (v && n) {
    for (int i = 0; i < K; i++) VF_CHECK(v[i] == st[i] && n[i] == (na[i] ? 'a' + IN.type[i] % 7 : 'x'), "one character per NALU, oldest first");
    VF_CHECK(v[K] == 0 && n[K] == 0, "terminated");
  }
  VF_CHECK(!legacy_h26x_nalu_list_get_next_sei_item(NULL) && !legacy_h26x_nalu_list_get_stats(NULL, &i2, &m2) && legacy_h26x_nalu_list_num_pending_items(NULL) == 0 && !legacy_h26x_nalu_list_get_str(NULL, LEGACY_NALU_STR) && legacy_h26x_nalu_list_clean_up(NULL) == 0, "parameters");
  wellformed(K);
  for (int i = 0; i < K; i++) VF_CHECK(at(i) == it[i] && same(i), "reading has no effect");
  VF_REACH(v && n, "end");
  free(v);
  free(n);
  legacy_h26x_nalu_list_free(L);
}

void
h_clean_up(void)
{
  VF_INPUT();
  build(K);
  int done = 0;
  unsigned count = 0;
  while (done < K && st[done] != 'P' && !(IN.flag[done] & 16)) count += st[done++] != 'M';
  unsigned r = legacy_h26x_nalu_list_clean_up(L);
  VF_CHECK(r == count, "removed NALUs are counted, missing ones are not");
  wellformed(K - done);
  for (int i = 0; i < K; i++)
    if (i >= done) VF_CHECK(at(i - done) == it[i] && same(i), "everything from the first NALU that is not done is kept");
  VF_REACH(done > 0 && done < K, "some");
  VF_REACH(done == K, "all");
  legacy_h26x_nalu_list_free(L);
  legacy_h26x_nalu_list_free(NULL);
}

void
h_free_items(void)
{
  VF_INPUT();
  build(K);
  legacy_h26x_nalu_list_free_items(L);
  wellformed(0);
  legacy_h26x_nalu_list_free_items(L);
  legacy_h26x_nalu_list_free_items(NULL);
  VF_REACH(true, "end");
  legacy_h26x_nalu_list_free(L);
}

/* The last NALU is kept after the caller's memory is gone. */
#ifndef DN
#define DN 8
#endif
#ifndef HOFF
#define HOFF 2
#endif
#ifndef WOEPB
#define WOEPB 0
#endif
#ifndef TRAILM
#define TRAILM 0
#endif
void
h_copy_last(void)
{
  VF_INPUT();
  build(K);
  /* a NALU parsed from the caller's memory, appended; possibly followed by missing items */
  uint8_t *raw = malloc(DN), *noepb = malloc(DN - 1);
  static legacy_h26x_nalu_t n;
  VF_ASSUME(raw && noepb);
  for (int i = 0; i < DN; i++) raw[i] = IN.data[i];
  for (int i = 0; i < DN - 1; i++) noepb[i] = IN.noepb[i];
  n.is_valid = 1;
  n.is_hashable = IN.hashable;
  n.nalu_type = IN.type[8] % 7;
  n.is_gop_sei = IN.with_tlv;
  n.nalu_data = raw;
  n.nalu_data_size = DN;
  n.payload = raw + 1;
  n.tlv_start_in_nalu_data = raw + 3;
  if (IN.with_tlv) {
    n.tlv_data = WOEPB ? noepb + 3 : raw + 3;
    n.tlv_size = 3;
  }
  n.nalu_data_wo_epb = WOEPB ? noepb : NULL;
  n.hashable_data = WOEPB == 2 ? noepb : raw + HOFF;
  n.hashable_data_size = WOEPB == 2 ? DN - 2 : DN - HOFF - 1;
  svrc_t rc = legacy_h26x_nalu_list_append(L, &n);
  VF_ASSUME(rc == SV_OK);
  legacy_h26x_nalu_list_item_t *mine = L->last_item;
#if TRAILM
  VF_ASSUME(legacy_h26x_nalu_list_add_missing(L, TRAILM, true, mine) == SV_OK);
#endif
  VF_CHECK(legacy_h26x_nalu_list_copy_last_item(NULL) == SV_INVALID_PARAMETER, "parameters");
  rc = legacy_h26x_nalu_list_copy_last_item(L);
  VF_CHECK(rc == SV_OK || rc == SV_MEMORY, "copied, or out of memory");
  wellformed(K + 1 + TRAILM);
  for (int i = 0; i < K; i++) VF_CHECK(at(i) == it[i] && same(i), "earlier NALUs are untouched");
  VF_CHECK(at(K) == mine && mine->taken_ownership_of_nalu, "the item owns its NALU");
  const legacy_h26x_nalu_t *c = mine->nalu;
  if (rc == SV_OK) {
    uint8_t tlv[3] = {0};
    for (int i = 0; i < 3; i++) tlv[i] = WOEPB ? noepb[3 + i] : raw[3 + i];
    const size_t hn = n.hashable_data_size;
    free(raw);  // the caller's memory
    free(noepb);
    VF_CHECK(c && c != &n, "a copy");
    VF_CHECK(c->is_valid == 1 && c->is_hashable == IN.hashable && c->is_gop_sei == IN.with_tlv && c->nalu_type == IN.type[8] % 7 && c->hashable_data_size == hn && c->tlv_size == (IN.with_tlv ? 3 : 0), "the same description");
    VF_CHECK((c->tlv_data != NULL) == IN.with_tlv, "TLV data kept");
    if (IN.with_tlv)
      for (int i = 0; i < 3; i++) VF_CHECK(c->tlv_data[i] == tlv[i], "the same TLV data");
    VF_CHECK(!c->hashable_data && !c->nalu_data, "nothing else is kept");
    VF_CHECK(!c->payload && !c->tlv_start_in_nalu_data, "no pointer to the caller's memory");
  }
  VF_REACH(rc == SV_OK && IN.with_tlv, "SEI");
  VF_REACH(rc == SV_OK && !IN.with_tlv, "other");
  legacy_h26x_nalu_list_free(L);
}
