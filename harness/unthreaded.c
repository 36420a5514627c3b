/* Contracts on the unthreaded signing plugin.  openssl_sign_hash() is a contract stub with ghost state: it
 * records the hash it was asked to sign and hands out an arbitrary signature that fits the memory of
 * |sign_data| (contract discharged on signed_video_openssl.c in openssl.c).  Memory is counted by a ghost
 * allocator, which may fail. */
#include "vf.h"
#include "includes/signed_video_openssl.h"
#include "includes/signed_video_signing_plugin.h"

#ifndef MAXSIG
#define MAXSIG 6  // memory of a signature
#endif
#ifndef OUTIDX
#define OUTIDX 0  // signatures in the queue
#endif
#ifndef SLOTS
#define SLOTS OUTIDX  // slots that have memory
#endif
#ifndef SIGZ
#define SIGZ 5  // size of the new signature
#endif
#ifndef QSIZE
#define QSIZE(i) ((i) % MAXSIG + 1)
#endif
#ifndef ROOM
#define ROOM MAXSIG  // memory of the user
#endif
#ifndef HSZ
#define HSZ 4
#endif
#ifndef NOMEM
#define NOMEM 0  // the nth allocation fails
#endif
#ifndef LIMIT
#define LIMIT 60
#endif
struct vf_in {
  uint8_t q[SLOTS ? SLOTS : 1][MAXSIG];
  uint8_t sig[3][MAXSIG], hash[3][HSZ], room[MAXSIG + 2];
  int rc;
  uint64_t z64;
  bool b0 : 1, b1 : 1, b2 : 1;
} IN;

static int n_alloc, n_live;
static void *
vf_calloc(size_t n, size_t z)
{
  if (++n_alloc == NOMEM) return NULL;
  uint8_t *p = malloc(n * z);
  VF_ASSUME(p != NULL);
  for (size_t i = 0; i < n * z && n * z <= 64; i++) p[i] = 0;
  if (n * z > 64) memset(p, 0, n * z);
  n_live++;
  return p;
}
static void
vf_free(void *p)
{
  if (!p) return;
  n_live--;
  free(p);
}
#define calloc vf_calloc
#define free vf_free
#include "plugins/unthreaded-signing/plugin.c"
#undef calloc
#undef free

static sv_unthreaded_plugin_t S;
static sign_or_verify_data_t *W;  // the data signing works on
static uint8_t work[MAXSIG];
static int n_sign, n_keyfree, key_dummy;
static uint8_t signed_hash[3][HSZ];
static size_t signed_size[3];
static SignedVideoReturnCode
rc_of(int x)
{
  return x == 0 ? SV_OK : x == 1 ? SV_EXTERNAL_ERROR : SV_INVALID_PARAMETER;
}
SignedVideoReturnCode
openssl_sign_hash(sign_or_verify_data_t *d)
{
  VF_CHECK(d && d->hash && d->signature, "signing is asked for with complete data");
  VF_CHECK(n_sign < 3, "each hash is signed once");
  signed_size[n_sign] = d->hash_size;
  for (int i = 0; i < HSZ; i++) signed_hash[n_sign][i] = d->hash[i];
  int k = n_sign++;
  if (rc_of(IN.rc) != SV_OK) return rc_of(IN.rc);
  for (int i = 0; i < SIGZ; i++) d->signature[i] = IN.sig[k][i];
  d->signature_size = SIGZ;
  return SV_OK;
}
SignedVideoReturnCode
openssl_private_key_malloc(sign_or_verify_data_t *d, const char *key, size_t size)
{
  VF_CHECK(d && key && size, "a key is given");
  if (rc_of(IN.rc) != SV_OK) return rc_of(IN.rc);
  d->key = &key_dummy;
  d->signature = vf_calloc(1, MAXSIG);
  if (!d->signature) return SV_MEMORY;
  d->max_signature_size = MAXSIG;
  return SV_OK;
}
void
openssl_free_key(void *key)
{
  if (key) n_keyfree++;
}

/* A plugin with OUTIDX signatures in its queue, the slots below SLOTS having memory. */
static uint8_t *ptr0[LIMIT];
static void
setup(void)
{
  for (int i = 0; i < SLOTS; i++) {
    S.out_buffer[i].signature = malloc(MAXSIG);
    VF_ASSUME(S.out_buffer[i].signature != NULL);
    ptr0[i] = S.out_buffer[i].signature;
    n_live++;
    for (int j = 0; j < MAXSIG; j++) S.out_buffer[i].signature[j] = IN.q[i][j];
    if (i < OUTIDX) S.out_buffer[i].signature_size = QSIZE(i);
  }
  S.out_buffer_idx = OUTIDX;
  S.sign_data.signature = work;
  S.sign_data.max_signature_size = MAXSIG;
  S.sign_data.key = &key_dummy;
}
/* queue position |i| holds what was at position |from| before */
static bool
kept(int i, int from)
{
  if (S.out_buffer[i].signature_size != QSIZE(from) || !S.out_buffer[i].signature) return false;
  for (int j = 0; j < QSIZE(from); j++)
    if (S.out_buffer[i].signature[j] != IN.q[from][j]) return false;
  return true;
}
/* every slot owns its own memory */
static bool
owned(void)
{
  for (int i = 0; i < LIMIT; i++) {
    if (i < S.out_buffer_idx && !S.out_buffer[i].signature) return false;
    if (i >= SLOTS + 1) continue;
    for (int j = 0; j < i; j++)
      if (S.out_buffer[i].signature && S.out_buffer[i].signature == S.out_buffer[j].signature) return false;
  }
  return true;
}

/* sign: the new signature is last, everything before it is as it was; or nothing changed. */
void
h_sign(void)
{
  VF_INPUT();
  setup();
  SignedVideoReturnCode rc = sv_signing_plugin_sign(&S, IN.hash[0], HSZ);
  for (int i = 0; i < OUTIDX; i++) VF_CHECK(kept(i, i), "signatures in the queue stay as they are");
  VF_CHECK(owned(), "each slot has its own memory");
  bool full = OUTIDX >= LIMIT;
  bool nomem = NOMEM == 1 && SLOTS <= OUTIDX;
  SignedVideoReturnCode want = full ? SV_NOT_SUPPORTED : rc_of(IN.rc) != SV_OK ? rc_of(IN.rc) : SIGZ == 0 ? SV_NOT_SUPPORTED : nomem ? SV_MEMORY : SV_OK;
  VF_CHECK((rc == SV_OK) == (want == SV_OK), "signing succeeds exactly when it can");
  VF_CHECK(rc == want, "the reason is returned");
  if (want != SV_OK) {
    VF_CHECK(S.out_buffer_idx == OUTIDX, "a failed signing leaves no signature");
    VF_REACH(true, "signing failed");
  }
#if OUTIDX < LIMIT
  if (rc == SV_OK) {
    VF_CHECK(S.out_buffer_idx == OUTIDX + 1, "one signature per hash");
    VF_CHECK(S.out_buffer[OUTIDX].signature_size == SIGZ, "the signature has its size");
    for (int j = 0; j < SIGZ; j++) VF_CHECK(S.out_buffer[OUTIDX].signature[j] == IN.sig[0][j], "the signature is the one made");
    VF_CHECK(n_sign == 1 && signed_size[0] == HSZ && memcmp(signed_hash[0], IN.hash[0], HSZ) == 0, "made from exactly the hash given");
  }
#if SIGZ > 0 && !(NOMEM == 1 && SLOTS <= OUTIDX)
  VF_REACH(rc == SV_OK, "signed");
#endif
#endif
}

/* get: the oldest signature, once. */
void
h_get(void)
{
  VF_INPUT();
  setup();
  uint8_t out[MAXSIG + 2];
  for (int i = 0; i < MAXSIG + 2; i++) out[i] = IN.room[i];
  size_t written = 77;
  SignedVideoReturnCode err = SV_UNKNOWN_FAILURE;
  bool got = sv_signing_plugin_get_signature(&S, out, ROOM, &written, IN.b0 ? NULL : &err);
  bool fits = OUTIDX > 0 && QSIZE(0) <= ROOM;
  VF_CHECK(got == fits, "a signature is handed out when there is one that fits");
  if (got) {
    VF_CHECK(written == QSIZE(0), "its size is given");
    for (int j = 0; j < QSIZE(0); j++) VF_CHECK(out[j] == IN.q[0][j], "the oldest signature is handed out");
    VF_CHECK(IN.b0 || err == SV_OK, "no error");
  }
  for (int j = fits ? QSIZE(0) : 0; j < MAXSIG + 2; j++) VF_CHECK(out[j] == IN.room[j], "nothing else is written");
  int n = OUTIDX > 0 ? OUTIDX - 1 : 0;
  VF_CHECK(S.out_buffer_idx == n, "handed out once");
  for (int i = 0; i < n; i++) VF_CHECK(kept(i, i + 1), "the others stay in order");
  VF_CHECK(owned(), "each slot has its own memory");
  VF_REACH(got == fits, "get returned");
}

/* sign, sign, get, sign, get, get: first in, first out. */
void
h_order(void)
{
  VF_INPUT();
  setup();
  VF_ASSUME(IN.rc == 0);
  uint8_t out[3][MAXSIG];
  size_t written[3] = {0};
  for (int i = 0; i < 3; i++)
    VF_CHECK(sv_signing_plugin_sign(&S, IN.hash[i], HSZ) == SV_OK, "signing succeeds");
  for (int i = 0; i < 3; i++) {
    VF_CHECK(sv_signing_plugin_get_signature(&S, out[i], MAXSIG, &written[i], NULL), "as many signatures as hashes");
    VF_CHECK(written[i] == SIGZ && memcmp(out[i], IN.sig[i], SIGZ) == 0, "in the order of signing");
    VF_CHECK(memcmp(signed_hash[i], IN.hash[i], HSZ) == 0, "each hash is signed");
  }
  VF_CHECK(!sv_signing_plugin_get_signature(&S, out[0], MAXSIG, &written[0], NULL), "and no more");
  VF_REACH(true, "order");
}

#ifndef BAD
#define BAD 0
#endif
void
h_params(void)
{
  VF_INPUT();
  setup();
  uint8_t out[MAXSIG];
  size_t written = 0;
  void *self = BAD == 0 ? NULL : (void *)&S;
  VF_CHECK(sv_signing_plugin_sign(self, BAD == 1 ? NULL : IN.hash[0], BAD == 2 ? 0 : HSZ) == SV_INVALID_PARAMETER, "invalid parameters are refused");
  VF_CHECK(!sv_signing_plugin_get_signature(self, BAD == 1 ? NULL : out, MAXSIG, BAD == 2 ? NULL : &written, NULL), "nothing is handed out for invalid parameters");
  VF_CHECK(S.out_buffer_idx == OUTIDX && n_sign == 0, "nothing is signed or lost");
  for (int i = 0; i < OUTIDX; i++) VF_CHECK(kept(i, i), "signatures in the queue stay as they are");
  if (BAD != 1) VF_CHECK(sv_signing_plugin_session_setup(BAD == 0 ? NULL : IN.hash[0], BAD == 2 ? 0 : 4) == NULL, "no session without a key");
  sv_signing_plugin_session_teardown(NULL);
  VF_REACH(true, "returned");
}

/* a session is created complete or not at all, and teardown releases everything */
void
h_session(void)
{
  VF_INPUT();
  sv_unthreaded_plugin_t *p = sv_signing_plugin_session_setup(IN.hash[0], HSZ);
  bool ok = rc_of(IN.rc) == SV_OK && NOMEM == 0;
  VF_CHECK((p != NULL) == ok, "a session is created when its key can be used");
  if (p) {
    VF_CHECK(p->out_buffer_idx == 0, "a new session has no signatures");
    uint8_t out[MAXSIG];
    size_t written = 0;
    VF_CHECK(!sv_signing_plugin_get_signature(p, out, MAXSIG, &written, NULL), "a new session has no signatures");
    VF_CHECK(sv_signing_plugin_sign(p, IN.hash[1], HSZ) == SV_OK, "a new session signs");
    VF_CHECK(n_live == 3, "memory in use");
    sv_signing_plugin_session_teardown(p);
    VF_CHECK(n_keyfree == 1, "the key is released");
  }
#if NOMEM == 0
  VF_REACH(p != NULL, "a session");
#endif
  VF_REACH(p == NULL || ok, "returned");
  VF_CHECK(n_live == 0, "all memory is released");
}
