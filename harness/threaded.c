/* Contracts on the threaded signing plugin.
 *
 * Every interleaving at lock granularity is covered by a monitor argument: the state shared between
 * threads is owned by the holder of its lock.  The stub of g_mutex_unlock() demands the monitor invariant
 * and takes the state away (it is replaced by poison, so that touching it without the lock has wrong
 * values and a write is found when the lock is taken again); the stub of g_mutex_lock() hands out a state
 * for which the invariant holds and that differs as other threads may have changed it meanwhile. Each
 * operation is then specified from lock to unlock on queues of any content.
 *
 * openssl_*() are contract stubs (discharged in openssl.c). */
#include "vf.h"
#include "includes/signed_video_openssl.h"
#include "includes/signed_video_signing_plugin.h"

#ifndef CENTRAL
#define CENTRAL 0
#endif
#define MAXSIG 5
#ifndef HSZ
#define HSZ 3  // size of hashes so far
#endif
#ifndef HSZ2
#define HSZ2 HSZ  // size of the hash to sign
#endif
#define LIMIT 60
/* sessions of the elements in the queues, as digits; "0" for local signing */
#ifndef INIDS
#define INIDS ""
#endif
#ifndef OUTIDS
#define OUTIDS ""
#endif
#ifndef INSLOTS
#define INSLOTS (NIN)
#endif
#ifndef OUTSLOTS
#define OUTSLOTS (NOUT)
#endif
#ifndef RUNNING
#define RUNNING 1
#endif
#ifndef INTERF
#define INTERF 0
#endif
#ifndef NOMEM
#define NOMEM 0
#endif
#ifndef ROOM
#define ROOM MAXSIG
#endif
#ifndef SIGZ
#define SIGZ 3
#endif
#ifndef QSIZE
#define QSIZE(i) ((i) % MAXSIG + 1)
#endif
#ifndef ERR0
#define ERR0 0  // signing of the oldest signature failed
#endif
#ifndef MYID
#define MYID CENTRAL
#endif
#ifndef NOHASH
#define NOHASH 0  // nothing signed before
#endif
#ifndef SIGNRC
#define SIGNRC 0
#endif
#ifndef REPIN  // repetitions of the last character, for long queues
#define REPIN 0
#endif
#ifndef REPOUT
#define REPOUT 0
#endif
#define NIN ((int)sizeof(INIDS) - 1 + REPIN)
#define NOUT ((int)sizeof(OUTIDS) - 1 + REPOUT)

#define MMEM 64
struct vf_in {
  uint8_t h[MMEM][HSZ], s[MMEM][MAXSIG];
  uint8_t hash[HSZ2], sig[MAXSIG], room[MAXSIG + 2];
  unsigned ids[3];
  unsigned last;
  int rc;
  bool err : 1, b0 : 1, b1 : 1;
} IN;

static int n_alloc, n_live;
static void *
vf_big(size_t z);  // typed memory
static int big_live;
static void *
vf_calloc(size_t n, size_t z)
{
  if (++n_alloc == NOMEM) return NULL;
  n_live++;
  return vf_big(n * z);
}
static void
vf_free(void *p)
{
  if (!p) return;
  n_live--;
  if (big_live && p == vf_big(0)) {
    big_live = 0;
    return;
  }
  free(p);
}
#define calloc vf_calloc
#define free vf_free
#include "plugins/threaded-signing/plugin.c"
#undef calloc
#undef free

static threaded_data_t T, saved, big;
static void *
vf_big(size_t z)
{
#define TYPED(t)                                                                                    \
  if (z == sizeof(t)) {                                                                            \
    t *x = malloc(sizeof(t));                                                                      \
    VF_ASSUME(x != NULL);                                                                          \
    static const t zero;                                                                           \
    *x = zero;                                                                                     \
    return x;                                                                                      \
  }
  if (z == 0) return &big;
  if (z == sizeof(big)) {
    VF_CHECK(!big_live, "memory of a session");
    big_live = 1;
    return &big;
  }
  TYPED(id_node_t)
  TYPED(sv_threaded_plugin_t)
  TYPED(sign_or_verify_data_t)
  TYPED(central_threaded_data_t)
  uint8_t *p = malloc(z);
  VF_ASSUME(p != NULL);
  for (size_t i = 0; i < z; i++) p[i] = 0;
  return p;
}
static threaded_data_t *M;  // the monitor in question
static id_node_t *saved_list;
static int held, thread_alive, n_lock, n_signal, n_join, n_wait, n_sign, n_keyfree, n_thread, key_dummy, stop_at_wait = 1;
static GThread thread_dummy;
static uint8_t signed_hash[HSZ];
static const char in_ids[] = INIDS, out_ids[] = OUTIDS;
static unsigned
in_id(int i)
{
  int last = (int)sizeof(INIDS) - 2;
  if (last < 0) return 0;
  return (unsigned)(in_ids[i < last ? i : last] - '0');
}
static unsigned
out_id(int i)
{
  int last = (int)sizeof(OUTIDS) - 2;
  if (last < 0) return 0;
  return (unsigned)(out_ids[i < last ? i : last] - '0');
}

/* ---- the monitor ---- */
static bool
listed(unsigned id)
{
  for (id_node_t *n = id_list; n; n = n->next)
    if (n->id == id) return true;
  return false;
}
static void
invariant(void)
{
  VF_CHECK(M->in_idx >= 0 && M->in_idx <= LIMIT && M->out_idx >= 0 && M->out_idx <= LIMIT, "queue lengths are within the queues");
  for (int i = 0; i < LIMIT; i++) {
    if (i < M->in_idx) {
      VF_CHECK(M->in[i].hash && M->sign_data && M->sign_data->hash && M->in[i].size == M->sign_data->hash_size, "each hash to sign has the size signing expects");
      VF_CHECK(CENTRAL ? M->in[i].id != 0 : 1, "each hash to sign belongs to a session");
    } else {
      VF_CHECK(M->in[i].id == 0, "unused hashes belong to no session");
    }
    if (i < M->out_idx) {
      VF_CHECK(M->out[i].signature && M->sign_data && M->out[i].size <= M->sign_data->max_signature_size, "each signature is within its memory");
      VF_CHECK(CENTRAL ? M->out[i].id != 0 : 1, "each signature belongs to a session");
    } else {
      VF_CHECK(M->out[i].id == 0 && M->out[i].size == 0, "unused signatures belong to no session");
    }
  }
}
static void
poison(void)
{
  saved = *M;
  for (int i = 0; i < LIMIT; i++) {
    M->in[i].hash = NULL;
    M->in[i].id = 77;
    M->out[i].signature = NULL;
    M->out[i].id = 77;
  }
  M->in_idx = M->out_idx = -77;
  M->is_running = false;
  if (CENTRAL) {
    saved_list = id_list;
    id_list = NULL;
  }
}
static void
restore(void)
{
  VF_CHECK(M->in_idx == -77 && M->out_idx == -77 && !M->is_running && M->in[0].id == 77 && M->out[0].id == 77 && (!CENTRAL || !id_list), "shared state is not touched without the lock");
  GThread *t = M->thread;
  sign_or_verify_data_t *d = M->sign_data;
  *M = saved;
  M->thread = t;
  M->sign_data = d;
  if (CENTRAL) id_list = saved_list;
}
static void
interfere(void);
static void
at_wait(void);
static int lock_model = 1;
void
g_mutex_lock(GMutex *m)
{
  VF_CHECK(!held, "the lock is not taken twice");
  VF_CHECK(M && m == &M->mutex, "the lock of the state is taken");
  held = 1;
  n_lock++;
  if (thread_alive && lock_model) restore();
  if (n_lock > 1) interfere();
}
void
g_mutex_unlock(GMutex *m)
{
  VF_CHECK(held, "only a lock held is released");
  VF_CHECK(m == &M->mutex, "the lock of the state is released");
  if (lock_model) invariant();
  held = 0;
  if (thread_alive && lock_model) poison();
}
void
g_mutex_init(GMutex *m)
{
  (void)m;
}
void
g_mutex_clear(GMutex *m)
{
  (void)m;
}
void
g_cond_init(GCond *c)
{
  (void)c;
}
void
g_cond_clear(GCond *c)
{
  (void)c;
}
void
g_cond_signal(GCond *c)
{
  (void)c;
  n_signal++;
}
void
g_cond_broadcast(GCond *c)
{
  (void)c;
  n_signal++;
}
void
g_cond_wait(GCond *c, GMutex *m)
{
  (void)c;
  VF_CHECK(held && m == &M->mutex, "waiting releases the lock");
  n_wait++;
  if (lock_model) invariant();
  at_wait();
}
gboolean
g_cond_wait_until(GCond *c, GMutex *m, gint64 end)
{
  (void)c;
  (void)end;
  VF_CHECK(held && m == &M->mutex, "waiting releases the lock");
  n_wait++;
  if (IN.b0) return 0;
  M->is_in_signing = false;
  return 1;
}
gint64
g_get_monotonic_time(void)
{
  return 0;
}
#ifndef NOTHREAD
#define NOTHREAD 0
#endif
GThread *
g_thread_try_new(const char *name, GThreadFunc f, gpointer data, GError **e)
{
  (void)name;
  (void)e;
  VF_CHECK(!held, "a thread can start");
  VF_CHECK(CENTRAL ? (f == central_worker_thread && !data) : (f == local_worker_thread && data), "the worker works on this session");
  if (NOTHREAD) return NULL;
#if !CENTRAL
  M = data;
#endif
  n_thread++;
  return &thread_dummy;
}
gpointer
g_thread_join(GThread *t)
{
  VF_CHECK(!held, "the worker can get the lock and end");
  VF_CHECK(t == &thread_dummy, "the worker thread is waited for");
  VF_CHECK(lock_model ? !saved.is_running : !M->is_running, "the worker is told to end");
  n_join++;
  if (thread_alive && lock_model) restore();
  thread_alive = 0;
  return NULL;
}
/* ---- contracts of the crypto wrapper ---- */
static SignedVideoReturnCode
rc_of(int x)
{
  return x == 0 ? SV_OK : SV_EXTERNAL_ERROR;
}
SignedVideoReturnCode
openssl_sign_hash(sign_or_verify_data_t *d)
{
  VF_CHECK(!held, "signing does not block the users");
  VF_CHECK(d && d->hash && d->signature && d->hash_size == HSZ && d->key, "signing is asked for with complete data");
  VF_CHECK(n_sign == 0, "each hash is signed once");
  VF_CHECK(saved.is_in_signing, "ongoing signing is known to others");
  for (int i = 0; i < HSZ; i++) signed_hash[i] = d->hash[i];
  n_sign++;
  if (SIGNRC) return SV_EXTERNAL_ERROR;
  for (int i = 0; i < SIGZ; i++) d->signature[i] = IN.sig[i];
  d->signature_size = SIGZ;
  return SV_OK;
}
SignedVideoReturnCode
openssl_private_key_malloc(sign_or_verify_data_t *d, const char *key, size_t size)
{
  VF_CHECK(d && key && size, "a key is given");
  if (SIGNRC) return SV_EXTERNAL_ERROR;
  d->signature = vf_calloc(1, MAXSIG);
  if (!d->signature) return SV_MEMORY;
  d->key = &key_dummy;
  d->max_signature_size = MAXSIG;
  return SV_OK;
}
void
openssl_free_key(void *key)
{
  if (key) n_keyfree++;
}

/* ---- a state for which the invariant holds ---- */
static void *
block(int z)
{
  void *p = malloc(z);
  VF_ASSUME(p != NULL);
  n_live++;
  return p;
}
static id_node_t *nodes[4];
static void
add_node(int i, unsigned id)
{
  nodes[i] = block(sizeof(id_node_t));
  nodes[i]->id = id;
  nodes[i]->next = NULL;
  nodes[i]->prev = i ? nodes[i - 1] : NULL;
  if (i) nodes[i - 1]->next = nodes[i];
}
static void
fill_in(int from, int to, int slots)
{
  for (int i = from; i < slots; i++) {
    if (!M->in[i].hash) M->in[i].hash = block(HSZ);
    M->in[i].size = HSZ;
    for (int j = 0; j < HSZ; j++) M->in[i].hash[j] = IN.h[i][j];
    M->in[i].id = i < to ? in_id(i) : 0;
  }
  M->in_idx = to;
}
static void
fill_out(int from, int to, int slots)
{
  for (int i = from; i < slots; i++) {
    if (!M->out[i].signature) M->out[i].signature = block(MAXSIG);
    for (int j = 0; j < MAXSIG; j++) M->out[i].signature[j] = IN.s[i][j];
    M->out[i].size = i < to ? (i == 0 && ERR0 ? 0 : QSIZE(i)) : 0;
    M->out[i].signing_error = i == 0 && i < to && ERR0;
    M->out[i].id = i < to ? out_id(i) : 0;
  }
  M->out_idx = to;
}
static void
setup(void)
{
  M = CENTRAL ? &central : &T;
  M->thread = &thread_dummy;
  M->is_running = RUNNING;
  fill_in(0, NIN, INSLOTS);
  fill_out(0, NOUT, OUTSLOTS);
  sign_or_verify_data_t *d = block(sizeof(*d));
  M->sign_data = d;
  d->key = &key_dummy;
  d->signature = block(MAXSIG);
  d->signature_size = 0;
  d->max_signature_size = MAXSIG;
  d->hash = NULL;
  d->hash_size = 0;
  if (!NOHASH) {
    d->hash = block(HSZ);
    d->hash_size = HSZ;
  }
  if (CENTRAL) {
    add_node(0, 0);
    add_node(1, 1);
    add_node(2, 2);
    id_list = nodes[0];
  }
  thread_alive = 1;
  poison();
}
static bool
kept_in(int i, int from)
{
  if (M->in[i].size != HSZ || !M->in[i].hash || M->in[i].id != in_id(from)) return false;
  for (int j = 0; j < HSZ; j++)
    if (M->in[i].hash[j] != IN.h[from][j]) return false;
  return true;
}
static bool
kept_out(int i, int from)
{
  bool e = from == 0 && ERR0;
  if (M->out[i].size != (e ? 0 : QSIZE(from)) || !M->out[i].signature || M->out[i].id != out_id(from) || M->out[i].signing_error != e) return false;
  for (int j = 0; j < (e ? 0 : QSIZE(from)); j++)
    if (M->out[i].signature[j] != IN.s[from][j]) return false;
  return true;
}
/* each slot has its own memory, |n| blocks in all */
static bool
owned_in(int n)
{
  int c = 0;
  for (int i = 0; i < LIMIT; i++) {
    if (M->in[i].hash) c++;
    for (int j = 0; j < i && i < 8; j++)
      if (M->in[i].hash && M->in[i].hash == M->in[j].hash) return false;
  }
  return c == n;
}
static bool
owned_out(int n)
{
  int c = 0;
  for (int i = 0; i < LIMIT; i++) {
    if (M->out[i].signature) c++;
    for (int j = 0; j < i && i < 8; j++)
      if (M->out[i].signature && M->out[i].signature == M->out[j].signature) return false;
  }
  return c == n;
}
static void
same_in(void)
{
  VF_CHECK(M->in_idx == NIN, "the hashes waiting stay");
  for (int i = 0; i < NIN; i++) VF_CHECK(kept_in(i, i), "the hashes waiting stay");
}
static void
same_out(void)
{
  VF_CHECK(M->out_idx == NOUT, "the signatures waiting stay");
  for (int i = 0; i < NOUT; i++) VF_CHECK(kept_out(i, i), "the signatures waiting stay");
}
/* after an operation: the lock is released; look at the state */
static void
done(void)
{
  VF_CHECK(!held, "the lock is released");
  restore();
}

/* what happens while the worker signs without holding the lock */
static int at_wait_starts;
static void
interfere(void)
{
#if INTERF == 1  // the session whose hash is being signed ends
  buffer_reset(MYID);
  delete_item(MYID);
#elif INTERF == 2  // the out queue is filled up with signatures of session 2
  fill_out(NOUT, LIMIT, LIMIT);
  for (int i = NOUT; i < LIMIT; i++) M->out[i].id = CENTRAL ? 2 : 0;
#elif INTERF == 3  // told to stop
  M->is_running = false;
#elif INTERF == 4  // a hash arrives
  fill_in(NIN - 1, NIN, NIN > INSLOTS ? NIN : INSLOTS);
  M->is_running = false;
#elif INTERF == 5  // signatures are fetched
  while (M->out_idx > 0) {
    M->out_idx--;
    M->out[M->out_idx].id = 0;
    M->out[M->out_idx].size = 0;
    M->out[M->out_idx].signing_error = false;
  }
#endif
#ifdef ALSO_STOP
  M->is_running = false;
#endif
}
static void
at_wait(void)
{
  if (at_wait_starts) {
    M->is_running = true;  // the worker has started
    return;
  }
  VF_CHECK(M->in_idx == 0, "the worker waits only when there is nothing to sign");
  M->is_running = false;
}

/* ---- sign ---- */
void
h_sign(void)
{
  VF_INPUT();
  setup();
  SignedVideoReturnCode rc = sign_hash(M, MYID, IN.hash, HSZ2);
  done();
  bool full = NIN >= LIMIT;
  bool wrong = !NOHASH && HSZ2 != HSZ;
  bool newslot = INSLOTS <= NIN;
  bool nomem = (NOHASH && NOMEM == 1) || (newslot && NOMEM == 1 + NOHASH);
  VF_CHECK((rc == SV_OK) == (!full && RUNNING && !wrong && !nomem), "a hash is taken exactly when it can be signed");
  if (full && RUNNING) VF_CHECK(rc == SV_NOT_SUPPORTED, "a full queue is reported");
  if (!full && !RUNNING) VF_CHECK(rc == SV_EXTERNAL_ERROR, "a stopped thread is reported");
  if (!full && RUNNING && wrong) VF_CHECK(rc == SV_NOT_SUPPORTED, "a hash of another size is refused");
  if (!full && RUNNING && !wrong && nomem) VF_CHECK(rc == SV_MEMORY, "failing memory is reported");
  same_out();
  for (int i = 0; i < NIN; i++) VF_CHECK(kept_in(i, i), "the hashes waiting stay in order");
  VF_CHECK(M->in_idx == NIN + (rc == SV_OK), "one more hash to sign, or none");
#if REPIN < 59
  if (rc == SV_OK) {
    VF_CHECK(M->in[NIN].id == MYID && M->in[NIN].size == HSZ2, "the hash is queued for its session");
    for (int j = 0; j < HSZ2; j++) VF_CHECK(M->in[NIN].hash[j] == IN.hash[j], "the hash is copied");
    VF_CHECK(n_signal > 0, "the worker is told");
    VF_CHECK(M->sign_data->hash_size == HSZ2, "the size is known");
  }
#endif
  VF_CHECK(owned_in((INSLOTS > NIN ? INSLOTS : NIN) + (rc == SV_OK && newslot)), "each slot has its own memory");
  VF_CHECK(n_sign == 0, "the caller does not sign");
  VF_REACH(true, "sign returned");
}

/* ---- get ---- */
void
h_get(void)
{
  VF_INPUT();
  setup();
  uint8_t out[MAXSIG + 2];
  for (int i = 0; i < MAXSIG + 2; i++) out[i] = IN.room[i];
  size_t written = 0;
  SignedVideoReturnCode err = SV_UNKNOWN_FAILURE;
  bool got = get_signature(M, MYID, out, ROOM, &written, &err);
  done();
  bool mine = RUNNING && NOUT > 0 && out_id(0) == MYID;
  bool fits = mine && !ERR0 && QSIZE(0) <= ROOM;
  VF_CHECK(got == fits, "a signature is handed out when the oldest is of this session");
  if (got) {
    VF_CHECK(written == QSIZE(0), "its size is given");
    for (int j = 0; j < QSIZE(0); j++) VF_CHECK(out[j] == IN.s[0][j], "the oldest signature is handed out");
    VF_CHECK(err == SV_OK, "no error");
  }
  if (!got) VF_CHECK(written == 0, "no size without a signature");
  if (!RUNNING || (mine && ERR0)) VF_CHECK(err == SV_EXTERNAL_ERROR, "a failed signing is reported");
  if (mine && !ERR0 && !fits) VF_CHECK(err != SV_OK, "too little memory is reported");
  if (RUNNING && !mine) VF_CHECK(err == SV_OK, "nothing to report");
  for (int j = fits ? QSIZE(0) : 0; j < MAXSIG + 2; j++) VF_CHECK(out[j] == IN.room[j], "nothing else is written");
  same_in();
  if (mine) {
    VF_CHECK(M->out_idx == NOUT - 1, "handed out once");
    for (int i = 0; i < NOUT - 1; i++) VF_CHECK(kept_out(i, i + 1), "the others stay in order");
  } else {
    same_out();
  }
  VF_CHECK(owned_out(OUTSLOTS > NOUT ? OUTSLOTS : NOUT), "each slot has its own memory");
  VF_REACH(true, "get returned");
}

/* ---- the worker: one hash ---- */
void
h_work(void)
{
  VF_INPUT();
  setup();
  if (CENTRAL)
    central_worker_thread(NULL);
  else
    local_worker_thread(M);
  done();
  VF_CHECK(n_signal >= 2, "start and end are told");
  VF_CHECK(!M->is_running && !M->is_in_signing, "the worker has ended");
#ifdef NONE
  VF_CHECK(n_wait == 1 && n_sign == 0, "nothing to sign");
  same_out();
#else
  VF_CHECK(n_sign == 1, "one hash is signed");
  for (int j = 0; j < HSZ; j++) VF_CHECK(signed_hash[j] == IN.h[0][j], "the oldest hash is signed");
  int nout = INTERF == 2 ? LIMIT : INTERF == 5 ? 0 : NOUT;
  bool gone = INTERF == 1, full = nout >= LIMIT;
  bool nomem = NOMEM == 1 && OUTSLOTS <= NOUT;
  if ((full && !CENTRAL) || (nomem && !gone && !full)) {
    VF_CHECK(M->in_idx == 0 && M->out_idx == 0, "a worker that cannot go on ends");
    VF_CHECK(n_live == (CENTRAL ? 6 : 0), "all memory is released");
    VF_CHECK(owned_in(0) && owned_out(0), "all memory is released");
  } else if (full) {
    /* central: the session loses what it has queued, others are not touched */
    int c = 0;
    for (int i = 1; i < NIN; i++)
      if (in_id(i) != MYID) {
        VF_CHECK(kept_in(c, i), "other sessions keep their hashes");
        c++;
      }
    VF_CHECK(M->in_idx == c, "other sessions keep their hashes");
    c = 0;
    for (int i = 0; i < NOUT; i++)
      if (out_id(i) != MYID) {
        VF_CHECK(kept_out(c, i), "other sessions keep their signatures");
        c++;
      }
    VF_CHECK(M->out_idx == c + LIMIT - NOUT, "other sessions keep their signatures");
  } else if (gone) {
    int c = 0;
    for (int i = 1; i < NIN; i++)
      if (in_id(i) != MYID) {
        VF_CHECK(kept_in(c, i), "other sessions keep their hashes");
        c++;
      }
    VF_CHECK(M->in_idx == c, "other sessions keep their hashes");
    c = 0;
    for (int i = 0; i < NOUT; i++)
      if (out_id(i) != MYID) {
        VF_CHECK(kept_out(c, i), "other sessions keep their signatures");
        c++;
      }
    VF_CHECK(M->out_idx == c, "a session that ended gets no signature");
  } else {
    VF_CHECK(M->in_idx == NIN - 1 + (INTERF == 4), "a hash leaves the queue when it is signed");
    for (int i = 0; i < NIN - 1; i++) VF_CHECK(kept_in(i, i + 1), "the other hashes stay in order");
    VF_CHECK(M->out_idx == nout + 1, "one signature per hash");
    for (int i = 0; i < nout; i++) VF_CHECK(kept_out(i, i), "the signatures waiting stay in order");
    VF_CHECK(M->out[nout].id == in_id(0), "the signature belongs to the session of the hash");
    VF_CHECK(M->out[nout].signing_error == (SIGNRC != 0), "failing to sign is told");
    if (!SIGNRC) {
      VF_CHECK(M->out[nout].size == SIGZ, "the signature is queued");
      for (int j = 0; j < SIGZ; j++) VF_CHECK(M->out[nout].signature[j] == IN.sig[j], "the signature is queued");
    }
    if (INTERF != 4) VF_CHECK(owned_in(INSLOTS > NIN ? INSLOTS : NIN), "each slot has its own memory");
  }
#endif
  VF_REACH(true, "worker returned");
}

/* ---- sessions of the central thread ---- */
void
h_reset(void)
{
  VF_INPUT();
  setup();
  central_threaded_data_t *c = block(sizeof(*c));
  c->id = MYID;
  int live = n_live;
  central_teardown(c);
  done();
  int k = 0;
  for (int i = 0; i < NIN; i++)
    if (in_id(i) != MYID) {
      VF_CHECK(kept_in(k, i), "other sessions keep their hashes in order");
      k++;
    }
  VF_CHECK(M->in_idx == k, "a session that ends takes its hashes with it");
  k = 0;
  for (int i = 0; i < NOUT; i++)
    if (out_id(i) != MYID) {
      VF_CHECK(kept_out(k, i), "other sessions keep their signatures in order");
      k++;
    }
  VF_CHECK(M->out_idx == k, "a session that ends takes its signatures with it");
  VF_CHECK(owned_in(INSLOTS > NIN ? INSLOTS : NIN) && owned_out(OUTSLOTS > NOUT ? OUTSLOTS : NOUT), "each slot has its own memory");
  VF_CHECK(!listed(MYID), "the session is gone");
  if (MYID != 1) VF_CHECK(listed(1), "other sessions stay");
  if (MYID != 2) VF_CHECK(listed(2), "other sessions stay");
  VF_CHECK(n_live == live - 1 - (MYID == 1 || MYID == 2), "its memory is released");
  VF_REACH(true, "teardown returned");
}
void
h_setup(void)
{
  VF_INPUT();
  setup();
  VF_REACH(true, "setup");
  VF_ASSUME(IN.ids[0] != 0 && IN.ids[1] != 0 && IN.ids[0] != IN.ids[1]);
  nodes[1]->id = IN.ids[0];
  nodes[2]->id = IN.ids[1];
  last_added_id = IN.last;
  int live = n_live;
  central_threaded_data_t *c = central_setup();
  done();
  VF_CHECK((c != NULL) == (RUNNING && NOMEM == 0), "a session is created when it can be");
#if RUNNING && NOMEM == 0
  VF_CHECK(c->id != 0 && c->id != IN.ids[0] && c->id != IN.ids[1], "no two sessions have the same identity");
  VF_CHECK(id_list == nodes[0] && nodes[0]->next == nodes[1] && nodes[1]->next == nodes[2] && nodes[2]->next && nodes[2]->next->id == c->id && !nodes[2]->next->next && nodes[2]->next->prev == nodes[2], "the session is added to the active ones");
  VF_CHECK(n_live == live + 2, "memory of a session");
  VF_REACH(IN.last == 0xffffffffu, "identities wrap around");
  VF_REACH(IN.last + 1 == IN.ids[0], "an identity is in use");
#else
  VF_CHECK(n_live == live && !nodes[2]->next, "a session that is not created leaves nothing");
  VF_REACH(true, "no session");
#endif
}

/* ---- life of the plugin ---- */
#ifndef B1
#define B1 0
#endif
#ifndef INSIGN
#define INSIGN 0
#endif
void
h_local(void)
{
  VF_INPUT();
  lock_model = 0;
  at_wait_starts = 1;
  static threaded_data_t guess;
  M = &guess;
  sv_threaded_plugin_t *p = sv_signing_plugin_session_setup(B1 ? NULL : IN.hash, B1 ? 0 : 2);
  bool ok = !B1 && !SIGNRC && !NOMEM && !NOTHREAD;
  VF_CHECK((p != NULL) == ok, "a session is created when its key can be used and a thread started");
  if (!p) {
    VF_CHECK(n_live == 0, "a session that is not created leaves nothing");
    VF_CHECK(n_thread == 0, "no thread is left");
  }
#if !SIGNRC && !NOMEM && !NOTHREAD && !B1
  if (p) {
    VF_CHECK(p->local && !p->central && p->local->is_running && !held && n_thread == 1, "the worker has started");
    VF_CHECK(p->local->in_idx == 0 && p->local->out_idx == 0, "a new session has nothing to sign");
    VF_CHECK(sv_signing_plugin_sign(p, IN.hash, HSZ2) == SV_OK, "a new session takes hashes");
    p->local->is_in_signing = INSIGN;
    sv_signing_plugin_session_teardown(p);
    VF_CHECK(n_join == 1 && n_keyfree == 1 && !held, "the worker has ended before its data is released");
    VF_CHECK(n_live == 0, "all memory is released");
  }
  VF_REACH(p != NULL, "a session");
#endif
  VF_REACH(p == NULL || ok, "returned");
}
#ifndef NEWINIT
#define NEWINIT 0
#endif
void
h_central(void)
{
  VF_INPUT();
  lock_model = 0;
  at_wait_starts = 1;
  M = &central;
  pem_pkey_t pem = {IN.hash, HSZ2};
  signature_info_t info = {0};
  info.private_key = IN.hash;
  info.private_key_size = HSZ2;
  int rc = NEWINIT ? sv_signing_plugin_init_new(&pem) : sv_signing_plugin_init(&info);
  VF_CHECK((rc == 0) == (!SIGNRC && !NOMEM && !NOTHREAD), "the central thread is started when it can be");
#if !SIGNRC && !NOMEM && !NOTHREAD
  VF_CHECK(central.is_running && n_thread == 1 && !held, "the worker has started");
  VF_CHECK((NEWINIT ? sv_signing_plugin_init_new(&pem) : sv_signing_plugin_init(&info)) != 0 && n_thread == 1, "there is one central thread");
  sv_threaded_plugin_t *p = sv_signing_plugin_session_setup(NULL, 0), *q = sv_signing_plugin_session_setup(NULL, 0);
  VF_CHECK(p && q && p->central && q->central && !p->local, "sessions use the central thread");
  VF_CHECK(p->central->id != q->central->id, "sessions have different identities");
  VF_CHECK(sv_signing_plugin_sign(p, IN.hash, HSZ2) == SV_OK, "a new session takes hashes");
  VF_CHECK(central.in_idx == 1 && central.in[0].id == p->central->id, "for its own identity");
  if (B1) {
    sv_signing_plugin_session_teardown(p);
    sv_signing_plugin_session_teardown(q);
  }
  sv_signing_plugin_exit(NULL);
  if (!B1) {
    VF_CHECK(sv_signing_plugin_sign(p, IN.hash, HSZ2) != SV_OK, "nothing is signed after exit");
    sv_signing_plugin_session_teardown(p);
    sv_signing_plugin_session_teardown(q);
  }
  VF_CHECK(n_join == 1 && n_keyfree == 1 && !held, "the worker has ended before its data is released");
  VF_REACH(true, "ended");
#else
  VF_CHECK(!central.sign_data && !id_list && n_thread == 0, "a thread that is not started leaves nothing");
  VF_REACH(true, "not started");
#endif
  VF_CHECK(n_live == 0, "all memory is released");
}
