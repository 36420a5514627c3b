/* Contracts on signed_video_openssl.c.  The functions of OpenSSL are contract stubs: each may fail in every
 * way its documentation allows, and ghost state records what it was called with. */
#include "vf.h"
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include "includes/signed_video_openssl.h"
#include "signed_video_defines.h"
#include "signed_video_internal.h"
#include "signed_video_openssl_internal.h"

#ifndef OIDLEN
#define OIDLEN 3
#endif
#ifndef PEMLEN
#define PEMLEN 5
#endif
#ifndef MAXSIG
#define MAXSIG 9
#endif
struct vf_in {
  uint8_t oid[OIDLEN], oid2[OIDLEN], data[6], out[64], pem[PEMLEN], hash[8], sig[MAXSIG];
  uint64_t siglen1, siglen2, max, hsize, sigsize;
  int rc_verify, rc_sign1, rc_sign2, rc_digest, rc_init, rc_update, rc_final, rc_padding, rc_md, rc_pinit, rc_write;
  int keysize, base, oidsize, bioget;
  uint32_t dsize;
  uint8_t mdsize[2];
  uint8_t st_type, st_ctx[2], new_type;
  bool no_sig : 1, no_hash : 1, no_key : 1, no_data : 1, no_out : 1, no_res : 1, bad_obj : 1, bad_md : 1, bad_ctx : 1, bad_key : 1, bad_file : 1, bad_bio : 1, null_name : 1, primary : 1, no_oid : 1, same : 1, had_key : 1, nomem : 1, bad_der : 1;
} IN;

static int nalloc;
static void *
vf_malloc(size_t n)
{
  nalloc++;
  if (IN.nomem) return NULL;
  void *p = malloc(n);
  VF_ASSUME(p);
  return p;
}
#define malloc vf_malloc

/* ---- message digests: two algorithms ---- */
static int md[2];
#define MD(i) ((const EVP_MD *)&md[i])
static int
md_index(const EVP_MD *t)
{
  return t == MD(0) ? 0 : t == MD(1) ? 1 : -1;
}
int
EVP_MD_get_size(const EVP_MD *t)
{
  return IN.mdsize[md_index(t) == 1];
}
static struct ctx {
  int type;  // -1: none
  bool live, open;
  const uint8_t *fed;
  size_t fed_size;
} ctxs[4];
static int nctx;
static struct ctx *
live(EVP_MD_CTX *c)
{
  struct ctx *x = (struct ctx *)c;
  VF_CHECK(x->live, "no hashing context is used after it was freed");
  return x;
}
EVP_MD_CTX *
EVP_MD_CTX_new(void)
{
  if (IN.bad_ctx || nctx >= 4) return NULL;
  ctxs[nctx].type = -1;
  ctxs[nctx].live = true;
  return (EVP_MD_CTX *)&ctxs[nctx++];
}
void
EVP_MD_CTX_free(EVP_MD_CTX *c)
{
  if (c) live(c)->live = false;
}
static int ninit;
static struct ctx *init_ctx;
int
EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e)
{
  struct ctx *x = live(c);
  ninit++;
  init_ctx = x;
  if (t) x->type = md_index(t);
  if (x->type < 0 || IN.rc_init != 1) return 0;
  x->open = true;
  x->fed_size = 0;
  return 1;
}
int
EVP_DigestUpdate(EVP_MD_CTX *c, const void *d, size_t n)
{
  struct ctx *x = live(c);
  if (IN.rc_update != 1) return IN.rc_update;
  x->fed = d;
  x->fed_size += n;
  return 1;
}
static int final_type = -2;
static struct ctx *final_ctx;
int
EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *out, unsigned *n)
{
  struct ctx *x = live(c);
  final_ctx = x;
  final_type = x->type;
  if (IN.rc_final != 1) return IN.rc_final;
  if (n) *n = IN.dsize;
  for (int i = 0; i < 8; i++) out[i] = IN.out[i];
  return 1;
}
static const void *dg_data;
static size_t dg_size;
static const EVP_MD *dg_type;
int
EVP_Digest(const void *d, size_t n, unsigned char *out, unsigned *size, const EVP_MD *t, ENGINE *e)
{
  dg_data = d;
  dg_size = n;
  dg_type = t;
  if (IN.rc_digest != 1) return IN.rc_digest;
  for (int i = 0; i < 8; i++) out[i] = IN.out[i];
  if (size) *size = IN.dsize;
  return 1;
}
/* ---- algorithms by name and OID ---- */
static int obj;
static const char *asked_name;
static const unsigned char *der_in;
static long der_size;
ASN1_OBJECT *
OBJ_txt2obj(const char *s, int no_name)
{
  asked_name = s;
  VF_CHECK(no_name == 0, "names and OIDs are accepted");
  return IN.bad_obj ? NULL : (ASN1_OBJECT *)&obj;
}
int
OBJ_obj2nid(const ASN1_OBJECT *o)
{
  return 7;
}
const char *
OBJ_nid2sn(int n)
{
  return "x";
}
const EVP_MD *
EVP_get_digestbyname(const char *n)
{
  return IN.bad_md ? NULL : MD(IN.new_type & 1);
}
int
i2d_ASN1_OBJECT(const ASN1_OBJECT *o, unsigned char **out)
{
  if (IN.oidsize <= 0) return IN.oidsize;
  unsigned char *p = (malloc)(OIDLEN);
  VF_ASSUME(p);
  for (int i = 0; i < OIDLEN; i++) p[i] = IN.oid2[i];
  *out = p;
  return OIDLEN;
}
static int nobjfree;
ASN1_OBJECT *
d2i_ASN1_OBJECT(ASN1_OBJECT **a, const unsigned char **in, long n)
{
  der_in = *in;
  der_size = n;
  if (IN.bad_der) return NULL;
  *a = (ASN1_OBJECT *)&obj;
  return *a;
}
void
ASN1_OBJECT_free(ASN1_OBJECT *o)
{
  nobjfree++;
}
int
OBJ_obj2txt(char *buf, int n, const ASN1_OBJECT *o, int no_name)
{
  VF_CHECK(n <= 50, "within the memory of the name");
  buf[n - 1] = 0;
  return 1;
}
/* ---- keys ---- */
static int key1, pctx_new, pctx_old, bio;
static int nkeyfree, nctxfree_old, nctxfree_new, nbiofree;
static const void *bio_buf;
static int bio_len;
static char written[PEMLEN];
BIO *
BIO_new_mem_buf(const void *b, int n)
{
  bio_buf = b;
  bio_len = n;
  return (BIO *)&bio;
}
BIO *
BIO_new(const BIO_METHOD *t)
{
  return IN.bad_bio ? NULL : (BIO *)&bio;
}
const BIO_METHOD *
BIO_s_mem(void)
{
  return NULL;
}
int
BIO_free(BIO *b)
{
  if (b) nbiofree++;
  return 1;
}
long
BIO_ctrl(BIO *b, int cmd, long l, void *p)
{
  VF_CHECK(cmd == BIO_CTRL_INFO && b, "memory of a BIO");
  for (int i = 0; i < PEMLEN; i++) written[i] = (char)IN.pem[i];
  *(char **)p = IN.bioget > 0 ? written : NULL;
  return IN.bioget > 0 ? PEMLEN : 0;
}
EVP_PKEY *
PEM_read_bio_PrivateKey(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u)
{
  return IN.bad_key ? NULL : (EVP_PKEY *)&key1;
}
EVP_PKEY *
PEM_read_bio_PUBKEY(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u)
{
  return IN.bad_key ? NULL : (EVP_PKEY *)&key1;
}
static EVP_PKEY *wrote_key;
int
PEM_write_bio_PUBKEY(BIO *b, const EVP_PKEY *x)
{
  wrote_key = (EVP_PKEY *)x;
  return IN.rc_write > 0;
}
int
PEM_write_bio_PrivateKey(BIO *b, const EVP_PKEY *x, const EVP_CIPHER *e, const unsigned char *s, int n, pem_password_cb *cb, void *u)
{
  wrote_key = (EVP_PKEY *)x;
  return IN.rc_write > 0;
}
static int nfilewrite;
int
PEM_write_PrivateKey(FILE *f, const EVP_PKEY *x, const EVP_CIPHER *e, const unsigned char *s, int n, pem_password_cb *cb, void *u)
{
  nfilewrite++;
  return IN.rc_final > 0;
}
int
EVP_PKEY_get_size(const EVP_PKEY *k)
{
  return IN.keysize;
}
int
EVP_PKEY_get_base_id(const EVP_PKEY *k)
{
  return IN.base ? EVP_PKEY_RSA : 408;
}
EVP_PKEY_CTX *
EVP_PKEY_CTX_new(EVP_PKEY *k, ENGINE *e)
{
  VF_CHECK(k == (EVP_PKEY *)&key1, "the key that was read");
  return IN.bad_ctx ? NULL : (EVP_PKEY_CTX *)&pctx_new;
}
void
EVP_PKEY_CTX_free(EVP_PKEY_CTX *c)
{
  if (c == (EVP_PKEY_CTX *)&pctx_old) nctxfree_old++;
  if (c == (EVP_PKEY_CTX *)&pctx_new) nctxfree_new++;
}
void
EVP_PKEY_free(EVP_PKEY *k)
{
  if (k) nkeyfree++;
}
EVP_PKEY *
EVP_PKEY_CTX_get0_pkey(EVP_PKEY_CTX *c)
{
  return IN.bad_key ? NULL : (EVP_PKEY *)&key1;
}
static int init_for;  // 1 sign, 2 verify
int
EVP_PKEY_sign_init(EVP_PKEY_CTX *c)
{
  init_for = 1;
  return IN.rc_pinit;
}
int
EVP_PKEY_verify_init(EVP_PKEY_CTX *c)
{
  init_for = 2;
  return IN.rc_pinit;
}
static int pad, padset, mdset;
int
EVP_PKEY_CTX_set_rsa_padding(EVP_PKEY_CTX *c, int p)
{
  pad = p;
  padset++;
  return IN.rc_padding;
}
const EVP_MD *
EVP_sha256(void)
{
  return MD(0);
}
static const EVP_MD *sigmd;
int
EVP_PKEY_CTX_set_signature_md(EVP_PKEY_CTX *c, const EVP_MD *m)
{
  sigmd = m;
  mdset++;
  return IN.rc_md;
}
EVP_PKEY *
EVP_PKEY_Q_keygen(OSSL_LIB_CTX *l, const char *p, const char *t, ...)
{
  return IN.bad_key ? NULL : (EVP_PKEY *)&key1;
}
const char *
OSSL_EC_curve_nid2name(int n)
{
  return "P-256";
}
static int nsign, nverify;
static bool args_ok;
int
EVP_PKEY_sign(EVP_PKEY_CTX *c, unsigned char *sig, size_t *n, const unsigned char *h, size_t hn)
{
  args_ok = c == (EVP_PKEY_CTX *)&pctx_old && h == IN.hash && hn == IN.hsize;
  VF_CHECK(args_ok, "the hash and key given are used");
  nsign++;
  if (!sig) {
    if (IN.rc_sign1 <= 0) return IN.rc_sign1;
    *n = IN.siglen1;
    return 1;
  }
  /* OpenSSL refuses when |n| is too small, and may write fewer bytes than announced */
  if (IN.rc_sign2 <= 0 || *n < IN.siglen2) return 0;
  VF_CHECK(*n <= IN.max, "the signature stays within its memory");
  for (size_t i = 0; i < MAXSIG; i++)
    if (i < IN.siglen2) sig[i] = IN.sig[i];
  *n = IN.siglen2;
  return 1;
}
int
EVP_PKEY_verify(EVP_PKEY_CTX *c, const unsigned char *sig, size_t n, const unsigned char *h, size_t hn)
{
  nverify++;
  args_ok = c == (EVP_PKEY_CTX *)&pctx_old && sig == IN.sig && n == IN.sigsize && h == IN.hash && hn == IN.hsize;
  return IN.rc_verify;
}
#ifdef VF_CBMC
char *
strstr(const char *a, const char *b)  // used by a macro of OpenSSL on the name of the curve
{
  return NULL;
}
#endif
static int nopen, nclose, nunlink;
static FILE *
vf_fopen(const char *p, const char *m)
{
  nopen++;
  return IN.bad_file ? NULL : (FILE *)&bio;
}
static int
vf_fclose(FILE *f)
{
  nclose++;
  return 0;
}
static int
vf_unlink(const char *p)
{
  nunlink++;
  return 0;
}
#define fopen vf_fopen
#define fclose vf_fclose
#define unlink vf_unlink
#include <unistd.h>
#include "signed_video_openssl.c"
#undef fopen
#undef fclose
#undef unlink
#undef malloc

/* A signature is verified only if OpenSSL says so for exactly the hash, signature and key given. */
void
h_verify(void)
{
  VF_INPUT();
  sign_or_verify_data_t d = {0};
  d.hash = IN.no_hash ? NULL : IN.hash;
  d.hash_size = IN.hsize;
  d.key = IN.no_key ? NULL : &pctx_old;
  d.signature = IN.no_sig ? NULL : IN.sig;
  d.signature_size = IN.sigsize;
  int result = 1;
  const svrc_t rc = openssl_verify_hash(IN.no_data ? NULL : &d, IN.no_res ? NULL : &result);
  if (IN.no_data || IN.no_res) {
    VF_CHECK(rc == SV_INVALID_PARAMETER && nverify == 0, "parameters");
  } else if (IN.no_hash || IN.no_key || IN.no_sig || IN.sigsize == 0) {
    VF_CHECK(rc == SV_INVALID_PARAMETER && nverify == 0 && result < 0, "what cannot be verified is not verified");
  } else {
    VF_CHECK(rc == SV_OK && nverify == 1 && args_ok, "verified with what was given");
    VF_CHECK((result == 1) == (IN.rc_verify == 1) && (result == 0) == (IN.rc_verify == 0) && (result < 0) == (IN.rc_verify < 0), "the result is that of the verification");
  }
  VF_REACH(rc == SV_OK && result == 1, "verified");
  VF_REACH(rc == SV_OK && result == 0, "not verified");
  VF_REACH(rc != SV_OK, "not possible");
}
void
h_sign(void)
{
  VF_INPUT();
  VF_ASSUME(IN.max <= MAXSIG && IN.siglen2 <= IN.siglen1);
  sign_or_verify_data_t d = {0};
  uint8_t mem[MAXSIG];
  for (int i = 0; i < MAXSIG; i++) mem[i] = 0xa5;
  d.hash = IN.hash;
  d.hash_size = IN.hsize;
  d.key = IN.no_key ? NULL : &pctx_old;
  d.signature = IN.no_sig ? NULL : mem;
  d.max_signature_size = IN.max;
  d.signature_size = 77;
  const svrc_t rc = openssl_sign_hash(IN.no_data ? NULL : &d);
  const bool ok = !IN.no_data && !IN.no_key && !IN.no_sig && IN.max > 0;
  if (!ok) VF_CHECK(rc == SV_INVALID_PARAMETER && nsign == 0, "parameters");
  else VF_CHECK((rc == SV_OK) == (IN.rc_sign1 > 0 && IN.siglen1 <= IN.max && IN.rc_sign2 > 0), "signed only if OpenSSL signed and the signature fits");
  if (rc == SV_OK) {
    VF_CHECK(d.signature_size == IN.siglen2, "the size is what was written");
    for (size_t i = 0; i < MAXSIG; i++)
      if (i < IN.siglen2) VF_CHECK(mem[i] == IN.sig[i], "signature");
  } else VF_CHECK(d.signature_size == 77, "no signature");
  for (size_t i = 0; i < MAXSIG; i++)
    if (i >= IN.max) VF_CHECK(mem[i] == 0xa5, "nothing is written outside");
  VF_REACH(rc == SV_OK, "signed");
  VF_REACH(rc != SV_OK && ok, "failed");
}

/* ---- hashing: an invariant of the handle, kept by every operation ---- */
static openssl_crypto_t *H;
static int T;  // the algorithm in force
static uint8_t *oid0;
static struct ctx *c0[2];
#ifndef ST_OID
#define ST_OID 1  // is the OID known
#endif
static void
handle(void)
{
  H = calloc(1, sizeof(*H));
  VF_ASSUME(H);
  T = IN.st_type & 1;
  H->hash_algo.type = MD(T);
  VF_ASSUME(IN.mdsize[0] >= 1 && IN.mdsize[1] >= 1);
  H->hash_algo.size = IN.mdsize[T];
  for (int i = 0; i < 2; i++) {
    struct ctx *c = NULL;
    if ((IN.st_ctx[i] & 3) != 0) {
      c = &ctxs[nctx++];
      c->live = true;
      c->type = (IN.st_ctx[i] & 3) == 1 ? -1 : T;
      c->open = (IN.st_ctx[i] & 3) == 3;
    }
    c0[i] = c;
  }
  H->primary_ctx = (EVP_MD_CTX *)c0[0];
  H->secondary_ctx = (EVP_MD_CTX *)c0[1];
#if ST_OID
  oid0 = malloc(OIDLEN);
  VF_ASSUME(oid0);
  for (int i = 0; i < OIDLEN; i++) oid0[i] = IN.oid[i];
  H->hash_algo.encoded_oid = oid0;
  H->hash_algo.encoded_oid_size = OIDLEN;
#else
  if (IN.same) H->hash_algo.type = NULL;  // after an OID that is no hash
#endif
}
static bool
ctx_inv(const EVP_MD_CTX *e, int t)
{
  const struct ctx *c = (const struct ctx *)e;
  return !c || (c->live && (c->type == -1 || c->type == t));
}
static void
inv(int t)
{
  VF_CHECK(H->hash_algo.type == MD(t) || (!H->hash_algo.type && !H->hash_algo.encoded_oid), "one hash algorithm is in force");
  VF_CHECK(H->hash_algo.size == IN.mdsize[t], "the hash size is that of the algorithm in force");
  VF_CHECK(ctx_inv(H->primary_ctx, t) && ctx_inv(H->secondary_ctx, t), "every hashing context uses the algorithm in force");
  VF_CHECK(!H->primary_ctx || H->primary_ctx != H->secondary_ctx, "the contexts are separate");
  VF_CHECK((H->hash_algo.encoded_oid != NULL) == (H->hash_algo.encoded_oid_size > 0), "OID and its size");
}
void
h_hash_ops(void)
{
  VF_INPUT();
  handle();
  uint8_t out[64];
  const int k = IN.primary ? 0 : 1;
  struct ctx *c = c0[k];
  const EVP_MD *type0 = H->hash_algo.type;
  svrc_t rc;
#if OP == 0
  rc = openssl_hash_data(H, IN.no_data ? NULL : IN.data, IN.hsize, IN.no_out ? NULL : out);
  if (rc == SV_OK) {
    VF_CHECK(dg_data == IN.data && dg_size == IN.hsize && dg_type == MD(T), "the hash of exactly the data given, with the algorithm in force");
    VF_CHECK(IN.rc_digest == 1 && IN.dsize == IN.mdsize[T], "failures are returned");
    for (int i = 0; i < 8; i++) VF_CHECK(out[i] == IN.out[i], "hash");
  } else VF_CHECK(IN.no_data || IN.hsize == 0 || IN.no_out || IN.rc_digest != 1 || IN.dsize != IN.mdsize[T] || !type0, "no failure without reason");
#elif OP == 1
  rc = openssl_init_hash(IN.no_data ? NULL : H, IN.primary);
  if (rc == SV_OK) {
    struct ctx *n = (struct ctx *)(k == 0 ? H->primary_ctx : H->secondary_ctx);
    VF_CHECK(n && n == init_ctx && n->open && n->type == T && n->fed_size == 0, "a new hash is started with the algorithm in force");
  } else VF_CHECK(IN.no_data || IN.rc_init != 1 || (!c && (IN.bad_ctx || !type0)) || (c && c->type < 0), "no failure without reason");
  VF_CHECK((k == 0 ? (struct ctx *)H->secondary_ctx : (struct ctx *)H->primary_ctx) == c0[1 - k], "the other context is left alone");
#elif OP == 2
  rc = openssl_update_hash(IN.no_out ? NULL : H, IN.no_data ? NULL : IN.data, IN.hsize, IN.primary);
  if (rc == SV_OK) VF_CHECK(c && c->fed == IN.data && c->fed_size == IN.hsize && IN.rc_update == 1, "exactly the data given is added");
  else VF_CHECK(IN.no_out || IN.no_data || IN.hsize == 0 || !c || IN.rc_update != 1, "no failure without reason");
#elif OP == 3
  rc = openssl_finalize_hash(IN.no_data ? NULL : H, IN.no_out ? NULL : out, IN.primary);
  if (rc == SV_OK) {
    VF_CHECK(c && final_ctx == c && IN.rc_final == 1 && IN.dsize <= MAX_HASH_SIZE, "failures are returned");
    for (int i = 0; i < 8; i++) VF_CHECK(out[i] == IN.out[i], "hash");
  } else VF_CHECK(IN.no_data || IN.no_out || !c || IN.rc_final != 1 || IN.dsize > MAX_HASH_SIZE, "no failure without reason");
#endif
  inv(T);
  VF_REACH(rc == SV_OK, "done");
  VF_REACH(rc != SV_OK, "failed");
}
/* The hash algorithm is set by name. */
void
h_set_algo(void)
{
  VF_INPUT();
  handle();
  const int want = IN.new_type & 1;
  const svrc_t rc = openssl_set_hash_algo(IN.no_data ? NULL : H, IN.null_name ? NULL : "md");
  const bool known = !IN.no_data && !IN.bad_obj && !IN.bad_md && IN.oidsize > 0;
  if (!known) {
    VF_CHECK(rc != SV_OK, "an unknown algorithm is refused");
    VF_CHECK((struct ctx *)H->primary_ctx == c0[0] && (struct ctx *)H->secondary_ctx == c0[1] && H->hash_algo.encoded_oid == oid0, "and changes nothing");
    inv(T);
  } else {
    VF_CHECK((rc == SV_OK) == (!IN.bad_ctx && IN.rc_init == 1), "failures are returned");
    inv(want);
    VF_CHECK(H->hash_algo.type == MD(want), "the algorithm asked for is in force");
    VF_CHECK(H->hash_algo.encoded_oid && H->hash_algo.encoded_oid_size == OIDLEN, "its OID is known");
    for (int i = 0; i < OIDLEN; i++) VF_CHECK(H->hash_algo.encoded_oid[i] == IN.oid2[i], "its OID is known");
    size_t n = 0;
    VF_CHECK(openssl_get_hash_algo_encoded_oid(H, &n) == H->hash_algo.encoded_oid && n == OIDLEN, "its OID can be fetched");
    VF_CHECK(openssl_get_hash_size(H) == IN.mdsize[want], "its size can be fetched");
    if (rc == SV_OK) VF_CHECK(H->secondary_ctx && ((struct ctx *)H->secondary_ctx)->type == want, "hashing is ready");
  }
  if (!IN.no_data) VF_CHECK(asked_name && asked_name[0] == (IN.null_name ? 's' : 'm'), "by name, by default SHA-256");
  VF_REACH(rc == SV_OK, "set");
  VF_REACH(rc != SV_OK, "refused");
}
/* The hash algorithm is set by the OID found in a stream. */
#ifndef NEWLEN
#define NEWLEN OIDLEN
#endif
void
h_set_oid(void)
{
  VF_INPUT();
  handle();
  uint8_t in[NEWLEN + 1];
  bool same = ST_OID && NEWLEN == OIDLEN;
  for (int i = 0; i < NEWLEN; i++) {
    in[i] = i < OIDLEN ? IN.oid2[i] : 1;
    same = same && in[i] == IN.oid[i % OIDLEN];
  }
  const int want = IN.new_type & 1;
  const svrc_t rc = openssl_set_hash_algo_by_encoded_oid(IN.no_data ? NULL : H, IN.no_oid ? NULL : in, NEWLEN);
  if (IN.no_data || IN.no_oid || NEWLEN == 0) {
    VF_CHECK(rc == SV_INVALID_PARAMETER && H->hash_algo.encoded_oid == oid0, "parameters");
    inv(T);
  } else if (same) {
    VF_CHECK(rc == SV_OK && (struct ctx *)H->primary_ctx == c0[0] && (struct ctx *)H->secondary_ctx == c0[1] && H->hash_algo.encoded_oid == oid0 && H->hash_algo.type == MD(T), "the same algorithm changes nothing");
    inv(T);
  } else {
    VF_CHECK((rc == SV_OK) == (!IN.nomem && !IN.bad_der && !IN.bad_md && !IN.bad_ctx && IN.rc_init == 1), "failures are returned");
    if (rc == SV_OK) {
      inv(want);
      VF_CHECK(der_size == NEWLEN, "the whole OID is looked up");
      VF_CHECK(H->hash_algo.type == MD(want) && H->secondary_ctx && ((struct ctx *)H->secondary_ctx)->type == want, "the algorithm of the stream is in force");
      VF_CHECK(H->hash_algo.encoded_oid && H->hash_algo.encoded_oid_size == NEWLEN && H->hash_algo.encoded_oid != in, "its OID is copied");
      for (int i = 0; i < NEWLEN; i++) VF_CHECK(H->hash_algo.encoded_oid[i] == in[i], "its OID is copied");
    } else {
      VF_CHECK(!H->hash_algo.encoded_oid && H->hash_algo.encoded_oid_size == 0, "an OID that could not be set is not remembered");
      inv(H->hash_algo.type == MD(want) ? want : T);
    }
  }
  VF_REACH(rc == SV_OK || NEWLEN == 0, "set");
  VF_REACH(rc != SV_OK, "refused");
}
void
h_handle(void)
{
  VF_INPUT();
  VF_ASSUME(IN.mdsize[0] >= 1 && IN.mdsize[1] >= 1);
  H = openssl_create_handle();
  const bool ok = !IN.bad_obj && !IN.bad_md && IN.oidsize > 0 && !IN.bad_ctx && IN.rc_init == 1;
  VF_CHECK((H != NULL) == ok, "a handle is created only if hashing is possible");
  if (H) {
    inv(IN.new_type & 1);
    VF_CHECK(!H->primary_ctx && H->hash_algo.encoded_oid, "a new handle");
    openssl_free_handle(H);
  }
  openssl_free_handle(NULL);
  VF_CHECK(openssl_get_hash_size(NULL) == 0, "no handle, no size");
  VF_REACH(ok, "created");
  VF_REACH(!ok, "not created");
}

/* Keys: taken over completely or not at all. */
void
h_private_key(void)
{
  VF_INPUT();
  VF_ASSUME(IN.keysize >= 0 && IN.keysize <= 64);
  sign_or_verify_data_t d = {0};
  uint8_t *old = malloc(4);
  VF_ASSUME(old);
  if (!IN.no_sig) {
    d.signature = old;
    d.max_signature_size = 4;
  }
  const svrc_t rc = openssl_private_key_malloc(IN.no_data ? NULL : &d, IN.no_key ? NULL : (const char *)IN.pem, IN.hsize & 0xff);
  const bool ok = !IN.no_data && !IN.no_key && (IN.hsize & 0xff) > 0;
  if (!ok) VF_CHECK(rc == SV_INVALID_PARAMETER, "parameters");
  else {
    const bool rsa = IN.base != 0;
    const bool good = !IN.bad_key && IN.keysize > 0 && !IN.nomem && !IN.bad_ctx && IN.rc_pinit > 0 && (!rsa || (IN.rc_padding > 0 && IN.rc_md > 0));
    VF_CHECK((rc == SV_OK) == good, "failures are returned");
    VF_CHECK(bio_buf == IN.pem && bio_len == (int)(IN.hsize & 0xff) && nbiofree == 1, "the key given is read");
    VF_CHECK(nkeyfree == !IN.bad_key, "the key is not kept outside of its context");
    if (rc == SV_OK) {
      VF_CHECK(d.key == &pctx_new && nctxfree_new == 0 && init_for == 1, "the key is ready to sign");
      VF_CHECK(d.signature && d.signature != old && d.max_signature_size == (size_t)IN.keysize, "memory for the largest signature of the key");
      for (int i = 0; i < 64; i++)
        if (i < IN.keysize) d.signature[i] = 1;
      if (rsa) VF_CHECK(padset == 1 && pad == RSA_PKCS1_PADDING && mdset == 1 && sigmd == MD(0), "PKCS#1 padding with SHA-256");
    } else {
      VF_CHECK(!d.key && nctxfree_new == (!IN.bad_ctx && !IN.bad_key && IN.keysize > 0 && !IN.nomem), "no key");
    }
  }
  if (rc != SV_OK && !IN.no_sig) {
    VF_CHECK(d.signature == old && d.max_signature_size == 4, "a key that could not be set changes nothing");
    old[3] = 1;
  }
  VF_REACH(rc == SV_OK, "set");
  VF_REACH(rc != SV_OK && ok, "failed");
}
void
h_public_key(void)
{
  VF_INPUT();
  sign_or_verify_data_t d = {0};
  pem_pkey_t pem = {IN.no_key ? NULL : IN.pem, IN.hsize & 0xff};
  d.key = IN.had_key ? &pctx_old : NULL;
  const svrc_t rc = openssl_public_key_malloc(IN.no_data ? NULL : &d, IN.no_out ? NULL : &pem);
  const bool ok = !IN.no_data && !IN.no_out && !IN.no_key && (IN.hsize & 0xff) > 0;
  const bool rsa = IN.base != 0;
  const bool good = !IN.bad_key && !IN.bad_ctx && IN.rc_pinit > 0 && (!rsa || (IN.rc_padding > 0 && IN.rc_md > 0));
  if (!ok) VF_CHECK(rc == SV_INVALID_PARAMETER, "parameters");
  else VF_CHECK((rc == SV_OK) == good, "failures are returned");
  if (ok) VF_CHECK(bio_buf == IN.pem && bio_len == (int)(IN.hsize & 0xff) && nbiofree == 1 && nkeyfree == !IN.bad_key, "the key given is read");
  if (rc == SV_OK) {
    VF_CHECK(d.key == &pctx_new && nctxfree_new == 0 && init_for == 2, "the key is ready to verify");
    VF_CHECK(nctxfree_old == IN.had_key, "the old key is released");
    if (rsa) VF_CHECK(padset == 1 && pad == RSA_PKCS1_PADDING && mdset == 1 && sigmd == MD(0), "PKCS#1 padding with SHA-256");
  } else VF_CHECK(d.key == (IN.had_key ? &pctx_old : NULL) && nctxfree_old == 0, "a key that could not be set changes nothing");
  VF_REACH(rc == SV_OK, "set");
  VF_REACH(rc != SV_OK && ok, "failed");
}
void
h_read_pubkey(void)
{
  VF_INPUT();
  sign_or_verify_data_t d = {0};
  pem_pkey_t pem = {0};
  char *old = malloc(3);
  VF_ASSUME(old);
  if (IN.had_key) {
    pem.key = old;
    pem.key_size = 3;
  }
  d.key = IN.no_key ? NULL : &pctx_old;
  const svrc_t rc = openssl_read_pubkey_from_private_key(IN.no_data ? NULL : &d, &pem);
  const bool good = !IN.no_data && !IN.no_key && !IN.bad_key && !IN.bad_bio && IN.rc_write > 0 && IN.bioget > 0 && !IN.nomem;
  VF_CHECK((rc == SV_OK) == good, "failures are returned");
  if (rc == SV_OK) {
    VF_CHECK(wrote_key == (EVP_PKEY *)&key1 && pem.key && pem.key != (void *)written && pem.key_size == PEMLEN, "a copy of the public key");
    for (int i = 0; i < PEMLEN; i++) VF_CHECK(((uint8_t *)pem.key)[i] == IN.pem[i], "the public key of the private key");
  } else VF_CHECK(pem.key == (IN.had_key ? old : NULL) && pem.key_size == (IN.had_key ? 3 : 0), "a key that could not be read changes nothing");
  VF_CHECK(nkeyfree == 0 && nctxfree_old == 0, "the private key is only borrowed");
  VF_REACH(rc == SV_OK, "read");
  VF_REACH(rc != SV_OK, "failed");
}
/* Generated keys. */
#ifndef DIR
#define DIR ""
#endif
void
h_keygen(void)
{
  VF_INPUT();
  char *key = (char *)&bio;
  size_t n = 99;
  const bool want = !IN.no_out;
  const char *dir = IN.no_data ? NULL : DIR;
#if RSAKEY
  const svrc_t rc = signed_video_generate_rsa_private_key(dir, want ? &key : NULL, want ? &n : NULL);
#else
  const svrc_t rc = signed_video_generate_ecdsa_private_key(dir, want ? &key : NULL, want ? &n : NULL);
#endif
  if (!dir && !want) {
    VF_CHECK(rc == SV_INVALID_PARAMETER && nopen == 0, "parameters");
  } else {
    const bool file = !dir || (!IN.bad_file && IN.rc_final > 0);
    VF_CHECK((rc == SV_OK) == (!IN.bad_key && file && !IN.bad_bio && IN.rc_write > 0 && IN.bioget > 0 && !IN.nomem), "failures are returned");
    VF_CHECK(nopen == (dir && !IN.bad_key), "written to a file only when asked for");
    VF_CHECK(nclose == (dir && !IN.bad_key && !IN.bad_file) && nunlink == (nclose && IN.rc_final <= 0), "a file that could not be written is removed");
    if (want && rc == SV_OK) {
      VF_CHECK(n == PEMLEN && key != (char *)&bio && key != written, "a copy of the key");
      for (int i = 0; i < PEMLEN; i++) VF_CHECK((uint8_t)key[i] == IN.pem[i], "the key");
    } else if (want) VF_CHECK(!key && n == 0, "no key after a failure");
  }
  VF_REACH(rc == SV_OK, "generated");
  VF_REACH(rc != SV_OK, "failed");
}
void
h_path(void)
{
  VF_INPUT();
  char *p = get_path_to_key(DIR, "k.pem");
  const char *want = DIR[0] && DIR[sizeof(DIR) - 2] != '/' ? DIR "/k.pem" : DIR "k.pem";
  VF_CHECK(p, "path");
  for (size_t i = 0; i < sizeof(DIR) + 7; i++) {
    VF_CHECK(p[i] == want[i], "directory and file name");
    if (!want[i]) break;
  }
  VF_REACH(1, "path");
}
void
h_oid_str(void)
{
  VF_INPUT();
  char *s = openssl_encoded_oid_to_str(IN.no_oid ? NULL : IN.oid, IN.no_data ? 0 : OIDLEN);
  VF_CHECK(s && s[49] == 0, "a terminated string");
  VF_REACH(1, "string");
}
