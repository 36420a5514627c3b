/* Contracts on the Axis vendor code: validation of the public key by attestation report and certificate
 * chain, and encoding, decoding and storing of these.  OpenSSL functions are contract stubs with arbitrary
 * outcomes; ghost state records what each of them was given. */
#include "vf.h"
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include "signed_video_internal.h"
#include "signed_video_tlv.h"
#include "axis-communications/sv_vendor_axis_communications_internal.h"

/* the OpenSSL call that fails (see stubs), 0 for none */
#ifndef FAIL
#define FAIL 0
#endif
#ifndef NCERT
#define NCERT 2  // certificates in the chain
#endif
#ifndef CNMODE
#define CNMODE 0  // common name: 0 as expected, 1 other text, 2 too short, 3 too long, 4 none
#endif
#ifndef SERLEN
#define SERLEN 5  // length of the serial number in the certificate, -1 none
#endif
#define SERMEM (SERLEN > 0 ? SERLEN : 1)
#ifndef ATT
#define ATT 30  // size of the attestation report
#endif
#ifndef SIGSZ
#define SIGSZ (ATT - 23)  // size of the signature according to it
#endif
#ifndef NITEMS
#define NITEMS 1
#endif
#ifndef EC
#define EC 1
#endif
#ifndef UNCOMP
#define UNCOMP 65
#endif
#ifndef RCV
#define RCV 1  // outcome of the verification of the certificate
#endif
#ifndef NOKEY
#define NOKEY 0
#endif
#ifndef CHAIN
#define CHAIN 1
#endif
#ifndef OLDCTX
#define OLDCTX 0
#endif
#ifndef DN
#define DN 8  // size of data to decode
#endif
#ifndef DA
#define DA 3  // size of attestation in it
#endif
#ifndef SA
#define SA 0  // size of the attestation stored
#endif
#ifndef SC
#define SC 0  // size of the chain stored
#endif
#ifndef NOMEM
#define NOMEM 0
#endif
struct vf_in {
  uint8_t att[ATT > SA ? ATT : SA + 1], chip[18], uncomp[UNCOMP > 0 ? UNCOMP : 1], sha[32], data[DN + 1], chain[SC + 1], key_in[8];
  char ser[SERMEM + 1], ser0[20];
  int rc_dv, old_val, rc_x, asize;
  uint16_t ltb;
  uint8_t ver;
  bool changed : 1, known : 1, ver_ok : 1, group_ok : 1, epb : 1;
} IN;

static int n_alloc, n_live;
static void *
vf_malloc(size_t z)
{
  if (++n_alloc == NOMEM) return NULL;
  uint8_t *p = malloc(z);
  VF_ASSUME(p != NULL);
  n_live++;
  return p;
}
static void *
vf_typed(size_t z);
static void *
vf_calloc(size_t n, size_t z)
{
  if (++n_alloc == NOMEM) return NULL;
  n_live++;
  void *t = vf_typed(n * z);
  if (t) return t;
  uint8_t *p = malloc(n * z);
  VF_ASSUME(p != NULL);
  for (size_t i = 0; i < n * z; i++) p[i] = 0;
  return p;
}
static bool
vf_untyped(void *p);
static void
vf_free(void *p)
{
  if (!p) return;
  n_live--;
  if (!vf_untyped(p)) free(p);
}
/* libc, for the forms used */
static char *
vf_strstr(const char *h, const char *n)
{
  VF_CHECK(h && n, "a string is searched");
  for (; *h; h++) {
    size_t i = 0;
    while (n[i] && h[i] == n[i]) i++;
    if (!n[i]) return (char *)h;
  }
  return NULL;
}
static int
vf_nib(char c)
{
  return c >= 'a' ? c - 'a' + 10 : c - '0';
}
static int
vf_scan_hex(const char *s, uint8_t *out)
{
  *out = (uint8_t)(vf_nib(s[0]) * 16 + vf_nib(s[1]));
  return 1;
}
static char cn[80], ser[SERMEM + 1];
#define malloc vf_malloc
#define calloc vf_calloc
#define free vf_free
#define strstr vf_strstr
#define sscanf(s, f, o) vf_scan_hex(s, o)
#include "axis-communications/sv_vendor_axis_communications.c"
#undef malloc
#undef calloc
#undef free
#undef strstr
#undef sscanf

static sv_vendor_axis_communications_t V, fresh;
static int fresh_used;
static void *
vf_typed(size_t z)
{
  if (z != sizeof(fresh)) return NULL;
  VF_CHECK(!fresh_used, "one handle");
  fresh_used = 1;
  return &fresh;
}
static bool
vf_untyped(void *p)
{
  return p == (void *)&fresh;
}

/* ---- contract stubs: objects are counted, so that none leaks or is freed twice ---- */
static int ca_dummy, store_dummy, sctx_dummy, stack_dummy, bio_dummy, cert_dummy[5], md_dummy, md_old, key_att, key_dummy, pctx_dummy, name_dummy, asn_cn, asn_ser, entry_cn, entry_ser;
static int n_store, n_sctx, n_stack, n_bio, n_md, n_cert, n_str, n_ca;
static X509 *verified_cert, *store_cert;
static int cert_verified, stack_n, cert_read;
static const void *bio_from;
static bool in_setup;
static int bio_size;
#define FAILS(k) (FAIL == (k))
X509_STORE *
X509_STORE_new(void)
{
  if (FAILS(1)) return NULL;
  n_store++;
  return (X509_STORE *)&store_dummy;
}
void
X509_STORE_free(X509_STORE *s)
{
  if (s) n_store--;
}
int
X509_STORE_add_cert(X509_STORE *s, X509 *c)
{
  VF_CHECK(!store_cert, "one certificate is trusted");
  store_cert = c;
  return FAILS(2) ? IN.rc_x : 1;
}
X509_STORE_CTX *
X509_STORE_CTX_new(void)
{
  if (FAILS(3)) return NULL;
  n_sctx++;
  return (X509_STORE_CTX *)&sctx_dummy;
}
void
X509_STORE_CTX_free(X509_STORE_CTX *c)
{
  if (c) n_sctx--;
}
static bool ctx_ok;
int
X509_STORE_CTX_init(X509_STORE_CTX *c, X509_STORE *s, X509 *x, STACK_OF(X509) * chain)
{
  verified_cert = x;
  ctx_ok = c && s == (X509_STORE *)&store_dummy && (void *)chain == (void *)&stack_dummy;
  return FAILS(4) ? IN.rc_x : 1;
}
int
X509_verify_cert(X509_STORE_CTX *c)
{
  VF_CHECK(ctx_ok && store_cert == (X509 *)&ca_dummy, "certificates are verified with the trusted root");
  if (!verified_cert) return -1;
  cert_verified = RCV == 1;
  return RCV;
}
OPENSSL_STACK *
OPENSSL_sk_new_null(void)
{
  if (FAILS(5)) return NULL;
  n_stack++;
  return (OPENSSL_STACK *)&stack_dummy;
}
void
OPENSSL_sk_zero(OPENSSL_STACK *s)
{
  stack_n = 0;
}
int
OPENSSL_sk_push(OPENSSL_STACK *s, const void *d)
{
  VF_CHECK(stack_n < 5 && d == &cert_dummy[stack_n], "certificates in order");
  return ++stack_n;
}
int
OPENSSL_sk_num(const OPENSSL_STACK *s)
{
  return stack_n;
}
void *
OPENSSL_sk_value(const OPENSSL_STACK *s, int i)
{
  return i >= 0 && i < stack_n ? &cert_dummy[i] : NULL;
}
void
OPENSSL_sk_pop_free(OPENSSL_STACK *s, OPENSSL_sk_freefunc f)
{
  if (!s) return;
  n_stack--;
  n_cert -= stack_n;
}
BIO *
BIO_new_mem_buf(const void *b, int n)
{
  if (FAILS(6)) return NULL;
  n_bio++;
  bio_from = b;
  bio_size = n;
  return (BIO *)&bio_dummy;
}
BIO *
BIO_new(const BIO_METHOD *t)
{
  if (FAILS(6)) return NULL;
  n_bio++;
  return (BIO *)&bio_dummy;
}
const BIO_METHOD *
BIO_s_mem(void)
{
  return NULL;
}
int
BIO_puts(BIO *b, const char *s)
{
  bio_from = s;
  return FAILS(7) ? IN.rc_x : 1;
}
int
BIO_free(BIO *b)
{
  if (b) n_bio--;
  return 1;
}
X509 *
PEM_read_bio_X509(BIO *b, X509 **x, pem_password_cb *cb, void *u)
{
  if (in_setup) {
    VF_CHECK(bio_from == kTrustedAxisRootCA, "the root is the trusted one");
    if (FAILS(8)) return NULL;
    n_ca++;
    return (X509 *)&ca_dummy;
  }
  VF_CHECK(bio_from == V.certificate_chain, "certificates are those of the stream");
  if (cert_read >= NCERT) return NULL;
  n_cert++;
  return (X509 *)&cert_dummy[cert_read++];
}
void
X509_free(X509 *c)
{
  if (c == (X509 *)&ca_dummy) n_ca--;
  if (c && c != (X509 *)&ca_dummy) n_cert--;
}
X509_NAME *
X509_get_subject_name(const X509 *c)
{
  VF_CHECK(cert_verified && c == verified_cert && c == (X509 *)&cert_dummy[0], "only a verified certificate is used");
  return (X509_NAME *)&name_dummy;
}
int
X509_NAME_get_index_by_NID(const X509_NAME *n, int nid, int last)
{
  if (nid == NID_commonName) return CNMODE == 4 ? -1 : 3;
  if (nid == NID_serialNumber) return SERLEN < 0 ? -1 : 5;
  return -1;
}
X509_NAME_ENTRY *
X509_NAME_get_entry(const X509_NAME *n, int i)
{
  return (X509_NAME_ENTRY *)(i == 3 ? &entry_cn : i == 5 ? &entry_ser : NULL);
}
ASN1_STRING *
X509_NAME_ENTRY_get_data(const X509_NAME_ENTRY *e)
{
  return (ASN1_STRING *)(e == (X509_NAME_ENTRY *)&entry_cn ? &asn_cn : &asn_ser);
}
int
ASN1_STRING_to_UTF8(unsigned char **out, const ASN1_STRING *in)
{
  if (in == (ASN1_STRING *)&asn_cn) {
    if (FAILS(9)) return IN.rc_x;
    static const char pre[] = "Axis Edge Vault Attestation ";
    int k = 0;
    for (int i = 0; pre[i]; i++) cn[k++] = CNMODE == 1 && i == 3 ? '_' : pre[i];
    for (int i = 0; i < 18; i++) {
      uint8_t h = IN.chip[i] >> 4, l = IN.chip[i] & 15;
      cn[k++] = (char)(h > 9 ? 'a' + h - 10 : '0' + h);
      if (CNMODE != 2 || i < 17) cn[k++] = (char)(l > 9 ? 'a' + l - 10 : '0' + l);
    }
    if (CNMODE == 3) cn[k++] = '1';
    cn[k] = 0;
    *out = (unsigned char *)cn;
    n_str++;
    return k;
  }
  if (FAILS(10)) return IN.rc_x;
  for (int i = 0; i < SERLEN; i++) ser[i] = IN.ser[i];
  ser[SERLEN < 0 ? 0 : SERLEN] = 0;
  *out = (unsigned char *)ser;
  n_str++;
  return SERLEN;
}
void
CRYPTO_free(void *p, const char *f, int l)
{
  if (p) n_str--;
}
EVP_PKEY *
X509_get0_pubkey(const X509 *c)
{
  VF_CHECK(cert_verified && c == verified_cert, "only a verified certificate is used");
  return FAILS(11) ? NULL : (EVP_PKEY *)&key_att;
}
int
EVP_PKEY_get_base_id(const EVP_PKEY *k)
{
  return EC ? EVP_PKEY_EC : EVP_PKEY_RSA;
}
static EVP_PKEY *md_key;
static const EVP_MD *md_alg;
static int sha_dummy;
const EVP_MD *
EVP_sha256(void)
{
  return (const EVP_MD *)&sha_dummy;
}
EVP_MD_CTX *
EVP_MD_CTX_new(void)
{
  if (FAILS(12)) return NULL;
  n_md++;
  return (EVP_MD_CTX *)&md_dummy;
}
static bool md_old_live;
void
EVP_MD_CTX_free(EVP_MD_CTX *c)
{
  if (!c) return;
  if (c == (EVP_MD_CTX *)&md_old) {
    VF_CHECK(md_old_live, "a context is freed once");
    md_old_live = false;
  } else {
    VF_CHECK(n_md > 0, "a context is freed once");
    n_md--;
  }
}
int
EVP_DigestVerifyInit(EVP_MD_CTX *c, EVP_PKEY_CTX **p, const EVP_MD *t, ENGINE *e, EVP_PKEY *k)
{
  VF_CHECK(c == (EVP_MD_CTX *)&md_dummy, "the new context");
  md_key = k;
  md_alg = t;
  return FAILS(13) ? (IN.rc_x < 1 ? IN.rc_x : 0) : 1;
}
EVP_PKEY *
EVP_PKEY_CTX_get0_pkey(EVP_PKEY_CTX *c)
{
  VF_CHECK(c == (EVP_PKEY_CTX *)&pctx_dummy, "the key in use is validated");
  return FAILS(14) ? NULL : (EVP_PKEY *)&key_dummy;
}
static uint8_t uncomp[UNCOMP > 0 ? UNCOMP : 1];
size_t
EVP_PKEY_get1_encoded_public_key(EVP_PKEY *k, unsigned char **out)
{
  VF_CHECK(k == (EVP_PKEY *)&key_dummy, "the key in use is validated");
  if (UNCOMP == 0) return 0;
  for (int i = 0; i < UNCOMP; i++) uncomp[i] = IN.uncomp[i];
  *out = uncomp;
  n_str++;
  return UNCOMP;
}
static uint8_t raw[40];
static bool raw_ok;
unsigned char *
SHA256(const unsigned char *d, size_t n, unsigned char *md)
{
  raw_ok = n == 40;
  for (int i = 0; i < 40; i++) raw[i] = d[i];
  for (int i = 0; i < 32; i++) md[i] = IN.sha[i];
  return md;
}
static int n_dv;
static bool dv_ok;
int
EVP_DigestVerify(EVP_MD_CTX *c, const unsigned char *sig, size_t sz, const unsigned char *d, size_t n)
{
  static const uint8_t attr[37] = {0x7b, 0x00, 0x02, 0x01, 0x29, 0x01, 0x00, 0x00, 0x7b, 0x00, 0x00, 0x03, 0x00, 0x00, 0x08, 0x7b, 0x00, 0x00, 0x03, 0x1f, 0x3c, 0x00, 0x00, 0x08, 0x00, 0x00, 0x00, 0x00, 0x00, 0x20, 0x00, 0x00, 0x02, 0x00, 0x00, 0x00, 0x00};
  n_dv++;
  VF_CHECK(c == (EVP_MD_CTX *)&md_dummy && md_key == (EVP_PKEY *)&key_att && md_alg == (const EVP_MD *)&sha_dummy && n_md == 1, "the signature is verified with the key of the attestation certificate");
  VF_CHECK(sz == ATT - 23, "the signature is that of the attestation report");
#if ATT >= 24
  { bool q = true; for (int i = 0; i < ATT - 23; i++) q &= sig[i] == IN.att[23 + i]; VF_CHECK(q, "the signature is that of the attestation report"); }
#endif
  VF_CHECK(n == 32 + 65 + 18 + 37 + 12 + 22, "the signed data is complete");
  int k = 0;
  { bool q = true; for (int i = 0; i < 32; i++) q &= d[k + i] == IN.sha[i]; VF_CHECK(q, "the signed data starts with the hash"); }
  k += 36;
  VF_CHECK(d[32] == 0x41 && d[33] == 0x82 && d[34] == 0 && d[35] == 65, "the form of the signed data");
#if UNCOMP == 65
  { bool q = true; for (int i = 0; i < 65; i++) q &= d[k + i] == IN.uncomp[i]; VF_CHECK(q, "the signed data has the public key in use"); }
#endif
  k += 65;
  VF_CHECK(d[k] == 0x42 && d[k + 1] == 0x82 && d[k + 2] == 0 && d[k + 3] == 18, "the form of the signed data");
  k += 4;
  { bool q = true; for (int i = 0; i < 18; i++) q &= d[k + i] == IN.chip[i]; VF_CHECK(q, "the signed data has the chip of the certificate"); }
  k += 18;
  VF_CHECK(d[k] == 0x43 && d[k + 1] == 0x82 && d[k + 2] == 0 && d[k + 3] == 37, "the form of the signed data");
  k += 4;
  { bool q = true; for (int i = 0; i < 37; i++) q &= d[k + i] == attr[i]; VF_CHECK(q, "the signed data has the attributes"); }
  k += 37;
  VF_CHECK(d[k] == 0x44 && d[k + 1] == 0x82 && d[k + 2] == 0 && d[k + 3] == 2 && d[k + 4] == 0 && d[k + 5] == 0x20 && d[k + 6] == 0x4f && d[k + 7] == 0x82 && d[k + 8] == 0 && d[k + 9] == 12, "the form of the signed data");
  k += 10;
#if ATT >= 24
  { bool q = true; for (int i = 0; i < 12; i++) q &= d[k + i] == IN.att[9 + i]; VF_CHECK(q, "the signed data has the time of the attestation"); }
#endif
  VF_CHECK(raw_ok && raw[0] == 0x80 && raw[1] == 0x22 && raw[9] == 0x7b && raw[10] == 0 && raw[11] == 2 && raw[12] == 1 && raw[24] == 0x92 && raw[39] == 0x04, "the hash is that of the request");
  return IN.rc_dv;
}
int
EVP_PKEY_get_group_name(const EVP_PKEY *k, char *name, size_t sz, size_t *len)
{
  if (FAILS(15)) return IN.rc_x == 1 ? 0 : IN.rc_x;
  static const char good[] = "prime256v1", bad[] = "secp384r1";
  for (int i = 0; i < 11; i++) name[i] = IN.group_ok ? good[i] : i < 10 ? bad[i] : 0;
  return 1;
}
/* contract of the byte writer without emulation prevention (discharged in tlv_bytes.c) */
void
write_byte(uint16_t *ltb, uint8_t **p, uint8_t b, bool epb)
{
  VF_CHECK(epb == IN.epb, "emulation prevention as asked for");
  **p = b;
  (*p)++;
}
void
write_byte_many(uint8_t **dst, char *src, size_t size, uint16_t *ltb, bool epb)
{
  VF_CHECK(epb == IN.epb, "emulation prevention as asked for");
  for (size_t i = 0; i < size; i++) *(*dst)++ = (uint8_t)src[i];
}

static char chain[] = "chain";
static uint8_t att[ATT];
static void
setup(void)
{
  for (int i = 0; i < ATT; i++) att[i] = IN.att[i];
#if ATT >= 24
  att[8] = IN.att[8] = NITEMS;
  att[21] = (uint8_t)((SIGSZ) >> 8);
  att[22] = (uint8_t)((SIGSZ)&255);
#endif
  V.attestation = ATT ? att : NULL;
  V.attestation_size = ATT;
  V.certificate_chain = CHAIN ? chain : NULL;
  V.trusted_ca = (X509 *)&ca_dummy;
  V.public_key = NOKEY ? NULL : &pctx_dummy;
  if (OLDCTX) {
    V.md_ctx = (EVP_MD_CTX *)&md_old;
    md_old_live = true;
  }
  VF_ASSUME(IN.old_val == -1 || IN.old_val == 0 || IN.old_val == 1);
  V.supplemental_authenticity.public_key_validation = IN.old_val;
  for (int i = 0; i < 19; i++) V.supplemental_authenticity.serial_number[i] = IN.ser0[i];
  V.supplemental_authenticity.serial_number[19] = 0;
  for (int i = 0; i < SERLEN; i++) VF_ASSUME(IN.ser[i] != 0);
  VF_ASSUME(IN.rc_x <= 0 && IN.rc_dv <= 1);
}
static bool
is_str(const char *a, const char *b)
{
  for (int i = 0;; i++) {
    if (a[i] != b[i]) return false;
    if (!b[i]) return true;
  }
}

/* the verdict on the public key */
void
h_verdict(void)
{
  VF_INPUT();
  setup();
  sv_vendor_axis_supplemental_authenticity_t *s = NULL;
  svrc_t rc = get_axis_communications_supplemental_authenticity(&V, &s);
  int val = V.supplemental_authenticity.public_key_validation;
  bool chip_ok = IN.chip[0] == 4 && IN.chip[1] == 0 && IN.chip[2] == 0x50 && IN.chip[3] == 1;
  bool call_fails = FAIL >= 1 && FAIL <= 13;
  bool chain_ok = CHAIN && !call_fails && NCERT >= 1 && NCERT <= 2 && RCV == 1 && CNMODE == 0 && chip_ok && SERLEN > 0 && SERLEN < SV_VENDOR_AXIS_SER_NO_MAX_LENGTH && EC;
  bool att_ok = ATT >= 24 && NITEMS == 1 && SIGSZ == ATT - 23;
  bool key_ok = !NOKEY && FAIL != 14 && UNCOMP == 65 && IN.uncomp[0] == 4;
  bool all = chain_ok && att_ok && key_ok && !NOMEM;
  VF_CHECK(val != 1 || (IN.old_val != 0 && ((all && IN.rc_dv > 0) || IN.old_val == 1)), "validated only if the attestation verified");
  VF_CHECK(IN.old_val != 0 || val == 0, "a failed validation stays failed");
  if (rc == SV_OK) {
    VF_CHECK(s == &V.supplemental_authenticity, "the result is handed out");
    if (val == 1) {
      VF_CHECK(all && n_dv == 1 && (IN.rc_dv & 1), "reported valid only if the attestation verified now");
      for (int i = 0; i < SERMEM; i++) VF_CHECK(V.supplemental_authenticity.serial_number[i] == IN.ser[i], "the serial number is that of the certificate");
    }
    if (!all || IN.rc_dv == 0) VF_CHECK(val == 0, "what does not verify is reported as not valid");
  }
  if (all && IN.rc_dv == 1) VF_CHECK(rc == SV_OK && val == (IN.old_val == 0 ? 0 : 1), "a key that verifies is valid");
  if (all && IN.rc_dv < 0) VF_CHECK(rc != SV_OK && val == IN.old_val, "no result is an error");
  if (!chain_ok || !att_ok || !key_ok) VF_CHECK(n_dv == 0, "nothing is verified with unverified data");
  if (CHAIN && !chain_ok) VF_CHECK(is_str(V.supplemental_authenticity.serial_number, "Unknown"), "the serial number is unknown");
  if (CHAIN && !chain_ok) VF_CHECK(V.md_ctx == NULL, "no key of an unverified certificate is kept");
  if (CHAIN) VF_CHECK(!md_old_live, "the old context is released");
  VF_CHECK(n_md == (V.md_ctx == (EVP_MD_CTX *)&md_dummy), "a context in use is kept");
  VF_CHECK(n_store == 0 && n_sctx == 0 && n_stack == 0 && n_bio == 0 && n_str == 0 && n_live == 0, "what was used is released");
  VF_CHECK(n_cert == 0, "certificates are released");
#ifdef GOOD
  VF_REACH(val == 1, "valid");
  VF_REACH(val == 0 && all, "not valid");
  VF_REACH(rc != SV_OK, "error");
#endif
  VF_REACH(true, "verdict returned");
}

/* the key to validate */
void
h_key(void)
{
  VF_INPUT();
  setup();
  V.public_key = IN.known ? &key_dummy : NULL;
  svrc_t rc = set_axis_communications_public_key(&V, &pctx_dummy, IN.changed);
  int val = V.supplemental_authenticity.public_key_validation;
  bool ok = FAIL == 0 && (!EC || IN.group_ok);
  VF_CHECK(V.public_key == &pctx_dummy || V.public_key == NULL, "a key that was replaced is no longer referred to");
  VF_CHECK(IN.old_val != 0 || val == 0, "a failed validation stays failed");
  if (IN.changed && IN.known) VF_CHECK(val == 0, "a changed key is not valid");
  if (!EC || FAIL || (EC && !IN.group_ok)) VF_CHECK(val == 0, "only keys of the right type are valid");
  if (IN.old_val != 0) VF_CHECK((rc == SV_OK) == ok, "a key that cannot be used is reported");
  if (ok && !(IN.changed && IN.known) && EC) VF_CHECK(val == IN.old_val && V.public_key == &pctx_dummy, "the key is validated later");
  VF_CHECK(set_axis_communications_public_key(NULL, &pctx_dummy, false) == SV_INVALID_PARAMETER && set_axis_communications_public_key(&V, NULL, false) == SV_INVALID_PARAMETER, "missing parameters are refused");
  VF_REACH(IN.old_val == 0, "failed before");
  VF_REACH(IN.old_val == 1 && IN.changed && IN.known, "changed");
}

/* decoding of vendor data of any content */
static uint8_t *sa;
static char *sc;
static void
stored(void)
{
  V.attestation = NULL;
  V.certificate_chain = NULL;
  V.attestation_size = 0;
  if (SA) {
    sa = malloc(SA);
    VF_ASSUME(sa != NULL);
    for (int i = 0; i < SA; i++) sa[i] = IN.att[i];
    V.attestation = sa;
    V.attestation_size = SA;
    n_live++;
  }
  if (SC) {
    sc = malloc(SC + 1);
    VF_ASSUME(sc != NULL);
    for (int i = 0; i < SC; i++) {
      VF_ASSUME(IN.chain[i] != 0);
      sc[i] = (char)IN.chain[i];
    }
    sc[SC] = 0;
    V.certificate_chain = sc;
    n_live++;
  }
}
void
h_decode(void)
{
  VF_INPUT();
  stored();
  uint8_t data[DN + 1];
  for (int i = 0; i < DN; i++) data[i] = IN.data[i];
#if DN >= 2
  data[1] = DA;
#endif
  svrc_t rc = decode_axis_communications_handle(&V, data, DN);
  bool fmt = DN >= 2 && data[0] == 1 && DA > 0 && DN > DA + 2 && !NOMEM;
  const int cs = DN - DA - 2;
  bool same = true, nul = false;
#if DN >= 2 && DN > DA + 2
  if (SA && SA != DA) same = false;
  if (SC && SC != cs) same = false;
  for (int i = 0; i < DA && SA == DA; i++)
    if (data[2 + i] != IN.att[i]) same = false;
  for (int i = 0; i < cs && SC == cs; i++)
    if (data[2 + DA + i] != IN.chain[i]) same = false;
  for (int i = 0; i < cs; i++)
    if (data[2 + DA + i] == 0) nul = true;
#endif
  VF_CHECK((rc == SV_OK) == (fmt && same && !nul), "vendor data is accepted exactly if it is complete and unchanged");
  if (SA) {
    VF_CHECK(V.attestation == sa && V.attestation_size == SA, "an attestation is not replaced");
    for (int i = 0; i < SA; i++) VF_CHECK(sa[i] == IN.att[i], "an attestation is not replaced");
  }
  if (SC) {
    VF_CHECK(V.certificate_chain == sc, "a chain is not replaced");
    for (int i = 0; i < SC; i++) VF_CHECK(sc[i] == (char)IN.chain[i], "a chain is not replaced");
  }
#if DN >= 2 && DN > DA + 2 && DA > 0 && !NOMEM
  if (rc == SV_OK) {
    VF_CHECK(V.attestation && V.attestation_size == DA && V.certificate_chain, "both are stored");
    for (int i = 0; i < DA; i++) VF_CHECK(((uint8_t *)V.attestation)[i] == data[2 + i], "the attestation is stored");
    for (int i = 0; i < cs; i++) VF_CHECK(V.certificate_chain[i] == (char)data[2 + DA + i], "the chain is stored");
    VF_CHECK(V.certificate_chain[cs] == 0, "the chain is stored as a string");
  }
#if (SA == 0 || SA == DA) && (SC == 0 || SC == DN - DA - 2)
  VF_REACH(rc == SV_OK, "accepted");
#endif
#endif
  VF_CHECK(n_live == (V.attestation != NULL) + (V.certificate_chain != NULL), "nothing else is kept");
  VF_REACH(true, "decoded");
}

/* encoding */
#ifndef CERTS
#define CERTS "-----BEGIN CERTIFICATE-----A-----BEGIN CERTIFICATE-----B-----BEGIN CERTIFICATE-----C"
#endif
#ifndef UNTRUSTED
#define UNTRUSTED 56
#endif
void
h_encode(void)
{
  VF_INPUT();
  static char certs[] = CERTS;
  static uint8_t a[ATT ? ATT : 1];
  for (int i = 0; i < ATT; i++) a[i] = IN.att[i];
  V.attestation = ATT ? a : NULL;
  V.attestation_size = ATT;
  V.certificate_chain = CHAIN ? certs : NULL;
  uint8_t out[ATT + UNTRUSTED + 4];
  for (int i = 0; i < ATT + UNTRUSTED + 4; i++) out[i] = 0x55;
  uint16_t ltb = 0;
  size_t z = encode_axis_communications_handle(&V, &ltb, IN.epb, NULL);
  size_t w = encode_axis_communications_handle(&V, &ltb, IN.epb, out);
  VF_CHECK(z == w, "the size announced is the size written");
#if !ATT || !CHAIN
  VF_CHECK(w == 0, "nothing is written unless both are known");
#else
  VF_CHECK(w == 2 + ATT + UNTRUSTED, "both are written, without the trusted root");
  VF_CHECK(out[0] == 1 && out[1] == ATT, "version and size");
  for (int i = 0; i < ATT; i++) VF_CHECK(out[2 + i] == IN.att[i], "the attestation is written");
  for (int i = 0; i < UNTRUSTED; i++) VF_CHECK(out[2 + ATT + i] == (uint8_t)certs[i], "the chain is written");
  VF_CHECK(out[2 + ATT + UNTRUSTED] == 0x55, "and nothing else");
#endif
  VF_CHECK(encode_axis_communications_handle(NULL, &ltb, IN.epb, out) == 0, "no vendor data");
  VF_REACH(true, "encoded");
}

/* the user's vendor data */
#ifndef UA
#define UA 3
#endif
#ifndef UC
#define UC "ab"
#endif
#ifndef UAPTR
#define UAPTR (UA > 0)
#endif
#ifndef UCPTR
#define UCPTR 1
#endif
void
h_report(void)
{
  VF_INPUT();
  stored();
  static signed_video_t sv;
  sv.vendor_handle = &V;
  static const char uc[] = UC;
  uint8_t ua[UA + 1];
  for (int i = 0; i < UA; i++) ua[i] = IN.data[i];
  SignedVideoReturnCode rc = sv_vendor_axis_communications_set_attestation_report(&sv, UAPTR ? ua : NULL, UA, UCPTR ? uc : NULL);
  const int ul = (int)sizeof(uc) - 1;
  bool param = (UAPTR || UCPTR) && UAPTR == (UA > 0);
  bool ok = param && !(UAPTR && SA) && !(UCPTR && SC) && !(UCPTR && ul == 0) && !NOMEM;
  VF_CHECK((rc == SV_OK) == ok, "vendor data is set exactly when it can be");
  if (!param) VF_CHECK(rc == SV_INVALID_PARAMETER, "invalid parameters are refused");
  if (ok) {
    VF_CHECK(sv.num_vendor_encoders == 1 && sv.vendor_encoders && sv.vendor_encoders[0] == VENDOR_AXIS_COMMUNICATIONS_TAG, "it is put in SEIs");
#if UA > 0 && UAPTR
    VF_CHECK(V.attestation && V.attestation != ua && V.attestation_size == UA, "the attestation is copied");
    for (int i = 0; i < UA; i++) VF_CHECK(((uint8_t *)V.attestation)[i] == IN.data[i], "the attestation is copied");
#endif
#if UCPTR
    VF_CHECK(V.certificate_chain && V.certificate_chain != uc, "the chain is copied");
    for (int i = 0; i < ul; i++) VF_CHECK(V.certificate_chain[i] == uc[i], "the chain is copied");
    bool nl = ul > 0 && uc[ul - 1] == '\n';
    VF_CHECK(nl ? V.certificate_chain[ul] == 0 : (V.certificate_chain[ul] == '\n' && V.certificate_chain[ul + 1] == 0), "the chain ends with a newline");
#endif
  } else {
    VF_CHECK(sv.num_vendor_encoders == 0, "nothing is put in SEIs");
  }
  if (!ok || !UAPTR) VF_CHECK(V.attestation == (SA ? sa : NULL) && V.attestation_size == SA, "the attestation stays");
  if (!ok || !UCPTR) VF_CHECK(V.certificate_chain == (SC ? sc : NULL), "the chain stays");
  VF_CHECK(n_live == (V.attestation != NULL) + (V.certificate_chain != NULL), "memory is released");
  VF_CHECK(sv_vendor_axis_communications_set_attestation_report(NULL, IN.data, 1, uc) == SV_INVALID_PARAMETER, "a session is needed");
  VF_REACH(true, "set");
}

/* life of the handle */
void
h_handle(void)
{
  VF_INPUT();
  VF_ASSUME(IN.rc_x <= 0);
  in_setup = true;
  sv_vendor_axis_communications_t *v = sv_vendor_axis_communications_setup();
  VF_CHECK((v != NULL) == (FAIL == 0 && !NOMEM), "a handle is created when the trusted root can be read");
  VF_CHECK(n_bio == 0, "what was used is released");
  if (!v) VF_CHECK(n_live == 0 && n_ca == 0, "nothing is left");
#if FAIL == 0 && !NOMEM
  VF_CHECK(v->supplemental_authenticity.public_key_validation == -1 && is_str(v->supplemental_authenticity.serial_number, "Unknown"), "nothing is known to begin with");
  VF_CHECK(!v->attestation && !v->certificate_chain && !v->md_ctx && !v->public_key && v->trusted_ca, "nothing is known to begin with");
  v->attestation = vf_malloc(3);
  v->certificate_chain = vf_malloc(3);
  n_md = 1;
  v->md_ctx = (EVP_MD_CTX *)&md_dummy;
  sv_vendor_axis_communications_teardown(v);
  VF_CHECK(n_live == 0 && n_ca == 0 && n_md == 0, "everything is released");
#endif
  sv_vendor_axis_communications_teardown(NULL);
  VF_REACH(true, "handle");
}
