/* Contract stubs of the hashing interface (signed_video_openssl_internal.h) with ghost state.
 *
 * The ghost state is, per hashing context, the byte sequence it has been fed with, and the list of
 * digests handed out together with the byte sequence each of them is the digest of.  A digest is an
 * arbitrary value (a field of IN), i.e. nothing is assumed about the hash function.  Hashing data in
 * one go is a digest of exactly that data; the contract of signed_video_openssl.c, see openssl.c. */
#ifndef GHOST_CRYPTO_H
#define GHOST_CRYPTO_H
#ifndef GC_HS
#define GC_HS 32
#endif
#ifndef GC_STREAM
#define GC_STREAM (2 * GC_HS + 8)
#endif
#ifndef GC_DIGESTS
#define GC_DIGESTS 5
#endif
struct gc_in {
  uint8_t digest[GC_DIGESTS][GC_HS];
  uint8_t fail[8];  // the nth call of the interface fails
};
typedef struct {
  uint8_t s[GC_STREAM];
  size_t n;
  bool open;
} gc_stream_t;
static gc_stream_t gc_ctx[2];  // 1 is the primary context
static struct {
  gc_stream_t in;
  bool primary;
} gc_dg[GC_DIGESTS];
static int gc_num, gc_calls, gc_inits[2];
static const struct gc_in *gc_input;

static bool
gc_fails(void)
{
  int i = gc_calls++;
#ifdef GC_FAIL
  return i < 8 && (gc_input->fail[i] & 1);
#else
  (void)i;
  return false;
#endif
}
static void
gc_feed(gc_stream_t *c, const uint8_t *data, size_t size)
{
  VF_CHECK(c->n + size <= GC_STREAM, "ghost stream large enough");
  for (size_t i = 0; i < size; i++) c->s[c->n + i] = data[i];
  c->n += size;
}
static void
gc_digest(const gc_stream_t *c, bool primary, uint8_t *hash)
{
  VF_CHECK(gc_num < GC_DIGESTS, "ghost digests large enough");
  gc_dg[gc_num].in = *c;
  gc_dg[gc_num].primary = primary;
  for (int i = 0; i < GC_HS; i++) hash[i] = gc_input->digest[gc_num][i];
  gc_num++;
}
svrc_t
openssl_hash_data(void *handle, const uint8_t *data, size_t data_size, uint8_t *hash)
{
  (void)handle;
  if (!data || data_size == 0 || !hash) return SV_INVALID_PARAMETER;
  if (gc_fails()) return SV_EXTERNAL_ERROR;
  gc_stream_t c = {0};
  gc_feed(&c, data, data_size);
  gc_digest(&c, false, hash);
  return SV_OK;
}
svrc_t
openssl_init_hash(void *handle, bool use_primary_ctx)
{
  if (!handle) return SV_INVALID_PARAMETER;
  if (gc_fails()) return SV_EXTERNAL_ERROR;
  gc_ctx[use_primary_ctx].n = 0;
  gc_ctx[use_primary_ctx].open = true;
  gc_inits[use_primary_ctx]++;
  return SV_OK;
}
svrc_t
openssl_update_hash(void *handle, const uint8_t *data, size_t data_size, bool use_primary_ctx)
{
  if (!data || data_size == 0 || !handle) return SV_INVALID_PARAMETER;
  if (!gc_ctx[use_primary_ctx].open) return SV_EXTERNAL_ERROR;
  if (gc_fails()) return SV_EXTERNAL_ERROR;
  gc_feed(&gc_ctx[use_primary_ctx], data, data_size);
  return SV_OK;
}
svrc_t
openssl_finalize_hash(void *handle, uint8_t *hash, bool use_primary_ctx)
{
  if (!hash || !handle) return SV_INVALID_PARAMETER;
  if (!gc_ctx[use_primary_ctx].open) return SV_EXTERNAL_ERROR;
  if (gc_fails()) return SV_EXTERNAL_ERROR;
  gc_digest(&gc_ctx[use_primary_ctx], use_primary_ctx, hash);
  gc_ctx[use_primary_ctx].open = false;
  return SV_OK;
}
/* Is digest |d| the digest of exactly |size| bytes |data|? */
static bool
gc_is(int d, const uint8_t *data, size_t size)
{
  if (d >= gc_num || gc_dg[d].in.n != size) return false;
  for (size_t i = 0; i < size; i++)
    if (gc_dg[d].in.s[i] != data[i]) return false;
  return true;
}
static bool
gc_eq(const uint8_t *hash, int d)
{
  for (int i = 0; i < GC_HS; i++)
    if (hash[i] != gc_input->digest[d][i]) return false;
  return true;
}
static bool
gc_same(const uint8_t *a, const uint8_t *b, size_t n)
{
  for (size_t i = 0; i < n; i++)
    if (a[i] != b[i]) return false;
  return true;
}
#endif
