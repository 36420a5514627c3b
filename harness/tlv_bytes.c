/* Contracts on the byte level of the TLV writer/reader (signed_video_tlv.c). */
#include "vf.h"
#include "signed_video_internal.h"
#include "signed_video_tlv.h"
#include "includes/signed_video_openssl.h"

struct vf_in {
  uint16_t l2b;
  uint8_t b;
  uint8_t b2;
  uint8_t buf[8];
  uint8_t off;
  char src[6];
  size_t n, n2;
  bool ep : 1;
  bool null_p : 1;
} IN;

uint8_t BUF[8];  // the SEI buffer
uint16_t L2B;
uint8_t *WP;
const uint8_t *RP;

/* Specification: bytes written for one logical byte. */
static bool
spec_escape_needed(uint16_t l2b, uint8_t b, bool ep)
{
  return ep && l2b == 0 && b <= 3;
}

static bool
spec_written(uint16_t l2b, uint8_t b, bool ep, const uint8_t *p, size_t n, uint16_t l2b_after)
{
  if (spec_escape_needed(l2b, b, ep)) return n == 2 && p[0] == 3 && p[1] == b && l2b_after == (uint16_t)(0x0300 | b);
  return n == 1 && p[0] == b && l2b_after == (uint16_t)((uint16_t)(l2b << 8) | b);
}

/* Three consecutive physical bytes never emulate a start code. */
static bool
spec_no_start_code(uint8_t x, uint8_t y, uint8_t z)
{
  return !(x == 0 && y == 0 && z <= 2);
}

void
write_byte(uint16_t *last_two_bytes, uint8_t **data, uint8_t curr_byte, bool do_emulation_prevention)
VF_REQUIRES(last_two_bytes && data && *data)
VF_ASSIGNS(*last_two_bytes, *data, VF_WHOLE(*data))
VF_ENSURES(spec_written(VF_OLD(*last_two_bytes), curr_byte, do_emulation_prevention, VF_OLD(*data),
    (size_t)(*data - VF_OLD(*data)), *last_two_bytes))
;

uint8_t
read_byte(uint16_t *last_two_bytes, const uint8_t **data, bool do_emulation_prevention)
VF_REQUIRES(last_two_bytes && data && *data)
VF_ASSIGNS(*last_two_bytes, *data)
VF_ENSURES((do_emulation_prevention && VF_OLD(*last_two_bytes) == 0 && VF_OLD(*data)[0] == 3)
    ? (VF_RET == VF_OLD(*data)[1] && *data == VF_OLD(*data) + 2 && *last_two_bytes == (uint16_t)(0x0300 | VF_RET))
    : (VF_RET == VF_OLD(*data)[0] && *data == VF_OLD(*data) + 1 && *last_two_bytes == (uint16_t)((uint16_t)(VF_OLD(*last_two_bytes) << 8) | VF_RET)))
;

#include "signed_video_tlv.c"

static void
start(void)
{
  VF_INPUT();
  memcpy(BUF, IN.buf, sizeof(BUF));
  L2B = IN.l2b;
}

/* write_byte appends exactly the escaped form of the byte and touches nothing else. */
void
h_write_byte(void)
{
  start();
  VF_ASSUME(IN.off <= 6);
  WP = BUF + IN.off;
  write_byte(&L2B, &WP, IN.b, IN.ep);
  size_t n = WP - (BUF + IN.off);
  VF_CHECK(spec_written(IN.l2b, IN.b, IN.ep, BUF + IN.off, n, L2B), "byte written in its escaped form");
  for (size_t i = 0; i < sizeof(BUF); i++) {
    if (i < IN.off || i >= IN.off + n) VF_CHECK(BUF[i] == IN.buf[i], "no other byte of the buffer changes");
  }
  VF_REACH(n == 2, "escape");
  VF_REACH(n == 1, "plain");
}

/* read_byte is what the contract says. */
void
h_read_byte(void)
{
  start();
  VF_ASSUME(IN.off <= 6);
  RP = BUF + IN.off;
  uint8_t r = read_byte(&L2B, &RP, IN.ep);
  size_t n = RP - (BUF + IN.off);
  if (IN.ep && IN.l2b == 0 && IN.buf[IN.off] == 3) {
    VF_CHECK(n == 2 && r == IN.buf[IN.off + 1] && L2B == (uint16_t)(0x0300 | r), "escape byte skipped");
  } else {
    VF_CHECK(n == 1 && r == IN.buf[IN.off] && L2B == (uint16_t)((uint16_t)(IN.l2b << 8) | r), "byte read as is");
  }
  VF_REACH(n == 2, "escape");
}

/* Inductive step of the round trip and of the no-start-code invariant: for every writer/reader state
 * with the invariant (reader state == writer state == the last two physical bytes), one write
 * followed by one read gives the byte back, both states agree again, and no three consecutive
 * physical bytes emulate a start code. */
void
h_epb_step(void)
{
  start();
  VF_ASSUME(IN.off <= 2);
  WP = BUF + 2 + IN.off;
  RP = WP;
  // Invariant: the two physical bytes before the write position are the state.
  BUF[IN.off] = (uint8_t)(IN.l2b >> 8);
  BUF[IN.off + 1] = (uint8_t)(IN.l2b & 0xff);
  // A state with two zeros and a third one before them cannot occur (no start code so far).
  uint16_t reader = IN.l2b;
  write_byte(&L2B, &WP, IN.b, IN.ep);
  size_t n = WP - RP;
  VF_CHECK(n == 1 || (n == 2 && IN.ep), "one or two bytes per logical byte");
  const uint8_t *p = RP;
  uint8_t r = read_byte(&reader, &RP, IN.ep);
  VF_CHECK(r == IN.b, "reader returns the byte written");
  VF_CHECK(RP == WP, "reader consumes exactly the bytes written");
  VF_CHECK(reader == L2B, "reader and writer state agree");
  VF_CHECK(L2B == (uint16_t)((p[n - 2] << 8) | p[n - 1]), "state is the last two physical bytes");
  if (IN.ep) {
    VF_CHECK(spec_no_start_code(p[-2], p[-1], p[0]), "no start code across the write position");
    if (n == 2) VF_CHECK(spec_no_start_code(p[-1], p[0], p[1]) && p[0] == 3, "no start code in escaped bytes");
    // 00 00 03 is only written as an escape, so the reader cannot mistake data for an escape.
    if (p[-2] == 0 && p[-1] == 0 && p[0] == 3) VF_CHECK(n == 2, "00 00 03 only as an escape");
    // An escape is written only where one is needed.
    if (n == 2) VF_CHECK(p[-2] == 0 && p[-1] == 0 && p[1] <= 3, "escape only where needed");
  } else {
    VF_CHECK(n == 1 && p[0] == IN.b, "without escaping the byte is written as is");
  }
  VF_REACH(n == 2, "escape");
  VF_REACH(1, "end");
}

/* write_byte_many writes every source byte in order (any size up to the unwinding bound), a NULL
 * source writes nothing. */
void
h_write_byte_many(void)
{
  start();
  static uint8_t out[12], ref[12];
  VF_ASSUME(IN.n <= 5);
  char src[6];
  memcpy(src, IN.src, 6);
  WP = out;
  write_byte_many(&WP, IN.null_p ? NULL : src, IN.n, &L2B, IN.ep);
  uint8_t *rp = ref;
  uint16_t l2b = IN.l2b;
  if (!IN.null_p) {
    for (size_t i = 0; i < IN.n; i++) write_byte(&l2b, &rp, (uint8_t)IN.src[i], IN.ep);
  }
  VF_CHECK(WP - out == rp - ref && L2B == l2b, "size and state");
  VF_CHECK(memcmp(out, ref, sizeof(out)) == 0, "bytes in order");
  VF_REACH(IN.n == 5, "end");
}

/* Big-endian readers. */
void
h_read_bits(void)
{
  start();
  uint64_t v64 = 1;
  int64_t s64 = 1;
  uint32_t v32 = 1;
  uint16_t v16 = 1;
  uint8_t v8 = 1;
  uint64_t e64 = 0;
  for (int i = 0; i < 8; i++) e64 = (e64 << 8) | BUF[i];
  VF_CHECK(read_64bits(BUF, &v64) == 8 && v64 == e64, "64 bits");
  VF_CHECK(read_64bits_signed(BUF, &s64) == 8 && (uint64_t)s64 == e64, "64 bits signed");
  VF_CHECK(read_32bits(BUF, &v32) == 4 && v32 == (uint32_t)(e64 >> 32), "32 bits");
  VF_CHECK(read_16bits(BUF, &v16) == 2 && v16 == (uint16_t)(e64 >> 48), "16 bits");
  VF_CHECK(read_8bits(BUF, &v8) == 1 && v8 == BUF[0], "8 bits");
  VF_CHECK(read_64bits(NULL, &v64) == 0 && read_64bits(BUF, NULL) == 0, "null 64");
  VF_CHECK(read_32bits(NULL, &v32) == 0 && read_32bits(BUF, NULL) == 0, "null 32");
  VF_CHECK(read_16bits(NULL, &v16) == 0 && read_16bits(BUF, NULL) == 0, "null 16");
  VF_CHECK(read_8bits(NULL, &v8) == 0 && read_8bits(BUF, NULL) == 0, "null 8");
  VF_CHECK(v64 == e64 && v32 == (uint32_t)(e64 >> 32) && v16 == (uint16_t)(e64 >> 48) && v8 == BUF[0],
      "nothing written on a refused call");
  VF_REACH(1, "end");
}

/* Lemma for the size of escaped data: with credit(state) = number of trailing zeros (0..2) and the
 * invariant 2 * escapes + credit <= logical bytes written, every write keeps the invariant. Hence
 * data of n logical bytes takes at most n + n / 2 bytes (from a state without trailing zeros). */
static unsigned
credit(uint16_t l2b)
{
  return l2b == 0 ? 2 : (l2b & 0xff) == 0 ? 1 : 0;
}
void
h_escape_credit(void)
{
  start();
  WP = BUF + 2;
  // any number of bytes and escapes so far
  uint32_t n = IN.n & 0xffffff, esc = IN.n2 & 0xffffff;
  VF_ASSUME(2 * esc + credit(IN.l2b) <= n);
  write_byte(&L2B, &WP, IN.b, IN.ep);
  uint32_t esc_after = esc + (uint32_t)(WP - (BUF + 2)) - 1;
  VF_CHECK(2 * esc_after + credit(L2B) <= n + 1, "at most one escape per two bytes");
  VF_REACH(esc_after != esc, "escape");
}
