/* Specifications for the 16-bit float types (included before the extracted text).
   Written from the IEEE-754 definition with integer arithmetic only, except that an exact product denotes a
   subnormal half's value. */
static unsigned int fbits(float f) { union { float f; unsigned int u; } x; x.f = f; return x.u; }
static float bitsf(unsigned int u) { union { float f; unsigned int u; } x; x.u = u; return x.f; }
static _Bool f_isnan(unsigned int u) { return (u & 0x7fffffffu) > 0x7f800000u; }
static _Bool h_isnan(unsigned short h) { return (h & 0x7fffu) > 0x7c00u; }
static _Bool b_isnan(unsigned short h) { return (h & 0x7fffu) > 0x7f80u; }
/* nearest half, ties to even; the argument is not a NaN */
static unsigned short spec_f2h(unsigned int u) {
  unsigned int s = (u >> 16) & 0x8000u, e = (u >> 23) & 0xffu, m = u & 0x7fffffu;
  int E = (int)e - 127;
  unsigned int q, rem, half_;
  if (e == 255u) return (unsigned short)(s | 0x7c00u);
  if (E > 15) return (unsigned short)(s | 0x7c00u);
  if (E >= -14) {                     /* 13 dropped bits */
    q = ((unsigned int)(E + 15) << 10) | (m >> 13); rem = m & 0x1fffu; half_ = 0x1000u;
  } else if (E >= -25) {              /* subnormal: unit is 2^-24 */
    unsigned int M = m | 0x800000u, sh = (unsigned int)(13 + (-14 - E));
    q = M >> sh; rem = M & ((1u << sh) - 1u); half_ = 1u << (sh - 1u);
  } else return (unsigned short)s;
  if (rem > half_ || (rem == half_ && (q & 1u))) q = q + 1u;
  return (unsigned short)(s | q);
}
/* the value denoted by a half that is not a NaN */
static unsigned int spec_h2f(unsigned short h) {
  unsigned int s = ((unsigned int)h & 0x8000u) << 16, e = ((unsigned int)h >> 10) & 31u, m = h & 0x3ffu;
  if (e == 31u) return s | 0x7f800000u;
  if (e == 0u) return s | fbits((float)m * 0x1p-24f);
  return s | ((e + 112u) << 23) | (m << 13);
}
static unsigned short spec_f2b(unsigned int u) {
  unsigned int q = u >> 16, rem = u & 0xffffu;
  if (rem > 0x8000u || (rem == 0x8000u && (q & 1u))) q = q + 1u;
  return (unsigned short)q;
}
static unsigned int spec_b2f(unsigned short h) { return (unsigned int)h << 16; }
static _Bool is_f2h(float f, unsigned short r) {
  return f_isnan(fbits(f)) ? (h_isnan(r) && (unsigned)(r >> 15) == (fbits(f) >> 31)) : r == spec_f2h(fbits(f)); }
static _Bool is_h2f(unsigned short h, float f) {
  return h_isnan(h) ? (f_isnan(fbits(f)) && (unsigned)(h >> 15) == (fbits(f) >> 31)) : fbits(f) == spec_h2f(h); }
static _Bool is_f2b(float f, unsigned short r) { return f_isnan(fbits(f)) ? b_isnan(r) : r == spec_f2b(fbits(f)); }
static _Bool is_b2f(unsigned short h, float f) { return fbits(f) == spec_b2f(h); }
static int isnanf_(float f) { return f_isnan(fbits(f)); }
static int isinff_(float f) { return (fbits(f) & 0x7fffffffu) == 0x7f800000u; }
static int signbitf_(float f) { return (int)(fbits(f) >> 31); }
/* lemmas over the contracts (checked by the same back end): the round trip, and that the specification itself is
   "the nearest representable value": no half lies strictly closer to the argument */
void lemma_round_trip_half(unsigned short h) { if (!h_isnan(h)) __CPROVER_assert(spec_f2h(spec_h2f(h)) == h, "half -> float -> half is the identity"); }
void lemma_round_trip_bf16(unsigned short h) { if (!b_isnan(h)) __CPROVER_assert(spec_f2b(spec_b2f(h)) == h, "bfloat16 -> float -> bfloat16 is the identity"); }
void lemma_nearest_half(unsigned int u, unsigned short o) {
  if (f_isnan(u) || (u & 0x7f800000u) == 0x7f800000u) return;
  unsigned short r = spec_f2h(u);
  double x = (double)bitsf(u);
  if (h_isnan(o) || (o & 0x7c00u) == 0x7c00u) return;                /* every finite half */
  if ((r & 0x7c00u) == 0x7c00u) { __CPROVER_assert((x < 0 ? -x : x) >= 65520.0, "overflow only beyond the midpoint"); return; }
  double d = x - (double)bitsf(spec_h2f(r)), p = x - (double)bitsf(spec_h2f(o));
  d = d < 0 ? -d : d; p = p < 0 ? -p : p;
  __CPROVER_assert(d <= p, "no half is closer than the result");
  __CPROVER_assert(d < p || (r & 0x7fffu) == (o & 0x7fffu) || !(r & 1u), "ties go to the even significand");
}
void lemma_nearest_bf16(unsigned int u, unsigned short o) {
  if (f_isnan(u) || (u & 0x7f800000u) == 0x7f800000u) return;
  unsigned short r = spec_f2b(u);
  double x = (double)bitsf(u);
  if (b_isnan(o) || (o & 0x7f80u) == 0x7f80u) return;
  if ((r & 0x7f80u) == 0x7f80u) { __CPROVER_assert((x < 0 ? -x : x) >= 0x1.ffp+127, "overflow only beyond the midpoint"); return; }
  double d = x - (double)bitsf(spec_b2f(r)), p = x - (double)bitsf(spec_b2f(o));
  d = d < 0 ? -d : d; p = p < 0 ? -p : p;
  __CPROVER_assert(d <= p, "no bfloat16 is closer than the result");
  __CPROVER_assert(d < p || (r & 0x7fffu) == (o & 0x7fffu) || !(r & 1u), "ties go to the even significand");
}
