// Stand-in for <arm_neon.h>: the armv8 sources of the library run on this machine.  Vectors are
// GCC vectors; every intrinsic does on four (two) floats what Arm's reference manual says it does.
#pragma once
#include <stdint.h>
#include <string.h>
typedef float float32_t;
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef double float64x2_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef struct { float32x4_t val[2]; } float32x4x2_t;
typedef struct { float32x4_t val[3]; } float32x4x3_t;
typedef struct { float32x4_t val[4]; } float32x4x4_t;
#define NEON static inline __attribute__((unused))
NEON float32x4_t vld1q_f32(const float* p) { float32x4_t r; memcpy(&r, p, 16); return r; }
NEON float32x2_t vld1_f32(const float* p) { float32x2_t r; memcpy(&r, p, 8); return r; }
NEON void vst1q_f32(float* p, float32x4_t v) { memcpy(p, &v, 16); }
NEON void vst1_f32(float* p, float32x2_t v) { memcpy(p, &v, 8); }
NEON float32x4_t vdupq_n_f32(float x) { float32x4_t r = {x, x, x, x}; return r; }
NEON float32x2_t vdup_n_f32(float x) { float32x2_t r = {x, x}; return r; }
#define vmovq_n_f32 vdupq_n_f32
NEON float32x4_t vld1q_dup_f32(const float* p) { return vdupq_n_f32(*p); }
NEON float32x2_t vld1_dup_f32(const float* p) { return vdup_n_f32(*p); }
NEON float32x4_t vfmaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { for(int i = 0; i < 4; i++) c[i] = __builtin_fmaf(a[i], b[i], c[i]); return c; }
NEON float32x4_t vfmsq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { for(int i = 0; i < 4; i++) c[i] = __builtin_fmaf(-a[i], b[i], c[i]); return c; }
NEON float32x2_t vfma_f32(float32x2_t c, float32x2_t a, float32x2_t b) { for(int i = 0; i < 2; i++) c[i] = __builtin_fmaf(a[i], b[i], c[i]); return c; }
NEON float32x4_t vfmaq_n_f32(float32x4_t c, float32x4_t a, float b) { return vfmaq_f32(c, a, vdupq_n_f32(b)); }
NEON float32x4_t vfmaq_laneq_f32(float32x4_t c, float32x4_t a, float32x4_t b, const int l) { return vfmaq_f32(c, a, vdupq_n_f32(b[l])); }
NEON float32x4_t vfmaq_lane_f32(float32x4_t c, float32x4_t a, float32x2_t b, const int l) { return vfmaq_f32(c, a, vdupq_n_f32(b[l])); }
#define vmlaq_f32 vfmaq_f32
#define vmlaq_n_f32 vfmaq_n_f32
NEON float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a*b; }
NEON float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a*vdupq_n_f32(b); }
NEON float32x2_t vmul_f32(float32x2_t a, float32x2_t b) { return a*b; }
NEON float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a+b; }
NEON float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a-b; }
NEON float32x4_t vld1q_lane_f32(const float* p, float32x4_t v, const int l) { v[l] = *p; return v; }
NEON void vst1q_lane_f32(float* p, float32x4_t v, const int l) { *p = v[l]; }
NEON float vgetq_lane_f32(float32x4_t v, const int l) { return v[l]; }
NEON float32x4_t vsetq_lane_f32(float x, float32x4_t v, const int l) { v[l] = x; return v; }
NEON float32x2_t vget_low_f32(float32x4_t v) { float32x2_t r = {v[0], v[1]}; return r; }
NEON float32x2_t vget_high_f32(float32x4_t v) { float32x2_t r = {v[2], v[3]}; return r; }
NEON float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { float32x4_t r = {a[0], a[1], b[0], b[1]}; return r; }
NEON float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[0], b[0], a[2], b[2]}; return r; }
NEON float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[1], b[1], a[3], b[3]}; return r; }
NEON float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[0], b[0], a[1], b[1]}; return r; }
NEON float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[2], b[2], a[3], b[3]}; return r; }
NEON float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[0], a[2], b[0], b[2]}; return r; }
NEON float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[1], a[3], b[1], b[3]}; return r; }
NEON float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{vtrn1q_f32(a, b), vtrn2q_f32(a, b)}}; return r; }
NEON float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{vzip1q_f32(a, b), vzip2q_f32(a, b)}}; return r; }
NEON uint32x4_t vdupq_n_u32(uint32_t x) { uint32x4_t r = {x, x, x, x}; return r; }
NEON float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t) a; }
NEON uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t) a; }
NEON float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
NEON float64x2_t vtrn1q_f64(float64x2_t a, float64x2_t b) { float64x2_t r = {a[0], b[0]}; return r; }
NEON float64x2_t vtrn2q_f64(float64x2_t a, float64x2_t b) { float64x2_t r = {a[1], b[1]}; return r; }
#define vzip1q_f64 vtrn1q_f64
#define vzip2q_f64 vtrn2q_f64
NEON float64x2_t vreinterpretq_f64_f32(float32x4_t a) { return (float64x2_t) a; }
NEON float32x4_t vreinterpretq_f32_f64(float64x2_t a) { return (float32x4_t) a; }
