// Plain-C stand-in for the absent libintrin submodule: results are formed in a
// temporary, so any overlap of arguments is harmless.  Only used to make the
// library's own single-precision SSE code compile; the arithmetic here is not judged.
#ifndef VF_LIBINTRIN_H
#define VF_LIBINTRIN_H
typedef struct { float re, im; } vf_cf;
typedef struct { vf_cf e[3][3]; } su3_matrixf;
typedef struct { vf_cf c[3]; } su3_vectorf;
typedef struct { su3_vectorf h[2]; } half_wilson_vectorf;
static inline vf_cf vf_mac(vf_cf s, vf_cf a, float as, vf_cf b, float bs) { float ai = as * a.im, bi = bs * b.im; s.re += a.re * b.re - ai * bi; s.im += a.re * bi + ai * b.re; return s; }
static inline void intrin_sse_mult_su3_nn(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_matrixf r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { vf_cf s = {0, 0}; for (int k = 0; k < 3; ++k) s = vf_mac(s, a->e[i][k], 1, b->e[k][j], 1); r.e[i][j] = s; } *c = r; }
static inline void intrin_sse_mult_su3_an(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_matrixf r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { vf_cf s = {0, 0}; for (int k = 0; k < 3; ++k) s = vf_mac(s, a->e[k][i], -1, b->e[k][j], 1); r.e[i][j] = s; } *c = r; }
static inline void intrin_sse_mult_su3_na(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_matrixf r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { vf_cf s = {0, 0}; for (int k = 0; k < 3; ++k) s = vf_mac(s, a->e[i][k], 1, b->e[j][k], -1); r.e[i][j] = s; } *c = r; }
static inline void intrin_sse_mult_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* c) { su3_vectorf r; for (int i = 0; i < 3; ++i) { vf_cf s = {0, 0}; for (int k = 0; k < 3; ++k) s = vf_mac(s, a->e[i][k], 1, b->c[k], 1); r.c[i] = s; } *c = r; }
static inline void intrin_sse_mult_adj_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* c) { su3_vectorf r; for (int i = 0; i < 3; ++i) { vf_cf s = {0, 0}; for (int k = 0; k < 3; ++k) s = vf_mac(s, a->e[k][i], -1, b->c[k], 1); r.c[i] = s; } *c = r; }
static inline void intrin_sse_add_su3_vector(su3_vectorf* a, su3_vectorf* b, su3_vectorf* c) { for (int i = 0; i < 3; ++i) { c->c[i].re = a->c[i].re + b->c[i].re; c->c[i].im = a->c[i].im + b->c[i].im; } }
static inline void intrin_sse_mult_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* c) { half_wilson_vectorf r; for (int s = 0; s < 2; ++s) intrin_sse_mult_su3_mat_vec(a, &b->h[s], &r.h[s]); *c = r; }
static inline void intrin_sse_mult_adj_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* c) { half_wilson_vectorf r; for (int s = 0; s < 2; ++s) intrin_sse_mult_adj_su3_mat_vec(a, &b->h[s], &r.h[s]); *c = r; }
#endif
