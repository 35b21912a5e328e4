// Portable replacements for the volk kernels the modem uses: same results on every CPU, operands checked by AddressSanitizer.
#include <volk/volk.h>
#include <stdlib.h>
#include <math.h>
#include <stdint.h>
#include <limits.h>
#include <stdio.h>
#include <complex.h>
void *sim_volk_malloc(size_t n, size_t a);
void *__asan_region_is_poisoned(void *beg, size_t size);
void __asan_report_load_n(void *p, size_t n); void __asan_report_store_n(void *p, size_t n);
// this file is built without instrumentation; operands are checked as a whole instead
static void rd(const void *p, size_t n) { void *b = n ? __asan_region_is_poisoned((void *) p, n) : 0; if (b) __asan_report_load_n(b, 1); }
static void wr(void *p, size_t n) { void *b = n ? __asan_region_is_poisoned(p, n) : 0; if (b) __asan_report_store_n(b, 1); }
static void s_mulconj(lv_32fc_t *c, const lv_32fc_t *a, const lv_32fc_t *b, unsigned int n) {
    const float *x = (const float *) a, *y = (const float *) b; float *z = (float *) c;
    rd(a, n * 8UL); rd(b, n * 8UL); wr(c, n * 8UL);
    for (unsigned int i = 0; i < n; i++) {
        float xr = x[2 * i], xi = x[2 * i + 1], yr = y[2 * i], yi = y[2 * i + 1];
        z[2 * i] = xr * yr + xi * yi; z[2 * i + 1] = xi * yr - xr * yi;
    }
}
static void s_mul(lv_32fc_t *c, const lv_32fc_t *a, const lv_32fc_t *b, unsigned int n) {
    const float *x = (const float *) a, *y = (const float *) b; float *z = (float *) c;
    rd(a, n * 8UL); rd(b, n * 8UL); wr(c, n * 8UL);
    for (unsigned int i = 0; i < n; i++) {
        float xr = x[2 * i], xi = x[2 * i + 1], yr = y[2 * i], yi = y[2 * i + 1];
        z[2 * i] = xr * yr - xi * yi; z[2 * i + 1] = xr * yi + xi * yr;
    }
}
static void s_dotc(lv_32fc_t *r, const lv_32fc_t *in, const float *t, unsigned int n) {
    const float *x = (const float *) in; float re = 0, im = 0;
    rd(in, n * 8UL); rd(t, n * 4UL); wr(r, 8);
    for (unsigned int i = 0; i < n; i++) { re += x[2 * i] * t[i]; im += x[2 * i + 1] * t[i]; }
    ((float *) r)[0] = re; ((float *) r)[1] = im;
}
static void s_dotf(float *r, const float *x, const float *t, unsigned int n) {
    float s = 0;
    rd(x, n * 4UL); rd(t, n * 4UL); wr(r, 4);
    for (unsigned int i = 0; i < n; i++) s += x[i] * t[i];
    *r = s;
}
static void s_to8(int8_t *o, const float *x, const float k, unsigned int n) {
    rd(x, n * 4UL); wr(o, n);
    for (unsigned int i = 0; i < n; i++) { float v = x[i] * k; if (v > 127.f) v = 127.f; if (v < -128.f) v = -128.f; o[i] = (int8_t) rintf(v); }
}
static void s_to16(int16_t *o, const float *x, const float k, unsigned int n) {
    rd(x, n * 4UL); wr(o, n * 2UL);
    for (unsigned int i = 0; i < n; i++) { float v = x[i] * k; if (v > 32767.f) v = 32767.f; if (v < -32768.f) v = -32768.f; o[i] = (int16_t) rintf(v); }
}
static void s_16tof(float *o, const int16_t *x, const float k, unsigned int n) {
    float inv = 1.0f / k;
    rd(x, n * 2UL); wr(o, n * 4UL);
    for (unsigned int i = 0; i < n; i++) o[i] = (float) x[i] * inv;
}
p_32fc_x2_multiply_conjugate_32fc volk_32fc_x2_multiply_conjugate_32fc = s_mulconj;
p_32fc_x2_multiply_conjugate_32fc volk_32fc_x2_multiply_conjugate_32fc_u = s_mulconj;
p_32fc_x2_multiply_conjugate_32fc volk_32fc_x2_multiply_conjugate_32fc_a = s_mulconj;
p_32fc_x2_multiply_32fc volk_32fc_x2_multiply_32fc = s_mul;
p_32fc_x2_multiply_32fc volk_32fc_x2_multiply_32fc_u = s_mul;
p_32fc_x2_multiply_32fc volk_32fc_x2_multiply_32fc_a = s_mul;
p_32fc_32f_dot_prod_32fc volk_32fc_32f_dot_prod_32fc = s_dotc;
p_32fc_32f_dot_prod_32fc volk_32fc_32f_dot_prod_32fc_u = s_dotc;
p_32fc_32f_dot_prod_32fc volk_32fc_32f_dot_prod_32fc_a = s_dotc;
p_32f_x2_dot_prod_32f volk_32f_x2_dot_prod_32f = s_dotf;
p_32f_x2_dot_prod_32f volk_32f_x2_dot_prod_32f_u = s_dotf;
p_32f_x2_dot_prod_32f volk_32f_x2_dot_prod_32f_a = s_dotf;
p_32f_s32f_convert_8i volk_32f_s32f_convert_8i = s_to8;
p_32f_s32f_convert_8i volk_32f_s32f_convert_8i_u = s_to8;
p_32f_s32f_convert_8i volk_32f_s32f_convert_8i_a = s_to8;
p_32f_s32f_convert_16i volk_32f_s32f_convert_16i = s_to16;
p_32f_s32f_convert_16i volk_32f_s32f_convert_16i_u = s_to16;
p_32f_s32f_convert_16i volk_32f_s32f_convert_16i_a = s_to16;
p_16i_s32f_convert_32f volk_16i_s32f_convert_32f = s_16tof;
p_16i_s32f_convert_32f volk_16i_s32f_convert_32f_u = s_16tof;
p_16i_s32f_convert_32f volk_16i_s32f_convert_32f_a = s_16tof;
size_t volk_get_alignment(void) { return 32; }
void *volk_malloc(size_t n, size_t a) { return sim_volk_malloc(n, a); }
void volk_free(void *p) { free(p); }
