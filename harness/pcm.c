/* Conversion of the samples, seen between the interface and the transforms.
 *
 * The range of the samples is cut in 65536 intervals, one for each value of
 * 16 bits, distributed over the samples of frames; with other values of 24
 * bits, and values out of range, on their own (mode 1). */
#include "ai.h"
#include <lc3.h>
#include <mdct.h>
#include <ltpf.h>
#include <tables.h>

static int g_fmt, g_mode, g_base, g_ns;

/* 24 bits values around powers of 2, then values around the limits */
static int special(int k)
{
    k %= 23 * 3 * 2;
    int n = k / 6, d = k / 2 % 3 - 1, w = (1 << n) + d;
    w = k & 1 ? -w : w;
    return w > 8388607 ? 8388607 : w;
}


/* --- Encoder --- */

void c_pcm_forward(enum lc3_dt dt, enum lc3_srate sr, enum lc3_srate sr_dst,
    const float *x, float *d, float *y)
{
    int ns = lc3_ns(dt, sr), nd = lc3_nd(dt, sr);
    (void)sr_dst;
    ai_assert(ns == g_ns, "[pcm] number of samples transformed");
    for (int i = 0; i < ns; i++) {
        int k = (g_base + i) % 65536, v = k - 32768, w = special(k);
        float lo, hi;
        if (g_mode) lo = hi = g_fmt == LC3_PCM_FORMAT_S16 ? v :
                              g_fmt == LC3_PCM_FORMAT_FLOAT && i % 8 == 7 ? v * 4.f : w / 256.f;
        else {
            lo = v;
            hi = g_fmt == LC3_PCM_FORMAT_S16 ? v : g_fmt == LC3_PCM_FORMAT_FLOAT ? v + 1 : v + 255 / 256.f;
        }
        ai_assert(x[i] >= lo && x[i] <= hi, "[pcm] value of a sample transformed");
    }
    ai_any(d, nd * sizeof(float));
    ai_any(y, ns * sizeof(float));
}

bool c_pcm_ltpf_analyse(enum lc3_dt dt, enum lc3_srate sr,
    lc3_ltpf_analysis_t *s, const int16_t *x, lc3_ltpf_data_t *data)
{
    int ns = lc3_ns(dt, sr);
    (void)s, (void)data;
    ai_assert(ns == g_ns, "[pcm] number of samples analysed");
    for (int i = 0; i < ns; i++) {
        int k = (g_base + i) % 65536, v = k - 32768, w = special(k), lo, hi;
        if (g_mode) {
            lo = g_fmt == LC3_PCM_FORMAT_S16 ? v : w >> 8;
            hi = lo + (g_fmt == LC3_PCM_FORMAT_FLOAT);
            if (g_fmt == LC3_PCM_FORMAT_FLOAT && i % 8 == 7)
                lo = hi = v * 4;
        } else lo = v, hi = v + (g_fmt == LC3_PCM_FORMAT_FLOAT);
        lo = lo > 32767 ? 32767 : lo < -32768 ? -32768 : lo;
        hi = hi > 32767 ? 32767 : hi < -32768 ? -32768 : hi;
        ai_assert(x[i] >= lo && x[i] <= hi, "[pcm] value of a sample analysed");
    }
    return false;
}

bool c_pcm_attdet(enum lc3_dt dt, enum lc3_srate sr,
    int nbytes, void *s, const int16_t *x)
{
    (void)dt, (void)sr, (void)nbytes, (void)s, (void)x;
    return ai_bool();
}

void h_pcm_load(int dt, int sr, int srp, int hr, int fmt, int stride, int mode, int base)
{
    unsigned size = lc3_hr_encoder_size(hr, dt, srp);
    void *mem = ai_object(size);
    lc3_encoder_t e = lc3_hr_setup_encoder(hr, dt, sr, srp, mem);
    int ns = lc3_hr_frame_samples(hr, dt, srp);
    int b = fmt == LC3_PCM_FORMAT_S16 ? 2 : fmt == LC3_PCM_FORMAT_S24_3LE ? 3 : 4;
    int nbytes = lc3_hr_frame_bytes(hr, dt, sr, 0);
    g_fmt = fmt, g_mode = mode, g_base = base, g_ns = ns;

    uint8_t *pcm = ai_bytes((long)ns * stride * b);
    for (int i = 0; i < ns; i++) {
        uint8_t *p = pcm + (long)i * stride * b;
        int k = (base + i) % 65536, v = k - 32768, w = special(k);
        switch (fmt) {
        case LC3_PCM_FORMAT_S16:
            *(int16_t *)p = v; break;
        case LC3_PCM_FORMAT_S24:
            *(int32_t *)p = mode ? w : ai_int(v * 256, v * 256 + 255); break;
        case LC3_PCM_FORMAT_S24_3LE:
            p[0] = mode ? w & 0xff : ai_int(0, 255);
            p[1] = mode ? (w >> 8) & 0xff : v & 0xff;
            p[2] = mode ? (w >> 16) & 0xff : (v >> 8) & 0xff;
            break;
        case LC3_PCM_FORMAT_FLOAT:
            *(float *)p = mode && i % 8 == 7 ? v * 4.f / 32768.f : mode ? w / 8388608.f :
                ai_float(v / 32768.f, (v + 1) / 32768.f);
            break;
        }
    }
    ai_readonly(pcm);
    void *out = ai_object(nbytes);
    int ret = lc3_encode(e, fmt, pcm, stride, nbytes, out);
    ai_assert(ret == 0, "[pcm] frame encoded");
}

/* --- Decoder --- */

void c_pcm_inverse(enum lc3_dt dt, enum lc3_srate sr, enum lc3_srate sr_src,
    const float *x, float *d, float *y)
{
    int ns = lc3_ns(dt, sr), nd = lc3_nd(dt, sr);
    (void)x, (void)sr_src;
    ai_any(d, nd * sizeof(float));
    for (int i = 0; i < ns; i++) {
        int k = (g_base + i) % 65536, v = k - 32768, w = special(k);
        if (g_mode && i % 8 == 7) y[i] = ai_float(i & 8 ? 32768.f : -1e30f, i & 8 ? 1e30f : -32769.f);
        else if (g_mode && i % 8 == 3) y[i] = ai_float(i & 8 ? 32767.f : -40000.f, i & 8 ? 40000.f : -32767.f);
        else if (g_mode && g_fmt != LC3_PCM_FORMAT_S16) y[i] = w / 256.f;
        else if (g_fmt == LC3_PCM_FORMAT_S16) y[i] = ai_float(v - 0.49f, v + 0.49f);
        else y[i] = ai_float(v, v + (g_fmt == LC3_PCM_FORMAT_FLOAT ? 1 : 255 / 256.f));
    }
}

void c_pcm_ltpf_synthesize(enum lc3_dt dt, enum lc3_srate sr, int nbytes,
    lc3_ltpf_synthesis_t *ltpf, const lc3_ltpf_data_t *data,
    const float *xh, float *x)
{
    (void)dt, (void)sr, (void)nbytes, (void)ltpf, (void)data, (void)xh, (void)x;
}

void h_pcm_store(int dt, int sr, int srp, int hr, int fmt, int stride, int mode, int base)
{
    unsigned size = lc3_hr_decoder_size(hr, dt, srp);
    void *mem = ai_object(size);
    lc3_decoder_t d = lc3_hr_setup_decoder(hr, dt, sr, srp, mem);
    int ns = lc3_hr_frame_samples(hr, dt, srp);
    int b = fmt == LC3_PCM_FORMAT_S16 ? 2 : fmt == LC3_PCM_FORMAT_S24_3LE ? 3 : 4;
    g_fmt = fmt, g_mode = mode, g_base = base, g_ns = ns;

    uint8_t *pcm = ai_object((long)ns * stride * b);
    int ret = lc3_decode(d, NULL, 0, fmt, pcm, stride);
    ai_assert(ret == 1, "[pcm] frame lost");
    int max = fmt == LC3_PCM_FORMAT_S16 ? 32767 : 8388607;
    for (int i = 0; i < ns; i++) {
        uint8_t *p = pcm + (long)i * stride * b;
        int k = (base + i) % 65536, v = k - 32768, w = special(k), lo, hi;
        bool sat = mode && i % 8 == 7, edge = mode && i % 8 == 3;
        if (fmt == LC3_PCM_FORMAT_FLOAT) {
            float l = sat ? (i & 8 ? 1.f : -1.f) : edge ? (i & 8 ? 32767 / 32768.f : -1.f) :
                mode ? w / 8388608.f : v / 32768.f;
            float h = sat ? l : edge ? (i & 8 ? 1.f : -32767 / 32768.f) :
                mode ? l : (v + 1) / 32768.f;
            float x = *(float *)p;
            ai_assert(x >= l && x <= h, "[pcm] value of a floating-point sample");
            continue;
        }
        if (sat) lo = hi = i & 8 ? max : -max - 1;
        else if (edge && fmt == LC3_PCM_FORMAT_S16) lo = i & 8 ? 32767 : -32768, hi = i & 8 ? 32767 : -32767;
        else if (edge) lo = i & 8 ? 32767 * 256 : -8388608, hi = i & 8 ? 8388607 : -32767 * 256;
        else if (fmt == LC3_PCM_FORMAT_S16) lo = hi = v;
        else if (mode) lo = hi = w;
        else lo = v * 256, hi = v * 256 + 255;
        if (fmt == LC3_PCM_FORMAT_S24_3LE) {
            if (edge) {
                ai_assert(p[2] >= (i & 8 ? 0x7f : 0x80) && p[2] <= (i & 8 ? 0x7f : 0x80), "[pcm] high byte of a sample of 24 bits");
            } else if (lo == hi) {
                ai_assert(p[0] == (lo & 0xff), "[pcm] low byte of a sample of 24 bits");
                ai_assert(p[1] == ((lo >> 8) & 0xff), "[pcm] middle byte of a sample of 24 bits");
                ai_assert(p[2] == ((lo >> 16) & 0xff), "[pcm] high byte of a sample of 24 bits");
            } else {
                ai_assert(p[1] == (v & 0xff), "[pcm] middle byte of a sample of 24 bits");
                ai_assert(p[2] == ((v >> 8) & 0xff), "[pcm] high byte of a sample of 24 bits");
            }
        } else {
            int x = fmt == LC3_PCM_FORMAT_S16 ? *(int16_t *)p : *(int32_t *)p;
            ai_assert(x >= lo && x <= hi, "[pcm] value of a sample");
        }
    }
}
