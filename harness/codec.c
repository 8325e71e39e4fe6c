#include "ai.h"
#include <lc3.h>
#include <limits.h>

/* Size in bytes of a PCM plane of `n` samples, of step `stride` */
static long pcm_size(int fmt, int n, int stride)
{
    int b = fmt == LC3_PCM_FORMAT_S16 ? 2 : fmt == LC3_PCM_FORMAT_S24_3LE ? 3 : 4;
    return ((long)(n - 1) * stride + 1) * b;
}

void h_decode(int dt, int sr, int srp, int hr, int fmt, int stride)
{
    unsigned size = lc3_hr_decoder_size(hr, dt, srp);
    ai_assert(size > 0, "size");
    void *mem = ai_object(size);
    lc3_decoder_t d = lc3_hr_setup_decoder(hr, dt, sr, srp, mem);
    ai_assert(d == mem, "setup");
    ai_defined(mem, size, "setup initialises the whole state");
    int ns = lc3_hr_frame_samples(hr, dt, srp);
    ai_assert(ns > 0, "frame samples");
    while (ai_history()) {
        int nbytes = ai_int(-100000, 100000);
        const void *in = NULL;
        if (ai_split(ai_bool())) in = ai_bytes(nbytes);
        long np = pcm_size(fmt, ns, stride);
        void *pcm = ai_object(np);
        int ret = lc3_decode(d, in, nbytes, fmt, pcm, stride);
        ai_assert(ret >= -1 && ret <= 1, "ret");
        int b = np / ((ns - 1) * stride + 1);
        if (ret >= 0)
            for (int i = 0; i < ns; i++)
                ai_defined((char *)pcm + (long)i * stride * b, b, "the PCM frame is fully written");
        ai_merge();
    }
}

/* Outcome of the calls of the decoder, over any history: a frame lost, or in
 * error, is concealed; only the samples of the channel are written */
void h_decode_calls(int dt, int sr, int srp, int hr, int fmt, int stride)
{
    unsigned size = lc3_hr_decoder_size(hr, dt, srp);
    void *mem = ai_object(size);
    lc3_decoder_t d = lc3_hr_setup_decoder(hr, dt, sr, srp, mem);
    int ns = lc3_hr_frame_samples(hr, dt, srp);
    int max = lc3_hr_frame_bytes(hr, dt, sr, INT_MAX);
    int b = fmt == LC3_PCM_FORMAT_S16 ? 2 : fmt == LC3_PCM_FORMAT_S24_3LE ? 3 : 4;
    long np = (long)ns * stride * b;
    while (ai_history()) {
        ai_splitobj(mem, 12);
        bool lost = ai_split(ai_bool());
        int nbytes = ai_int(lost ? INT_MIN : 20, lost ? INT_MAX : max);
        uint8_t *in = NULL;
        if (!lost) { in = ai_bytes(nbytes); ai_freeze(in); }
        uint8_t *pcm = ai_object(np);
        for (long i = 0; i < np; i++)
            if (i / b % stride) pcm[i] = 0x5a;
        int ret = lc3_decode(d, in, nbytes, fmt, pcm, stride);
        if (lost) ai_assert(ret == 1, "[loss] returned value for a lost frame");
        else ai_assert(ret == 0 || ret == 1, "[loss] returned value for a frame");
        for (int i = 0; i < ns; i++)
            ai_defined(pcm + (long)i * stride * b, b, "[pcm] the PCM frame is fully written");
        for (long i = 0; i < np; i++)
            if (i / b % stride) ai_assert(pcm[i] == 0x5a, "[pcm] nothing is written between the samples");
        ai_noptr(mem, size, "[kept] a pointer is kept in the decoder");
        ai_merge();
    }
}

void h_encode(int dt, int sr, int srp, int hr, int fmt, int stride)
{
    unsigned size = lc3_hr_encoder_size(hr, dt, srp);
    ai_assert(size > 0, "size");
    void *mem = ai_object(size);
    lc3_encoder_t e = lc3_hr_setup_encoder(hr, dt, sr, srp, mem);
    ai_assert(e == mem, "setup");
    ai_defined(mem, size, "setup initialises the whole state");
    int ns = lc3_hr_frame_samples(hr, dt, srp);
    ai_assert(ns > 0, "frame samples");
    while (ai_history()) {
        if (ai_bool()) lc3_encoder_disable_ltpf(e);
        int nbytes = ai_int(-100000, 100000);
        long np = pcm_size(fmt, ns, stride);
        void *pcm = ai_bytes(np);
        ai_readonly(pcm);
        void *out = ai_object(nbytes);
        int ret = lc3_encode(e, fmt, pcm, stride, nbytes, out);
        ai_assert(ret >= -1 && ret <= 0, "ret");
        ai_noptr(mem, size, "[kept] a pointer is kept in the encoder");
        ai_merge();
    }
}
