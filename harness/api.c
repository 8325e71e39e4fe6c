/* Interface: parameters, sizes, and calls that are refused.  The expected
 * values come from the documentation of lc3.h. */
#include "ai.h"
#include <lc3.h>
#include <limits.h>

/* One of the values documented, or any value between them */
static int pick(const int *v, int n)
{
    int k = ai_split(ai_int(0, 2 * n));
    int x;
    if (k & 1) x = v[k >> 1];
    else x = ai_int(k ? v[(k >> 1) - 1] + 1 : INT_MIN, k < 2 * n ? v[k >> 1] - 1 : INT_MAX);
    return x;
}

static const int durations[] = { 2500, 5000, 7500, 10000 };
static const int rates[] = { 8000, 16000, 24000, 32000, 48000, 96000 };

static int valid_dt(int hr, int us)
{
    return us == 2500 || us == 5000 || (us == 7500 && !hr) || us == 10000;
}

static int valid_sr(int hr, int hz)
{
    return hr ? hz == 48000 || hz == 96000 :
        hz == 8000 || hz == 16000 || hz == 24000 || hz == 32000 || hz == 48000;
}

/* Limits of the size of frames, table of lc3.h; half of the lowest sizes
 * of the high-resolution mode are accepted for the fallback operation */
static int min_bytes(int hr, int us, int hz)
{
    return !hr ? 20 :
        (us == 10000 ? (hz == 48000 ? 156 : 187) :
         us ==  5000 ? (hz == 48000 ?  93 : 109) : (hz == 48000 ? 54 : 62)) / 2;
}

static int max_bytes(int hr, int us, int hz)
{
    return !hr ? 400 : us == 10000 ? 625 : us == 5000 ? 375 : 210;
}

static int samples(int us, int hz) { return (us / 100) * (hz / 1000) / 10; }

/* Sizes in samples, for all the values of the parameters */
void h_api_samples(int hr)
{
    int us = pick(durations, 4), hz = pick(rates, 6);
    int ok = valid_dt(hr, us) && valid_sr(hr, hz);
    int n = lc3_hr_frame_samples(hr, us, hz);
    int d = lc3_hr_delay_samples(hr, us, hz);
    if (ok) {
        ai_assert(n == samples(us, hz), "[samples] samples of a frame");
        ai_assert(d == samples(us == 7500 ? 4000 : 2500, hz), "[samples] algorithmic delay");
    } else {
        ai_assert(n == -1, "[samples] frame samples of bad parameters");
        ai_assert(d == -1, "[samples] delay of bad parameters");
    }
    if (!hr) {
        ai_assert(lc3_frame_samples(us, hz) == n, "[samples] lc3_frame_samples()");
        ai_assert(lc3_delay_samples(us, hz) == d, "[samples] lc3_delay_samples()");
    }
    ai_merge();
}

/* Sizes of the frames, on bad parameters */
void h_api_bytes_bad(int hr)
{
    int us = pick(durations, 4), hz = pick(rates, 6);
    ai_partition(2);
    int ok = valid_dt(hr, us) && valid_sr(hr, hz);
    int c = ai_split(ai_int(0, 3));
    int nch = c == 0 ? ai_int(INT_MIN, 0) : c == 1 ? ai_int(9, INT_MAX) : ai_int(1, 8);
    int rate = c == 2 ? ai_int(INT_MIN, -1) : ai_int(0, INT_MAX);
    int r = lc3_hr_frame_block_bytes(hr, us, hz, nch, rate);
    if (!ok || c < 3) ai_assert(r == -1, "[bytes] block size of bad parameters");
    else ai_assert(r > 0, "[bytes] block size");
    if (!ok || c == 2) ai_assert(lc3_hr_frame_bytes(hr, us, hz, rate) == -1, "[bytes] frame size of bad parameters");
    int n = c ? ai_int(INT_MIN, -1) : ai_int(0, INT_MAX);
    r = lc3_hr_resolve_bitrate(hr, us, hz, n);
    if (!ok || c) ai_assert(r == -1, "[bytes] bitrate of bad parameters");
    else ai_assert(r >= 0, "[bytes] bitrate");
    if (!hr) {
        r = lc3_frame_block_bytes(us, nch, rate);
        if (!valid_dt(0, us) || c < 3) ai_assert(r == -1, "[bytes] block size of bad parameters");
        if (!valid_dt(0, us) || c == 2) ai_assert(lc3_frame_bytes(us, rate) == -1, "[bytes] frame size of bad parameters");
        r = lc3_resolve_bitrate(us, n);
        if (!valid_dt(0, us) || c) ai_assert(r == -1, "[bytes] bitrate of bad parameters");
    }
    ai_merge();
}

/* Sizes of the frames: all the bitrates that give a same size, for each size */
static int first_rate(int us, int bytes)     /* ceil(bytes * 8 / duration) */
{
    int k = us / 2500;
    return (int)(((long)bytes * 3200 + k - 1) / k);
}

void h_api_bytes(int hr, int us, int hz, int nch)
{
    int lo = nch * min_bytes(hr, us, hz), hi = nch * max_bytes(hr, us, hz);
    ai_partition(2);
    for (int n = lo; n <= hi; n++) {
        int a = n == lo ? 0 : first_rate(us, n);
        int b = n == hi ? INT_MAX : first_rate(us, n + 1) - 1;
        int rate = ai_int(a, b);
        ai_assert(lc3_hr_frame_block_bytes(hr, us, hz, nch, rate) == n,
            "[bytes] size of blocks from the bitrate");
        if (nch == 1)
            ai_assert(lc3_hr_frame_bytes(hr, us, hz, rate) == n,
                "[bytes] size of frames from the bitrate");
        if (!hr) {
            ai_assert(lc3_frame_block_bytes(us, nch, rate) == n,
                "[bytes] size of blocks from the bitrate");
            if (nch == 1)
                ai_assert(lc3_frame_bytes(us, rate) == n,
                    "[bytes] size of frames from the bitrate");
        }
    }
}

/* Bitrate from the size: the lowest one that gives this size */
void h_api_bitrate(int hr, int us, int hz)
{
    for (int n = 0; n <= 8 * max_bytes(hr, us, hz); n++) {
        int r = lc3_hr_resolve_bitrate(hr, us, hz, n);
        ai_assert(r == first_rate(us, n), "[bytes] bitrate from the size");
        if (!hr)
            ai_assert(lc3_resolve_bitrate(us, n) == r, "[bytes] bitrate from the size");
    }
    int r = lc3_hr_resolve_bitrate(hr, us, hz, ai_int(8 * max_bytes(hr, us, hz), INT_MAX));
    ai_assert(r >= first_rate(us, 8 * max_bytes(hr, us, hz)), "[bytes] bitrate of a large size");
    ai_assert(lc3_hr_resolve_bitrate(hr, us, hz, ai_int(INT_MAX - 100, INT_MAX)) == INT_MAX,
        "[bytes] bitrate over the range of the result");
}

/* Setup, for all the values of the parameters */
void h_api_setup(int hr, int decoder)
{
    int us = pick(durations, 4);
    int hz = pick(rates, 6);
    int c = ai_split(ai_int(0, 7));
    int pcm = c == 0 ? ai_int(INT_MIN, 0) : c == 7 ? ai_int(96001, INT_MAX) : rates[c - 1];
    int same = c == 0;
    bool null = ai_split(ai_bool());
    int srp = same ? hz : pcm;
    int ok = valid_dt(hr, us) && valid_sr(hr, hz) && valid_sr(hr, srp) && hz <= srp && !null;
    unsigned size = decoder ? lc3_hr_decoder_size(hr, us, srp) : lc3_hr_encoder_size(hr, us, srp);
    if (!valid_dt(hr, us) || !valid_sr(hr, srp)) {
        ai_assert(size == 0, "[setup] size of bad parameters");
        size = 20000;
    }
    void *obj = ai_object(size), *mem = null ? NULL : obj;
    if (!ok) ai_freeze(obj);
    void *h = decoder ? (void *)lc3_hr_setup_decoder(hr, us, hz, pcm, mem)
                      : (void *)lc3_hr_setup_encoder(hr, us, hz, pcm, mem);
    if (ok) {
        ai_assert(h == mem, "[setup] handle at the address of the memory");
        ai_defined(mem, size, "[setup] the whole memory is initialised");
    } else
        ai_assert(h == NULL, "[setup] handle for bad parameters");
    if (!hr) {
        ai_freeze(obj);
        if (ok) ai_unfreeze(obj);
        ai_assert((decoder ? lc3_decoder_size(us, srp) : lc3_encoder_size(us, srp)) ==
            (decoder ? lc3_hr_decoder_size(hr, us, srp) : lc3_hr_encoder_size(hr, us, srp)), "[setup] size");
        h = decoder ? (void *)lc3_setup_decoder(us, hz, pcm, mem)
                    : (void *)lc3_setup_encoder(us, hz, pcm, mem);
        ai_assert(h == (ok ? mem : NULL), "[setup] handle");
    }
    ai_merge();
}

/* Sample rates other than the documented ones, between them */
void h_api_setup_any(int hr, int decoder)
{
    int us = pick(durations, 4), hz = pick(rates, 6), pcm = pick(rates, 6);
    if (pcm <= 0) { ai_merge(); return; }
    int ok = valid_dt(hr, us) && valid_sr(hr, hz) && valid_sr(hr, pcm) && hz <= pcm;
    if (!ok) {
        void *obj = ai_object(20000);
        ai_freeze(obj);
        void *h = decoder ? (void *)lc3_hr_setup_decoder(hr, us, hz, pcm, obj)
                          : (void *)lc3_hr_setup_encoder(hr, us, hz, pcm, obj);
        ai_assert(h == NULL, "[setup] handle for bad parameters");
    }
    ai_merge();
}

/* The static memory types are large enough, for any frame duration */
void h_api_static(void)
{
    for (int d = 0; d < 4; d++)
        for (int r = 0; r < 5; r++) {
            unsigned e = lc3_encoder_size(durations[d], rates[r]);
            unsigned x = lc3_decoder_size(durations[d], rates[r]);
            ai_assert(e > 0 && x > 0, "[static] size");
            ai_assert(sizeof(lc3_encoder_mem_48k_t) >= e, "[static] lc3_encoder_mem_48k_t");
            ai_assert(sizeof(lc3_decoder_mem_48k_t) >= x, "[static] lc3_decoder_mem_48k_t");
            if (rates[r] <= 16000) {
                ai_assert(sizeof(lc3_encoder_mem_16k_t) >= e, "[static] lc3_encoder_mem_16k_t");
                ai_assert(sizeof(lc3_decoder_mem_16k_t) >= x, "[static] lc3_decoder_mem_16k_t");
            }
        }
#define CHECK(hr, us, hz) \
    ai_assert(sizeof(LC3_ENCODER_MEM_T(us, hz)) >= lc3_hr_encoder_size(hr, us, hz), "[static] LC3_ENCODER_MEM_T"); \
    ai_assert(sizeof(LC3_DECODER_MEM_T(us, hz)) >= lc3_hr_decoder_size(hr, us, hz), "[static] LC3_DECODER_MEM_T"); \
    ai_assert(LC3_NS(us, hz) == lc3_hr_frame_samples(hr, us, hz), "[static] LC3_NS")
#define CHECK_DT(us) CHECK(0, us, 8000); CHECK(0, us, 16000); CHECK(0, us, 24000); \
    CHECK(0, us, 32000); CHECK(0, us, 48000)
#define CHECK_HR(us) CHECK(1, us, 48000); CHECK(1, us, 96000)
    CHECK_DT(2500); CHECK_DT(5000); CHECK_DT(7500); CHECK_DT(10000);
    CHECK_HR(2500); CHECK_HR(5000); CHECK_HR(10000);
    ai_assert(LC3_MIN_FRAME_SAMPLES <= lc3_frame_samples(2500, 8000), "[static] LC3_MIN_FRAME_SAMPLES");
    ai_assert(LC3_MAX_FRAME_SAMPLES >= lc3_frame_samples(10000, 48000), "[static] LC3_MAX_FRAME_SAMPLES");
    ai_assert(LC3_HR_MAX_FRAME_SAMPLES >= lc3_hr_frame_samples(1, 10000, 96000), "[static] LC3_HR_MAX_FRAME_SAMPLES");
}

/* Frames of a size out of the limits are refused, and nothing is modified */
void h_api_encode_refused(int us, int hz, int srp, int hr)
{
    void *mem = ai_object(lc3_hr_encoder_size(hr, us, srp));
    lc3_encoder_t e = lc3_hr_setup_encoder(hr, us, hz, srp, mem);
    int low = ai_split(ai_bool());
    int nbytes = low ? ai_int(INT_MIN, min_bytes(hr, us, hz) - 1) : ai_int(max_bytes(hr, us, hz) + 1, INT_MAX);
    long np = 4 * samples(us, srp);
    void *pcm = ai_bytes(np), *out = ai_object(1000);
    ai_freeze(mem); ai_freeze(pcm); ai_freeze(out);
    int fmt = ai_split(ai_int(0, 3));
    ai_assert(lc3_encode(e, fmt, pcm, 1, nbytes, out) == -1, "[refused] encoding in a frame of a bad size");
    int n = ai_int(min_bytes(hr, us, hz), max_bytes(hr, us, hz));
    ai_assert(lc3_encode(NULL, fmt, pcm, 1, n, out) == -1, "[refused] encoding without an encoder");
    ai_merge();
}

void h_api_decode_refused(int us, int hz, int srp, int hr)
{
    void *mem = ai_object(lc3_hr_decoder_size(hr, us, srp));
    lc3_decoder_t d = lc3_hr_setup_decoder(hr, us, hz, srp, mem);
    int low = ai_split(ai_bool());
    int nbytes = low ? ai_int(INT_MIN, 19) : ai_int(max_bytes(hr, us, hz) + 1, INT_MAX);
    void *pcm = ai_object(4 * samples(us, srp)), *in = ai_bytes(1000);
    ai_freeze(mem); ai_freeze(pcm); ai_freeze(in);
    int fmt = ai_split(ai_int(0, 3));
    ai_assert(lc3_decode(d, in, nbytes, fmt, pcm, 1) == -1, "[refused] decoding a frame of a bad size");
    ai_assert(lc3_decode(NULL, in, ai_int(20, 625), fmt, pcm, 1) == -1, "[refused] decoding without a decoder");
    ai_assert(lc3_decode(NULL, NULL, ai_int(INT_MIN, INT_MAX), fmt, pcm, 1) == -1, "[refused] concealment without a decoder");
    ai_merge();
}
