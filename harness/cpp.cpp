/* C++ interface: what is asked to the C interface, by all its methods.
 * The functions of the C interface are replaced by the ones below, that check
 * the parameters given. */
#include <lc3_cpp.h>
extern "C" {
#include "ai.h"
}

namespace {

constexpr int kMax = 8;
constexpr int kVector = kMax * sizeof(std::unique_ptr<char, decltype(&free)>);

struct {
    bool hrmode; int dt_us, sr_hz, sr_pcm_hz;   // configuration
    int nchannels;
    int nsetup, ncalls;
    void *state[kMax];
    bool reset;

    void *mem[2*kMax], *vector[2];              // memory
    size_t memsize, memsize2;
    int nmem, nvectors, nomem;
    bool freed[2*kMax];

    int fmt, item, block_size, outcome;         // call
    const char *pcm;
    const uint8_t *data;
    int offset;
} w;

void config(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, const char *)
{
    ai_assert(hrmode == w.hrmode, "[cpp] mode given");
    ai_assert(dt_us == w.dt_us, "[cpp] duration given");
    ai_assert(sr_hz == w.sr_hz, "[cpp] samplerate given");
    ai_assert(sr_pcm_hz == w.sr_pcm_hz, "[cpp] PCM samplerate given");
}

void frame(const void *state, int fmt, const void *pcm, int stride, int nbytes, const void *data)
{
    int k = w.ncalls++;
    ai_assert(k < w.nchannels, "[cpp] one call by channel");
    ai_assert(state == w.state[k], "[cpp] state of the channel");
    ai_assert(fmt == w.fmt, "[cpp] format of the samples");
    ai_assert(pcm == w.pcm + k * w.item, "[cpp] first sample of the channel");
    ai_assert(stride == w.nchannels, "[cpp] samples of the channels interleaved");
    int n = w.block_size / w.nchannels + (k < w.block_size % w.nchannels);
    ai_assert(nbytes == n, "[cpp] size of the frame");
    if (w.data) ai_assert(data == w.data + w.offset, "[cpp] position of the frame in the block");
    else ai_assert(data == nullptr, "[cpp] missing frame");
    w.offset += n;
}

/* Outcome of the call on each channel, in base 4 with 3 for an error */
int outcome(int k)
{
    int r = (w.outcome >> (2 * k)) & 3;
    return r == 3 ? -1 : r;
}

int expected()
{
    int r = 0;
    for (int k = 0; k < w.nchannels; k++) {
        int o = outcome(k);
        r = r < 0 || o < 0 ? -1 : r > 0 || o > 0 ? 1 : 0;
    }
    return r;
}

}

void *operator new(size_t n)
{
    ai_assert(n <= kVector, "[cpp] memory of a vector");
    ai_assert(w.nvectors < 2, "[cpp] a vector by codec");
    return w.vector[w.nvectors++];
}
void operator delete(void *) noexcept { }
void operator delete(void *, size_t) noexcept { }
namespace std { void __throw_length_error(const char *) { for (;;) ai_assert(false, "[cpp] length of a vector"); } }

extern "C" {

/* Environment */
void *malloc(size_t n) noexcept
{
    ai_assert(n == w.memsize || n == w.memsize2, "[cpp] memory of a state");
    ai_assert(w.nmem < 2 * w.nchannels, "[cpp] memory of the states");
    if (w.nmem == w.nomem) { w.nomem = -1; return nullptr; }
    return w.mem[w.nmem++];
}
void free(void *p) noexcept
{
    if (!p) return;
    for (int k = 0; k < w.nmem; k++)
        if (p == w.mem[k]) { ai_assert(!w.freed[k], "[cpp] memory released twice"); w.freed[k] = true; return; }
    ai_assert(false, "[cpp] release of a memory not allocated");
}
void __assert_fail(const char *, const char *, unsigned, const char *) noexcept   // alignment, up to the caller
    { for (;;) ai_assume(false); }

struct lc3_encoder *c_setup_encoder(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, void *mem)
{
    config(hrmode, dt_us, sr_hz, sr_pcm_hz, "encoder");
    if (w.reset) ai_assert(mem == w.state[w.nsetup], "[cpp] state reset");
    struct lc3_encoder *s = lc3_hr_setup_encoder(hrmode, dt_us, sr_hz, sr_pcm_hz, mem);
    if (s) w.state[w.nsetup++] = s;
    return s;
}

struct lc3_decoder *c_setup_decoder(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, void *mem)
{
    config(hrmode, dt_us, sr_hz, sr_pcm_hz, "decoder");
    if (w.reset) ai_assert(mem == w.state[w.nsetup], "[cpp] state reset");
    struct lc3_decoder *s = lc3_hr_setup_decoder(hrmode, dt_us, sr_hz, sr_pcm_hz, mem);
    if (s) w.state[w.nsetup++] = s;
    return s;
}

void c_disable_ltpf(struct lc3_encoder *s)
{
    ai_assert(s == w.state[w.ncalls++], "[cpp] state of the postfilter disabled");
}

int c_cpp_encode(struct lc3_encoder *s, enum lc3_pcm_format fmt, const void *pcm, int stride, int nbytes, void *out)
{
    int k = w.ncalls;
    frame(s, fmt, pcm, stride, nbytes, out);
    return outcome(k);
}

int c_cpp_decode(struct lc3_decoder *s, const void *in, int nbytes, enum lc3_pcm_format fmt, void *pcm, int stride)
{
    int k = w.ncalls;
    frame(s, fmt, pcm, stride, nbytes, in);
    return outcome(k);
}

int c_frame_samples(bool hrmode, int dt_us, int sr_hz)
{
    config(hrmode, dt_us, w.sr_hz, sr_hz, "samples");
    return 1001;
}

int c_delay_samples(bool hrmode, int dt_us, int sr_hz)
{
    config(hrmode, dt_us, w.sr_hz, sr_hz, "delay");
    return 1002;
}

int c_frame_block_bytes(bool hrmode, int dt_us, int sr_hz, int nchannels, int bitrate)
{
    config(hrmode, dt_us, sr_hz, w.sr_pcm_hz, "bytes");
    ai_assert(nchannels == w.nchannels, "[cpp] channels given");
    ai_assert(bitrate == 77000, "[cpp] bitrate given");
    return 1003;
}

int c_resolve_bitrate(bool hrmode, int dt_us, int sr_hz, int nbytes)
{
    config(hrmode, dt_us, sr_hz, w.sr_pcm_hz, "bitrate");
    ai_assert(nbytes == 123, "[cpp] size given");
    return 1004;
}

}

namespace {

void setup(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, int nchannels, size_t memsize, size_t memsize2 = ~size_t(0))
{
    w.hrmode = hrmode, w.dt_us = dt_us, w.sr_hz = sr_hz;
    w.sr_pcm_hz = sr_pcm_hz > 0 ? sr_pcm_hz : sr_hz;
    w.nchannels = nchannels;
    w.nsetup = w.ncalls = 0;
    w.reset = false;
    w.memsize = memsize, w.memsize2 = memsize2;
    w.nmem = w.nvectors = 0, w.nomem = -1;
    for (int k = 0; k < 2*kMax; k++) w.freed[k] = false;
}

/* Memory of the states, that must outlive the calls: given by the entry point */
#define MEMORY(n0, n1) \
    for (int i = 0; i < kMax; i++) w.mem[i] = nullptr; \
    w.vector[0] = ai_object(kVector), w.vector[1] = ai_object(kVector); \
    w.mem[0] = ai_object(n0), w.mem[1] = ai_object(nch > 1 ? n0 : n1); \
    w.mem[2] = ai_object(nch > 2 ? n0 : n1), w.mem[3] = ai_object(nch > 3 ? n0 : n1); \
    w.mem[4] = ai_object(n1), w.mem[5] = ai_object(n1), w.mem[6] = ai_object(n1), w.mem[7] = ai_object(n1)

void call(int fmt, int item, int block_size, int k, const void *pcm, const void *data)
{
    w.fmt = fmt, w.item = item, w.block_size = block_size, w.outcome = k;
    w.pcm = static_cast<const char *>(pcm), w.data = static_cast<const uint8_t *>(data);
    w.offset = 0, w.ncalls = 0;
}

void done(int ret)
{
    ai_assert(w.ncalls == w.nchannels, "[cpp] each channel is processed");
    ai_assert(ret == expected(), "[cpp] value returned");
}

void released()
{
    for (int k = 0; k < w.nmem; k++)
        ai_assert(w.freed[k], "[cpp] memory of a state not released");
}

template <typename T>
void common(T &c)
{
    ai_assert(c.GetFrameSamples() == 1001, "[cpp] frame samples");
    ai_assert(c.GetDelaySamples() == 1002, "[cpp] delay samples");
    ai_assert(c.GetFrameBytes(77000) == 1003, "[cpp] block bytes");
    ai_assert(c.ResolveBitrate(123) == 1004, "[cpp] bitrate");
    w.nsetup = 0, w.reset = true;
    c.Reset();
    ai_assert(w.nsetup == w.nchannels, "[cpp] all states are reset");
}

/* Codecs that are not available: nothing is processed */
void unavailable(lc3::Encoder *e, lc3::Decoder *d, int nch)
{
    int16_t *pcm = static_cast<int16_t *>(ai_bytes(960 * nch * sizeof(int16_t)));
    uint8_t *data = static_cast<uint8_t *>(ai_bytes(100 * nch));
    ai_freeze(data);
    ai_freeze(pcm);
    w.ncalls = 0;
    if (e) ai_assert(e->Encode(pcm, 100 * nch, data) == -1, "[cpp] encoding refused");
    if (d) ai_assert(d->Decode(data, 100 * nch, pcm) == -1, "[cpp] decoding refused");
    ai_assert(w.ncalls == 0, "[cpp] nothing is processed");
}

void refused(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, int nch)
{
    lc3::Encoder e(dt_us, sr_hz, sr_pcm_hz, nch, hrmode);
    lc3::Decoder d(dt_us, sr_hz, sr_pcm_hz, nch, hrmode);
    ai_assert(w.nsetup == 0, "[cpp] states of unsupported parameters");
    unavailable(&e, &d, nch);
}

void nomem(int nch, int k)
{
    w.nomem = k;
    lc3::Encoder e(10000, 48000, 48000, nch);
    w.nmem = nch, w.freed[nch-1] = true;     // left unused
    w.nomem = nch + k, w.nsetup = 0;
    lc3::Decoder d(10000, 48000, 48000, nch);
    unavailable(&e, &d, nch);
}

/* Outcomes of interest of the calls, by channel */
int outcomes(int i, bool decoder, int nch)
{
    if (i < nch) return 3 << (2 * i);                            // one error
    i -= nch;
    if (!decoder) return 0;
    if (i < nch) return 1 << (2 * i);                            // one loss
    return i - nch == 0 ? 0 : 3 | 1 << (2 * (nch - 1));          // loss and error
}

}

extern "C" {

void h_cpp_encoder(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, int nch)
{
    size_t n = lc3_hr_encoder_size(hrmode, dt_us, sr_pcm_hz > 0 ? sr_pcm_hz : sr_hz);
    MEMORY(n, 0);
    setup(hrmode, dt_us, sr_hz, sr_pcm_hz, nch, n);
    {
        lc3::Encoder c(dt_us, sr_hz, sr_pcm_hz, nch, hrmode);
        ai_assert(w.nsetup == nch, "[cpp] one state by channel");
        common(c);
        w.ncalls = 0;
        c.DisableLTPF();
        ai_assert(w.ncalls == nch, "[cpp] postfilter disabled in all channels");
    }
    released();
}

void h_cpp_decoder(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, int nch)
{
    size_t n = lc3_hr_decoder_size(hrmode, dt_us, sr_pcm_hz > 0 ? sr_pcm_hz : sr_hz);
    MEMORY(n, 0);
    setup(hrmode, dt_us, sr_hz, sr_pcm_hz, nch, n);
    {
        lc3::Decoder c(dt_us, sr_hz, sr_pcm_hz, nch, hrmode);
        ai_assert(w.nsetup == nch, "[cpp] one state by channel");
        common(c);
    }
    released();
}

/* Blocks of all sizes */
void h_cpp_encode(int nch, int from, int to)
{
    size_t size = lc3_encoder_size(10000, 48000);
    MEMORY(size, 0);
    setup(false, 10000, 48000, 48000, nch, size);
    lc3::Encoder c(10000, 48000, 48000, nch);
    char *pcm = static_cast<char *>(ai_bytes(480 * nch * 4));
    uint8_t *out = static_cast<uint8_t *>(ai_object(to));
    for (int n = from; n <= to; n++) {
        int o = outcomes(n % (nch + 1), false, nch);
        call(LC3_PCM_FORMAT_S16, 2, n, o, pcm, out);
        done(c.Encode(reinterpret_cast<int16_t *>(pcm), n, out));
        call(LC3_PCM_FORMAT_S24, 4, n, o, pcm, out);
        done(c.Encode(reinterpret_cast<int32_t *>(pcm), n, out));
        call(LC3_PCM_FORMAT_FLOAT, 4, n, o, pcm, out);
        done(c.Encode(reinterpret_cast<float *>(pcm), n, out));
        call(LC3_PCM_FORMAT_S16, 2, n, o, pcm, out);
        done(c.Encode(lc3::PcmFormat::kS16, pcm, n, out));
        call(LC3_PCM_FORMAT_S24, 4, n, o, pcm, out);
        done(c.Encode(lc3::PcmFormat::kS24, pcm, n, out));
        call(LC3_PCM_FORMAT_S24_3LE, 3, n, o, pcm, out);
        done(c.Encode(lc3::PcmFormat::kS24In3Le, pcm, n, out));
        call(LC3_PCM_FORMAT_FLOAT, 4, n, o, pcm, out);
        done(c.Encode(lc3::PcmFormat::kF32, pcm, n, out));
    }
}

void h_cpp_decode(int nch, int from, int to, int lost)
{
    size_t size = lc3_decoder_size(10000, 48000);
    MEMORY(size, 0);
    setup(false, 10000, 48000, 48000, nch, size);
    lc3::Decoder c(10000, 48000, 48000, nch);
    char *pcm = static_cast<char *>(ai_object(480 * nch * 4));
    uint8_t *in = lost ? nullptr : static_cast<uint8_t *>(ai_bytes(to));
    for (int n = from; n <= to; n++) {
        int o = outcomes(n % (2 * nch + 2), true, nch);
        call(LC3_PCM_FORMAT_S16, 2, n, o, pcm, in);
        done(c.Decode(in, n, reinterpret_cast<int16_t *>(pcm)));
        call(LC3_PCM_FORMAT_S24, 4, n, o, pcm, in);
        done(c.Decode(in, n, reinterpret_cast<int32_t *>(pcm)));
        call(LC3_PCM_FORMAT_FLOAT, 4, n, o, pcm, in);
        done(c.Decode(in, n, reinterpret_cast<float *>(pcm)));
        call(LC3_PCM_FORMAT_S16, 2, n, o, pcm, in);
        done(c.Decode(in, n, lc3::PcmFormat::kS16, pcm));
        call(LC3_PCM_FORMAT_S24, 4, n, o, pcm, in);
        done(c.Decode(in, n, lc3::PcmFormat::kS24, pcm));
        call(LC3_PCM_FORMAT_S24_3LE, 3, n, o, pcm, in);
        done(c.Decode(in, n, lc3::PcmFormat::kS24In3Le, pcm));
        call(LC3_PCM_FORMAT_FLOAT, 4, n, o, pcm, in);
        done(c.Decode(in, n, lc3::PcmFormat::kF32, pcm));
    }
}

/* Parameters that are not supported: nothing is processed */
void h_cpp_refused(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, int nch)
{
    size_t n = lc3_hr_encoder_size(hrmode, dt_us, sr_pcm_hz), m = lc3_hr_decoder_size(hrmode, dt_us, sr_pcm_hz);
    MEMORY(n, m);
    setup(hrmode, dt_us, sr_hz, sr_pcm_hz, nch, n, m);
    refused(hrmode, dt_us, sr_hz, sr_pcm_hz, nch);
    released();
}

/* No memory for the state of one of the channels */
void h_cpp_nomem(int nch, int k)
{
    size_t n = lc3_encoder_size(10000, 48000), m = lc3_decoder_size(10000, 48000);
    MEMORY(n, m);
    setup(false, 10000, 48000, 48000, nch, n, m);
    nomem(nch, k);
    released();
}

}
