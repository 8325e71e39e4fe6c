#define _POSIX_C_SOURCE 199309L
#include "tools_env.h"
#define main dlc3_main
#include "dlc3.c"

int atoi(const char *s) { ai_assert(s != NULL, "[tools] argument of the option"); return ai_int(-2147483647 - 1, 2147483647); }
double atof(const char *s) { ai_assert(s != NULL, "[tools] argument of the option"); return ai_float(-1e6f, 1e6f); }

/* The input: blocks of data, of any size */
int c_bin_read_data(FILE *f, int nch, void *buffer)
{
    ai_assert(f == stdin, "[tools] file read");
    ai_assert(nch == w.nch, "[tools] channels of the blocks");
    w.data = buffer; w.offset = w.ncall = 0;
    if (ai_bool()) { ai_undef(buffer, (long)nch * LC3_HR_MAX_FRAME_BYTES); return -1; }
    int n = w.fine ? 0 : ai_int(0, nch * LC3_HR_MAX_FRAME_BYTES);
    if (w.fine) {
        int sizes[] = { 1, 20 * nch - 1, 20 * nch, 61 * nch - 1, nch * LC3_HR_MAX_FRAME_BYTES };
        n = sizes[ai_splitall(ai_int(0, 4))];
    }
    else n = ai_splitall(n);
    ai_any(buffer, n);
    w.block = n;
    return n;
}

/* The output: defined, frames of the expected size */
size_t fwrite(const void *p, size_t size, size_t n, FILE *f)
{
    ai_assert(f == stdout, "[tools] file written");
    long len = size * n;
    if (w.data) ai_undef(w.data, (long)w.nch * LC3_HR_MAX_FRAME_BYTES);    // up to the next block
    w.block = w.offset = w.ncall = 0;
    ai_merge();
    ai_assert(size == (size_t)w.nch * w.sbytes, "[tools] size of the sample blocks");
    if (w.nsamples < 0 && n > (size_t)w.fsamples) return 0;   // decided with the numbers of samples given
    ai_assert(n <= (size_t)w.fsamples, "[tools] count of samples");
    if (len > 0) ai_defined(p, len, "[tools] samples written are defined");
    if (w.nsamples >= 0) w.total += n;
    return n;
}
void c_wave_write_header(FILE *f, int bits, int bytes, int sr, int nch, int n)
{
    ai_assert(!w.refused, "[tools] parameters refused");
    ai_assert(bits == 16 || bits == 24, "[tools] bits by sample");
    ai_assert(bytes == bits / 8, "[tools] bytes by sample");
    ai_assert(sr == w.sr_pcm_hz, "[tools] samplerate of the output");
    ai_assert(nch == w.nch, "[tools] channels of the output");
    w.sbytes = bytes;
}

struct parameters c_parse_args(int argc, char *argv[])
{
    struct parameters p = { 0 };
    p.bitdepth = w.refused ? w.bits : w.sbytes * 8;
    p.srate_hz = w.sr_opt;
    return p;
}
int c_bin_read_header(FILE *f, int *dt_us, int *sr_hz, bool *hrmode, int *nch, int *n)
{
    *dt_us = w.refused ? w.dt_opt : w.dt_us; *sr_hz = w.sr_hz; *hrmode = w.hrmode;
    *nch = w.nch;
    *n = w.nsamples >= 0 || w.refused ? w.nsamples : ai_int(-2147483647 - 1, 2147483647);
    return 0;
}
struct lc3_decoder *c_setup_decoder(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, void *mem)
{
    int k = setup(hrmode, dt_us, sr_hz, sr_pcm_hz, mem,
        lc3_hr_decoder_size(hrmode, dt_us, sr_pcm_hz > 0 ? sr_pcm_hz : sr_hz), "decoder");
    return k < 0 ? NULL : (struct lc3_decoder *)h_pool[k];
}
int c_decode(struct lc3_decoder *dec, const void *in, int nbytes, enum lc3_pcm_format fmt, void *pcm, int stride)
{
    int k = state(dec), sz = sbytes(fmt);
    if (in) frame(k, in, nbytes, fmt, stride);
    else ai_assert(sz == w.sbytes && stride == w.nch, "[tools] samples of a lost frame");
    if (in && (nbytes < LC3_MIN_FRAME_BYTES || nbytes > w.nmax)) return -1;
    if (in) ai_defined(in, nbytes, "[tools] frame given to the decoder");
    if (w.fine) for (int i = 0; i < w.fsamples; i++) ai_any((char *)pcm + i * stride * sz, sz);
    else ai_any(pcm, ((long)(w.fsamples - 1) * stride + 1) * sz);
    return in ? ai_int(0, 1) : 1;
}

/* A stream, of `n` samples, or of any number of samples when negative */
void h_dlc3(int hrmode, int dt_us, int sr_hz, int sr_opt, int nch, int bits, int fine, int nomem, int n)
{
    w.nomem = nomem; ai_counters(true); w.nsamples = n;
    w.hrmode = hrmode; w.dt_us = dt_us; w.sr_hz = sr_hz; w.sr_opt = sr_opt; w.nch = nch; w.sbytes = bits / 8; w.fine = fine;
    w.sr_pcm_hz = sr_opt ? sr_opt : sr_hz;
    w.fsamples = lc3_hr_frame_samples(hrmode, dt_us, w.sr_pcm_hz);
    w.nmax = lc3_hr_frame_block_bytes(hrmode, dt_us, sr_hz, 1, 2147483647);
    dlc3_main(0, NULL);
    for (int k = 0; k < nch; k++) ai_assert(!w.set[k], "[tools] state not released");
    if (n >= 0) ai_assert(w.total == (long)n * w.sr_pcm_hz / w.sr_hz, "[tools] number of samples written");
    ai_reach("[reach] stream decoded");
}

/* A parameter out of those accepted */
void h_dlc3_refused(int hrmode, int which, int lo, int hi)
{
    int v = which == 9 ? 0 : ai_int(lo, hi);
    w.refused = true; w.hrmode = hrmode; w.nomem = 9;
    w.sr_hz = which == 1 ? v : 48000; w.sr_opt = which == 2 ? v : 0;
    if (which == 9) w.sr_hz = lo, w.sr_opt = hi;            // below the rate of the stream
    w.dt_opt = which == 0 ? v : 10000; w.nch = which == 3 ? v : 1;
    w.bits = which == 4 ? v : 16; w.nsamples = which == 7 ? v : 48000;
    dlc3_main(0, NULL);
}

void h_dargs(int argc, int n1, int n2)
{
    ai_partition(1);
    char *argv[4] = { 0 };
    char *a0 = ai_bytes(4), *a1 = ai_bytes(n1), *a2 = ai_bytes(n2), *a3 = ai_bytes(2);
    a0[3] = 0; a1[n1 - 1] = 0; a2[n2 - 1] = 0; a3[1] = 0;
    argv[0] = a0; argv[1] = argc > 1 ? a1 : NULL; argv[2] = argc > 2 ? a2 : NULL; argv[3] = argc > 3 ? a3 : NULL;
    struct parameters p = parse_args(argc, argv);
    ai_reach("[reach] arguments read");
}
