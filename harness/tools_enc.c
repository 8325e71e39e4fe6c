#define _POSIX_C_SOURCE 199309L
#include "tools_env.h"
#define main elc3_main
#include "elc3.c"

int atoi(const char *s) { ai_assert(s != NULL, "[tools] argument of the option"); return ai_int(-2147483647 - 1, 2147483647); }
double atof(const char *s) { ai_assert(s != NULL, "[tools] argument of the option"); return ai_float(-1e6f, 1e6f); }

/* The input: any samples, as many as wanted or less */
int c_wave_read_pcm(FILE *f, int samplesize, int nch, int count, void *buffer)
{
    ai_assert(f == stdin, "[tools] file read");
    ai_assert(samplesize == w.sbytes && nch == w.nch, "[tools] size of the samples");
    ai_assert(count == w.fsamples, "[tools] samples of a frame");
    long size = (long)w.nch * w.sbytes * count;
    ai_undef(buffer, size);
    if (!w.fine) { ai_any(buffer, size); return count; }
    int n = ai_int(0, count);
    ai_splitall(n);
    ai_any(buffer, (long)w.nch * w.sbytes * n);
    return n;
}
int c_wave_read_header(FILE *f, int *bits, int *bytes, int *sr, int *nch, int *n)
{
    *bits = w.bits; *bytes = w.sbytes; *sr = w.sr_pcm_hz; *nch = w.nch;
    *n = w.nsamples >= 0 || w.refused ? w.nsamples : ai_int(-2147483647 - 1, 2147483647);
    return 0;
}

struct parameters c_parse_args(int argc, char *argv[])
{
    struct parameters p = { 0 };
    p.frame_ms = (w.refused ? w.dt_opt : w.dt_us) / 1000.f; p.hrmode = w.hrmode; p.srate_hz = w.sr_opt;
    p.bitrate = w.bitrate || w.refused ? w.bitrate : ai_int(-2147483647 - 1, 2147483647);
    return p;
}

/* The output */
void c_bin_write_header(FILE *f, int dt_us, int sr_hz, bool hrmode, int bitrate, int nch, int n)
{
    ai_assert(!w.refused, "[tools] parameters refused");
    ai_assert(f == stdout, "[tools] file written");
    ai_assert(dt_us == w.dt_us, "[tools] frame duration of the header");
    ai_assert(sr_hz == w.sr_hz, "[tools] samplerate of the header");
    ai_assert(hrmode == w.hrmode, "[tools] mode of the header");
    ai_assert(nch == w.nch, "[tools] channels of the header");
    if (w.nsamples >= 0) ai_assert(n == (long)w.nsamples * w.sr_hz / w.sr_pcm_hz, "[tools] samples of the header");
    ai_assert(!w.header, "[tools] header written once");
    w.header = true;
}
void c_bin_write_data(FILE *f, const void *data, int nbytes)
{
    ai_assert(f == stdout, "[tools] file written");
    ai_assert(w.header, "[tools] header written first");
    ai_assert(nbytes == w.block, "[tools] size of the block");
    ai_assert(nbytes >= 0, "[tools] size of the block");
    ai_defined(data, nbytes, "[tools] frames written are defined");
    ai_assert(w.ncall == w.nch, "[tools] channels of the block");
    ai_undef((void *)data, (long)w.nch * LC3_HR_MAX_FRAME_BYTES);
    w.ncall = w.offset = 0; w.data = NULL;
    if (w.nsamples >= 0) w.nblocks++;
    if (w.fine) ai_merge();
}
int c_block_bytes(bool hrmode, int dt_us, int sr_hz, int nch, int bitrate)
{
    if (!w.nmax) return lc3_hr_frame_block_bytes(hrmode, dt_us, sr_hz, nch, bitrate);
    ai_assert(hrmode == w.hrmode && nch == w.nch && (w.bitrate > 0 ? bitrate == w.bitrate : bitrate > 0), "[tools] parameters of the bitrate");
    ai_assert(dt_us == w.dt_us, "[tools] frame duration of the bitrate");
    if (w.bitrate > 0) return w.block = lc3_hr_frame_block_bytes(hrmode, dt_us, sr_hz, nch, bitrate);
    int n = ai_int(lc3_hr_frame_block_bytes(hrmode, dt_us, sr_hz, nch, 0),
                   lc3_hr_frame_block_bytes(hrmode, dt_us, sr_hz, nch, 2147483647));
    ai_splitall(n);
    return w.block = n;
}
struct lc3_encoder *c_setup_encoder(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, void *mem)
{
    int k = setup(hrmode, dt_us, sr_hz, sr_pcm_hz, mem,
        lc3_hr_encoder_size(hrmode, dt_us, sr_pcm_hz > 0 ? sr_pcm_hz : sr_hz), "encoder");
    return k < 0 ? NULL : (struct lc3_encoder *)h_pool[k];
}
int c_encode(struct lc3_encoder *enc, enum lc3_pcm_format fmt, const void *pcm, int stride, int nbytes, void *out)
{
    int k = state(enc), sz = sbytes(fmt);
    if (!w.ncall) w.data = out;
    frame(k, out, nbytes, fmt, stride);
    if (nbytes < w.nmin || nbytes > w.nmax) return -1;
    ai_defined(pcm, ((long)(w.fsamples - 1) * stride + 1) * sz, "[tools] samples given to the encoder");
    ai_any(out, nbytes);
    return 0;
}

/* A stream, of `n` samples, or of any number of samples when negative */
void h_elc3(int hrmode, int dt_us, int sr_hz, int sr_opt, int nch, int sbytes, int fine, int nomem, int n, int bitrate)
{
    ai_counters(true);
    w.hrmode = hrmode; w.dt_us = dt_us; w.sr_opt = sr_opt; w.nch = nch; w.sbytes = sbytes; w.bits = sbytes == 2 ? 16 : 24; w.fine = fine;
    w.sr_pcm_hz = sr_hz; w.sr_hz = sr_opt ? sr_opt : sr_hz; w.nomem = nomem; w.nsamples = n; w.bitrate = bitrate;
    w.fsamples = lc3_hr_frame_samples(hrmode, dt_us, sr_hz);
    w.nmin = lc3_hr_frame_block_bytes(hrmode, dt_us, w.sr_hz, 1, 0);
    w.nmax = lc3_hr_frame_block_bytes(hrmode, dt_us, w.sr_hz, 1, 2147483647);
    elc3_main(0, NULL);
    ai_merge();
    for (int k = 0; k < nch; k++) ai_assert(!w.set[k], "[tools] state not released");
    if (n >= 0) {
        int m = n + lc3_hr_delay_samples(hrmode, dt_us, sr_hz);
        ai_assert(w.nblocks == (m + w.fsamples - 1) / w.fsamples, "[tools] number of frames written");
    }
    ai_reach("[reach] stream encoded");
}

/* A parameter out of those accepted */
void h_elc3_refused(int hrmode, int which, int lo, int hi)
{
    int v = which == 9 ? 0 : ai_int(lo, hi);
    w.refused = true; w.hrmode = hrmode; w.nomem = 9;
    w.sr_pcm_hz = w.sr_hz = which == 1 ? v : 48000; w.sr_opt = which == 2 ? v : 0;
    if (which == 9) w.sr_pcm_hz = lo, w.sr_opt = hi;        // above the rate of the input
    w.dt_opt = which == 0 ? v : 10000; w.nch = which == 3 ? v : 1;
    w.bits = which == 4 ? v : which == 6 ? 24 : 16; w.sbytes = which == 5 || which == 6 ? v : 2;
    w.nsamples = which == 7 ? v : 48000; w.bitrate = which == 8 ? v : 64000;
    elc3_main(0, NULL);
}

void h_eargs(int argc, int n1, int n2)
{
    ai_partition(1);
    char *argv[4] = { 0 };
    char *a0 = ai_bytes(4), *a1 = ai_bytes(n1), *a2 = ai_bytes(n2), *a3 = ai_bytes(2);
    a0[3] = 0; a1[n1 - 1] = 0; a2[n2 - 1] = 0; a3[1] = 0;
    argv[0] = a0; argv[1] = argc > 1 ? a1 : NULL; argv[2] = argc > 2 ? a2 : NULL; argv[3] = argc > 3 ? a3 : NULL;
    struct parameters p = parse_args(argc, argv);
    ai_reach("[reach] arguments read");
}
