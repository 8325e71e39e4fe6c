/* Agreement of the encoder and the decoder on the bitstream.
 *
 * The writer and the reader of the bitstream are replaced by two tapes, one
 * of bits and one of entropy coded symbols: the reader gets the values that
 * the writer has put, as long as it asks for them in the same order, with the
 * same widths and the same models.  Fields are given values by intervals. */
#include "ai.h"
#include <lc3.h>
#include <bits.h>
#include <attdet.h>
#include <energy.h>
#include <bwdet.h>
#include <ltpf.h>
#include <sns.h>
#include <tns.h>
#include <spec.h>
#include <plc.h>
#include <mdct.h>
#include <tables.h>

#define NTAPE 32768

static struct { unsigned v; int n; } g_bits[NTAPE];
static struct { unsigned s; const struct lc3_ac_model *model; } g_syms[NTAPE];
static int g_wb, g_rb, g_ws, g_rs, g_len, g_off, g_left, g_asked;
static bool g_writing, g_reading, g_flushed;

static void rewind_tape(int len, int left)
{
    g_wb = g_rb = g_ws = g_rs = g_off = g_asked = 0;
    g_writing = g_reading = g_flushed = false;
    g_len = len, g_left = left;
}

static void tape_end(void)
{
    ai_assert(g_rb == g_wb && g_off == 0, "[agree] all the bits written are read");
    ai_assert(g_rs == g_ws, "[agree] all the symbols written are read");
}

void c_t_setup_bits(lc3_bits_t *bits, enum lc3_bits_mode mode, void *buffer, int len)
{
    (void)bits, (void)buffer;
    ai_assert(len == g_len, "[agree] size of the frame");
    ai_assert(mode == LC3_BITS_MODE_READ ? g_flushed : !g_writing, "[agree] frame written, then read");
    if (mode == LC3_BITS_MODE_READ) g_reading = true; else g_writing = true;
}

void c_t_put_bits(lc3_bits_t *bits, unsigned v, int n)
{
    (void)bits;
    ai_assert(n >= 1 && n <= 32, "[agree] number of bits written");
    if (n < 32)
        ai_assert(v <= (1u << n) - 1, "[agree] value written does not fit its field");
    g_bits[g_wb].v = v, g_bits[g_wb].n = n;
    g_wb++;
}

unsigned c_t_get_bits(lc3_bits_t *bits, int n)
{
    (void)bits;
    unsigned r = 0;
    int have = 0;
    while (have < n) {
        ai_assert(g_rb < g_wb, "[agree] more bits read than written");
        unsigned v = g_bits[g_rb].v >> g_off;
        int left = g_bits[g_rb].n - g_off;
        if (left > n - have) {
            v &= (1u << (n - have)) - 1;
            g_off += n - have;
            left = n - have;
        } else
            g_rb++, g_off = 0;
        if (have == 0 && left == n)
            return v;
        r |= v << have;
        have += left;
    }
    return r;
}

void c_t_put_symbol(lc3_bits_t *bits, const struct lc3_ac_model *model, unsigned s)
{
    (void)bits;
    ai_assert(s <= 16, "[agree] symbol out of its model");
    ai_assert(model->s[s].range >= 1, "[agree] symbol without a coding interval");
    g_syms[g_ws].s = s, g_syms[g_ws].model = model;
    g_ws++;
}

unsigned c_t_get_symbol(lc3_bits_t *bits, const struct lc3_ac_model *model)
{
    (void)bits;
    ai_assert(g_rs < g_ws, "[agree] more symbols read than written");
    ai_assert(g_syms[g_rs].model == model, "[agree] model of a symbol");
    return g_syms[g_rs++].s;
}

int c_t_get_bits_left(const lc3_bits_t *bits)
{
    (void)bits;
    if (!g_reading) {
        g_asked = 1 + g_wb * NTAPE + g_ws;
    } else
        ai_assert(g_asked == 1 + g_rb * NTAPE + g_rs && g_off == 0, "[agree] bits left counted at the same point");
    return g_left;
}

int c_t_check_bits(const lc3_bits_t *bits)
{
    (void)bits;
    return 0;
}

void c_t_flush_bits(lc3_bits_t *bits)
{
    (void)bits;
    ai_assert(g_writing && !g_reading, "[agree] frame flushed once written");
    g_flushed = true;
}


/* --- Side data, through lc3_encode() and lc3_decode() --- */

static int s_lo, s_hi, s_bw, s_pitch_index, s_active, s_pitch, s_bytes, s_nn, s_bypass;
static int s_tns_seen, s_sns_seen, s_ltpf_seen, s_spec_seen, s_mdct_seen;
static lc3_sns_data_t s_sns;
static lc3_tns_data_t s_tns;
static lc3_spec_side_t s_spec;

bool c_t_attdet_run(enum lc3_dt dt, enum lc3_srate sr, int nbytes, lc3_attdet_analysis_t *s, const int16_t *x)
{
    (void)dt, (void)sr, (void)s, (void)x;
    ai_assert(nbytes == s_bytes, "[agree] size of the frame");
    return ai_bool();
}

bool c_t_ltpf_analyse(enum lc3_dt dt, enum lc3_srate sr, lc3_ltpf_analysis_t *s, const int16_t *x, lc3_ltpf_data_t *data)
{
    (void)dt, (void)sr, (void)s, (void)x;
    data->active = s_active;
    if (s_pitch) data->pitch_index = s_pitch_index;
    return s_pitch;
}

bool c_t_energy_compute(enum lc3_dt dt, enum lc3_srate sr, const float *x, float *e)
{
    (void)x;
    ai_any(e, lc3_num_bands[dt][sr] * sizeof(float));
    return s_nn;
}

enum lc3_bandwidth c_t_bwdet_run(enum lc3_dt dt, enum lc3_srate sr, const float *e)
{
    (void)dt, (void)sr, (void)e;
    return (enum lc3_bandwidth)s_bw;
}

void c_t_sns_analyze(enum lc3_dt dt, enum lc3_srate sr, int nbytes,
    const float *e, bool att, lc3_sns_data_t *data, const float *x, float *y)
{
    (void)dt, (void)sr, (void)e, (void)att, (void)x, (void)y;
    ai_assert(nbytes == s_bytes, "[agree] size of the frame");
    *data = s_sns;
}

void c_t_tns_analyze(enum lc3_dt dt, enum lc3_bandwidth bw,
    bool nn_flag, int nbytes, lc3_tns_data_t *data, float *x)
{
    (void)dt, (void)x, (void)nn_flag;
    ai_assert(nbytes == s_bytes, "[agree] size of the frame");
    ai_assert((int)bw == s_bw, "[agree] bandwidth of the noise shaping analysis");
    data->nfilters = s_tns.nfilters;
    data->lpc_weighting = s_tns.lpc_weighting;
    for (int f = 0; f < s_tns.nfilters; f++) {
        data->rc_order[f] = s_tns.rc_order[f];
        for (int i = 0; i < s_tns.rc_order[f]; i++)
            data->rc[f][i] = s_tns.rc[f][i];
    }
}

void c_t_spec_analyze(enum lc3_dt dt, enum lc3_srate sr, int nbytes,
    bool pitch, const lc3_tns_data_t *tns, lc3_spec_analysis_t *s,
    float *x, lc3_spec_side_t *side)
{
    (void)dt, (void)sr, (void)tns, (void)s, (void)x;
    ai_assert(nbytes == s_bytes, "[agree] size of the frame");
    ai_assert(pitch == (s_pitch && !s_bypass), "[agree] pitch counted in the budget");
    *side = s_spec;
}

void c_t_spec_encode(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr,
    enum lc3_bandwidth bw, int nbytes, const lc3_spec_side_t *side, float *x)
{
    (void)dt, (void)sr, (void)x;
    ai_assert(nbytes == s_bytes, "[agree] size of the frame");
    ai_assert((int)bw == s_bw, "[agree] bandwidth of the spectrum");
    ai_assert(side->g_idx == s_spec.g_idx && side->nq == s_spec.nq && side->lsb_mode == s_spec.lsb_mode,
        "[agree] data of the spectrum");
    c_t_put_bits(bits, 5, 3);
}

int c_t_spec_decode(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr,
    enum lc3_bandwidth bw, int nbytes, const lc3_spec_side_t *side, float *x)
{
    ai_assert(nbytes == s_bytes, "[agree] size of the frame");
    ai_assert((int)bw == s_bw, "[agree] bandwidth decoded");
    ai_assert(side->g_idx == s_spec.g_idx, "[agree] gain decoded");
    ai_assert(side->nq == s_spec.nq, "[agree] number of coefficients decoded");
    ai_assert(side->lsb_mode == s_spec.lsb_mode, "[agree] LSB mode decoded");
    ai_assert(c_t_get_bits(bits, 3) == 5, "[agree] position of the spectrum in the frame");
    ai_any(x, lc3_ne(dt, sr) * sizeof(float));
    s_spec_seen++;
    return 0;
}

void c_t_tns_synthesize(enum lc3_dt dt, enum lc3_bandwidth bw,
    const lc3_tns_data_t *data, float *x)
{
    (void)dt, (void)x;
    ai_assert((int)bw == s_bw, "[agree] bandwidth of the noise shaping");
    ai_assert(data->nfilters == s_tns.nfilters, "[agree] number of filters decoded");
    for (int f = 0; f < s_tns.nfilters; f++) {
        ai_assert(data->rc_order[f] == s_tns.rc_order[f], "[agree] order of a filter decoded");
        for (int i = 0; i < s_tns.rc_order[f]; i++)
            ai_assert(data->rc[f][i] == s_tns.rc[f][i], "[agree] coefficient of a filter decoded");
    }
    s_tns_seen++;
}

void c_t_sns_synthesize(enum lc3_dt dt, enum lc3_srate sr,
    const lc3_sns_data_t *data, const float *x, float *y)
{
    (void)x;
    ai_assert(data->lfcb == s_sns.lfcb && data->hfcb == s_sns.hfcb, "[agree] codebooks decoded");
    ai_assert(data->shape == s_sns.shape, "[agree] shape decoded");
    ai_assert(data->gain == s_sns.gain, "[agree] gain of the scale factors decoded");
    ai_assert(data->idx_a >= s_lo && data->idx_a <= s_hi && data->ls_a == s_sns.ls_a, "[agree] first vector decoded");
    if (s_sns.shape == 0)
        ai_assert(data->idx_b == s_sns.idx_b && data->ls_b == s_sns.ls_b, "[agree] second vector decoded");
    ai_any(y, lc3_ne(dt, sr) * sizeof(float));
    s_sns_seen++;
}

void c_t_ltpf_synthesize(enum lc3_dt dt, enum lc3_srate sr, int nbytes,
    lc3_ltpf_synthesis_t *ltpf, const lc3_ltpf_data_t *data, const float *xh, float *x)
{
    (void)dt, (void)sr, (void)ltpf, (void)xh, (void)x;
    ai_assert(nbytes == s_bytes, "[agree] size of the frame");
    ai_assert(!!data == (s_pitch && !s_bypass), "[agree] presence of the pitch decoded");
    if (data) {
        ai_assert(data->active == (s_active && !s_nn && !s_bypass), "[agree] activation of the postfilter decoded");
        ai_assert(data->pitch_index == s_pitch_index, "[agree] pitch decoded");
    }
    s_ltpf_seen++;
}

void c_t_mdct_inverse(enum lc3_dt dt, enum lc3_srate sr, enum lc3_srate sr_src,
    const float *x, float *d, float *y)
{
    (void)sr_src, (void)x;
    ai_any(d, lc3_nd(dt, sr) * sizeof(float));
    ai_any(y, lc3_ns(dt, sr) * sizeof(float));
    s_mdct_seen++;
}

void c_t_plc_synthesize(enum lc3_dt dt, enum lc3_srate sr,
    lc3_plc_state_t *plc, const float *x, float *y)
{
    (void)dt, (void)sr, (void)plc, (void)x, (void)y;
    ai_reach("[agree] frame of the encoder concealed by the decoder");
}

/* Sizes of the codebooks of the vectors, documented in the specification */
static const int vq_size[4] = { 2390004, 2390004, 15158272, 774912 };
static const int vq_gains[4] = { 2, 4, 4, 8 };

void h_agree_side(int dt_us, int sr_hz, int srp_hz, int hr, int v0, int v1)
{
    void *em = ai_object(lc3_hr_encoder_size(hr, dt_us, srp_hz));
    void *dm = ai_object(lc3_hr_decoder_size(hr, dt_us, srp_hz));
    ai_unroll(100000);
    lc3_encoder_t e = lc3_hr_setup_encoder(hr, dt_us, sr_hz, srp_hz, em);
    lc3_decoder_t d = lc3_hr_setup_decoder(hr, dt_us, sr_hz, srp_hz, dm);
    int ns = lc3_hr_frame_samples(hr, dt_us, srp_hz);
    int min = lc3_hr_frame_bytes(hr, dt_us, sr_hz, 0), max = lc3_hr_frame_bytes(hr, dt_us, sr_hz, INT32_MAX);
    enum lc3_dt dt = dt_us / 2500 - 1;
    enum lc3_srate sr = hr ? LC3_SRATE_48K_HR + (sr_hz > 48000) : sr_hz == 48000 ? LC3_SRATE_48K : sr_hz / 8000 - 1;
    int ne = lc3_ne(dt, sr);
    int16_t *pcm = ai_bytes(ns * sizeof(int16_t)), *out = ai_object(ns * sizeof(int16_t));
    uint8_t *frame = ai_object(max);
    bool bypass = false;

    for (int v = v0; v < v1; v++) {
        s_bytes = v % 16 == 0 ? min : v % 16 == 1 ? max : min + (v * 7) % (max - min + 1);
        s_bw = hr ? (int)sr : v % ((int)sr + 1);
        s_nn = v % 7 == 3;
        if (v % 64 == 47 && !bypass) {
            lc3_encoder_disable_ltpf(e);
            bypass = true;
        }
        s_bypass = bypass;
        s_pitch = v % 3 != 2 || v == 47;
        s_active = (v / 3) % 2;
        s_pitch_index = (v * 3) % 512;

        s_spec.nq = 2 * (1 + (v * 5) % (ne / 2));
        if (v == v0) s_spec.nq = ne;
        s_spec.g_idx = v % 256;
        s_spec.lsb_mode = (v / 2) % 2;

        s_tns.nfilters = 1 + (dt >= LC3_DT_5M && s_bw >= LC3_BANDWIDTH_SWB);
        s_tns.lpc_weighting = s_bytes * 8 < 120 * (1 + (int)dt);
        int max_order = dt <= LC3_DT_5M ? 4 : 8;
        s_tns.rc_order[0] = v % (max_order + 1);
        s_tns.rc_order[1] = (v / (max_order + 1)) % (max_order + 1);
        for (int f = 0; f < 2; f++)
            for (int i = 0; i < s_tns.rc_order[f]; i++)
                s_tns.rc[f][i] = (v + 5 * i + 7 * f) % 17 - 8;

        int shape = v % 4, k = v / 4;
        s_sns.lfcb = v % 32, s_sns.hfcb = (v * 5 + v / 32) % 32;
        s_sns.shape = shape;
        s_sns.gain = k % vq_gains[shape];
        s_sns.ls_a = (k / 2) % 2;
        s_sns.idx_b = shape ? 0 : k % 6;
        s_sns.ls_b = shape ? 0 : (k / 3) % 2;
        int size = vq_size[shape], step = size / 61 + 1, j = k % 64;
        s_lo = j == 62 ? 0 : j == 63 ? size - 1 : j < 61 ? j * step : size / 2;
        s_hi = j >= 62 ? s_lo : j < 61 ? s_lo + step - 1 : s_lo;
        if (s_lo > size - 1) s_lo = size - 1;
        if (s_hi > size - 1) s_hi = size - 1;
        s_sns.idx_a = ai_int(s_lo, s_hi);

        rewind_tape(s_bytes, 0);
        s_tns_seen = s_sns_seen = s_ltpf_seen = s_spec_seen = s_mdct_seen = 0;
        ai_assert(lc3_encode(e, LC3_PCM_FORMAT_S16, pcm, 1, s_bytes, frame) == 0, "[agree] frame encoded");
        int nbits = 0;
        for (int i = 0; i < g_wb; i++) nbits += g_bits[i].n;
        int known = lc3_bwdet_get_nbits(sr) + lc3_ltpf_get_nbits(s_pitch && !bypass) + lc3_sns_get_nbits() +
            4 + (ne > 32) + (ne > 64) + (ne > 128) + (ne > 256) + (ne > 512) + 1 + 8 + 3 + s_tns.nfilters;
        ai_assert(nbits == known, "[agree] bits written are the ones counted in the budget");
        ai_assert(lc3_decode(d, frame, s_bytes, LC3_PCM_FORMAT_S16, out, 1) == 0, "[agree] frame decoded");
        tape_end();
        ai_assert(s_spec_seen == 1 && s_sns_seen == 1 && s_mdct_seen >= 1, "[agree] frame synthesized");
        ai_assert(s_tns_seen || !(s_tns.rc_order[0] || (s_tns.nfilters > 1 && s_tns.rc_order[1])), "[agree] noise shaping synthesized");
        ai_assert(s_ltpf_seen || hr, "[agree] postfilter applied");
    }
}


/* --- Spectrum, through lc3_spec_encode() and lc3_spec_decode() --- */

/* Magnitudes, all the pairs of the lowest ones meet by the variants */
static const int mags[] = { 0, 1, 2, 3, 0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 8, 11, 12, 15, 16, 27, 31, 0, 33, 48, 63, 0, 100, 127, 128, 511, 1000, 1, 4095, 16384, 32767 };
static const int mags_hr[] = { 0, 1, 2, 3, 4, 0, 7, 8, 1, 31, 0, 100, 2, 1000, 16384, 32768, 65535, 65536, 1, 500000, 1048575, 4194304, 8388607 };

static int g_variant, g_zeros;

static int magnitude(bool hr, int i)
{
    int k = i + (i / 2) * g_variant + i * (g_variant / 8);
    if (g_zeros && (i / 2 + g_variant) % (4 + g_variant % 7) < 2 + g_variant % 3) return 0;
    return hr ? mags_hr[k % 23] : mags[k % 35];
}

static bool negative(int i)
{
    return ((i + g_variant) * 5 / 3) & 1;
}

static bool upper(int i)
{
    return ((i * 7 + g_variant) / 4) & 1;
}

/* Distance to the integer of a value in high-resolution */
static float part(int i, int q)
{
    return q >= 30000 ? 0 : ((i * 11 + g_variant) % 62 - 31) / 64.f + 1 / 256.f;
}

/* 10^(k/28) */
static double gain(int k)
{
    double g = 1;
    for (; k < 0; k++) g /= 1.0857111194022039;
    for (; k > 0; k--) g *= 1.0857111194022039;
    return g;
}

void h_agree_spec(int dti, int sri, int nbytes, int lsb_mode, int left, int nq, int variant, int g_int)
{
    enum lc3_dt dt = dti;
    enum lc3_srate sr = sri;
    bool hr = sr >= LC3_SRATE_48K_HR;
    int ne = lc3_ne(dt, sr);
    float *x = ai_object(ne * sizeof(float)), *y = ai_object(ne * sizeof(float));
    ai_unroll(100000);
    g_variant = variant / 2, g_zeros = variant & 1;
    if (nq > ne) nq = ne;

    /* Values are in the intervals quantized to an integer, above or below it */
    for (int i = 0; i < ne; i++) {
        int q = i < nq ? magnitude(hr, i) : 0;
        if (nq > 2 && i == nq - 1 && !q) q = 1;
        float lo, hi;
        if (q == 0)
            x[i] = hr ? ai_float(-0.49f, 0.49f) : ai_float(-0.62f, 0.62f);
        else {
            if (hr)
                lo = q + part(i, q), hi = q < 30000 ? lo + 1 / 128.f : lo;
            else if (upper(i))
                lo = q, hi = q + 0.61f;
            else
                lo = q - 0.375f + (q > 1000 ? 0.01f : 0), hi = q - 0.00390625f;
            x[i] = negative(i) ? ai_float(-hi, -lo) : ai_float(lo, hi);
        }
    }

    int ind = hr ? 4 + (sr - LC3_SRATE_48K_HR) : sr;
    int g_off = nbytes * 8 / (10 * (1 + ind));
    g_off = 105 + 5 * (1 + ind) + (g_off < 115 ? g_off : 115);
    if (g_off > (sr == LC3_SRATE_96K_HR ? 181 : 255)) g_off = sr == LC3_SRATE_96K_HR ? 181 : 255;

    lc3_spec_side_t w = { .g_idx = g_int + g_off, .nq = nq, .lsb_mode = lsb_mode }, r;
    if (w.g_idx < 0) w.g_idx = 0;
    if (w.g_idx > 255) w.g_idx = 255;
    double g = gain(w.g_idx - g_off), tol = g_int == 0 ? 0 : g * 1e-5;

    lc3_bits_t bits;
    rewind_tape(nbytes, left);
    lc3_setup_bits(&bits, LC3_BITS_MODE_WRITE, NULL, nbytes);
    lc3_spec_put_side(&bits, dt, sr, &w);
    lc3_spec_encode(&bits, dt, sr, (enum lc3_bandwidth)sr, nbytes, &w, x);
    lc3_flush_bits(&bits);

    lc3_setup_bits(&bits, LC3_BITS_MODE_READ, NULL, nbytes);
    ai_assert(lc3_spec_get_side(&bits, dt, sr, &r) == 0, "[agree] data of the spectrum decoded");
    ai_assert(r.g_idx == w.g_idx && r.nq == w.nq && r.lsb_mode == w.lsb_mode, "[agree] data of the spectrum");
    ai_assert(lc3_spec_decode(&bits, dt, sr, (enum lc3_bandwidth)sr, nbytes, &r, y) == 0, "[agree] spectrum decoded");
    tape_end();

    /* Bits after the symbols : one for each value not null, or the lowest
     * bit of each value of pairs that have others, with the missing signs */
    int n = left, count = 0;
    for (int i = 0; i < nq; i++)
        count += magnitude(hr, i) || (nq > 2 && i == nq - 1);
    for (int i = 0; i < nq; i += 2) {
        int q[2];
        for (int j = 0; j < 2; j++) {
            q[j] = magnitude(hr, i + j);
            if (nq > 2 && i + j == nq - 1 && !q[j]) q[j] = 1;
        }
        bool big = (q[0] | q[1]) >> 2;
        for (int j = 0; j < 2; j++) {
            double lo = q[j], hi = q[j];
            if (lsb_mode && big) {
                bool whole = n > 0;
                n--;
                if (q[j] == 1 && whole) whole = n > 0, n--;
                if (!whole) lo = hi = q[j] & ~1;
            } else if (!lsb_mode && q[j] && hr) {
                double f = part(i + j, q[j]), e = 0.5;
                for (int m = n; m > 0 && e > 0.04; m -= count) e /= 2;
                n--;
                lo += f - e - q[j] / 8e6, hi += f + 1 / 128. + e + q[j] / 8e6;
            } else if (!lsb_mode && q[j]) {
                if (n > 0) lo = hi = upper(i + j) ? q[j] + 0.3125 : q[j] - 0.1875;
                n--;
            }
            if (hi == 0) lo = -0.5, hi = 0.5;
            lo = lo * g - lo * tol - tol, hi = hi * g + hi * tol + tol;
            if (negative(i + j)) {
                double z = lo;
                lo = -hi, hi = -z;
            }
            ai_assert(y[i + j] >= lo && y[i + j] <= hi, "[agree] value of a coefficient decoded");
        }
    }
    for (int i = nq; i < ne; i++)
        ai_assert(y[i] >= -0.5 * g - tol && y[i] <= 0.5 * g + tol, "[agree] value of a coefficient not coded");
}


/* --- Weighting of the noise shaping, by the size of the frame --- */

void h_agree_weight(int dti, int sri, int bw, int lo, int hi)
{
    enum lc3_dt dt = dti;
    lc3_tns_data_t w, r;
    lc3_bits_t bits;
    int ne = lc3_ne(dt, (enum lc3_srate)sri);
    float *x = ai_bytes(ne * sizeof(float));
    int nbytes = ai_int(lo, hi);
    lc3_tns_analyze(dt, (enum lc3_bandwidth)bw, true, nbytes, &w, x);

    rewind_tape(0, 0);
    g_bits[0].v = g_bits[1].v = 0;
    g_bits[0].n = g_bits[1].n = 1;
    g_wb = w.nfilters;
    ai_assert(lc3_tns_get_data(&bits, dt, (enum lc3_bandwidth)bw, nbytes, &r) == 0, "[agree] filters decoded");
    tape_end();
    bool low = lo * 8 < 120 * (dti + 1);
    ai_assert(w.lpc_weighting == low, "[agree] weighting of the noise shaping in the encoder");
    ai_assert(r.lpc_weighting == low, "[agree] weighting of the noise shaping in the decoder");
    ai_assert(w.nfilters == r.nfilters, "[agree] number of filters");
    ai_assert(w.rc_order[0] == 0 && (w.nfilters < 2 || w.rc_order[1] == 0), "[agree] noise shaping of a signal close to Nyquist");
}
