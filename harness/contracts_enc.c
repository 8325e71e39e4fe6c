/* Contracts of the parts of the encoder, established by modules_enc.c */
#include "ai.h"
#include <attdet.h>
#include <energy.h>
#include <bwdet.h>
#include <ltpf.h>
#include <sns.h>
#include <tns.h>
#include <spec.h>
#include <tables.h>

static void frame_size(int dt, int sr, int nbytes)
{
    (void)dt;
    ai_assert(nbytes >= 20 && nbytes <= (sr >= LC3_SRATE_48K_HR ? 625 : 400), "size of the frame");
}

bool c_attdet_run(enum lc3_dt dt, enum lc3_srate sr,
    int nbytes, lc3_attdet_analysis_t *s, const int16_t *x)
{
    int ns = lc3_ns(dt, sr), nt = lc3_nt(sr);
    ai_assert(nbytes >= 20 && nbytes <= 625, "size of the frame");
    ai_defined(x - nt, (nt + ns) * sizeof(*x), "attack detection of undefined samples");
    ai_defined(s, sizeof(*s), "undefined state of the attack detection");
    ai_any(s, sizeof(*s));
    return ai_bool();
}

bool c_ltpf_analyse(enum lc3_dt dt, enum lc3_srate sr,
    lc3_ltpf_analysis_t *s, const int16_t *x, lc3_ltpf_data_t *data)
{
    int ns = lc3_ns(dt, sr), nt = lc3_nt(sr);
    ai_defined(x - nt, (nt + ns) * sizeof(*x), "pitch analysis of undefined samples");
    ai_assert(s->pitch >= 0 && s->pitch <= 1023, "pitch kept");
    ai_assert(s->tc >= 0 && s->tc <= 97, "pitch lag kept");
    ai_defined(&s->active, sizeof(bool), "activation kept");
    ai_any(s, sizeof(*s));
    s->active = ai_bool();
    s->pitch = ai_int(0, 1023);
    s->tc = ai_int(0, 97);
    data->active = ai_bool();
    if (ai_split(ai_bool())) {
        data->pitch_index = ai_int(0, 511);
        return true;
    }
    return false;
}

bool c_energy_compute(enum lc3_dt dt, enum lc3_srate sr, const float *x, float *e)
{
    int ne = lc3_ne(dt, sr), nb = lc3_num_bands[dt][sr];
    ai_defined(x, ne * sizeof(float), "energy of undefined coefficients");
    ai_any(e, nb * sizeof(float));
    return ai_bool();
}

enum lc3_bandwidth c_bwdet_run(enum lc3_dt dt, enum lc3_srate sr, const float *e)
{
    ai_defined(e, lc3_num_bands[dt][sr] * sizeof(float), "bandwidth of undefined energies");
    return (enum lc3_bandwidth)ai_int(sr >= LC3_SRATE_48K_HR ? sr : 0, sr);
}

void c_sns_analyze(enum lc3_dt dt, enum lc3_srate sr, int nbytes,
    const float *e, bool att, lc3_sns_data_t *data, const float *x, float *y)
{
    int ne = lc3_ne(dt, sr);
    frame_size(dt, sr, nbytes);
    ai_defined(e, lc3_num_bands[dt][sr] * sizeof(float), "scale factors of undefined energies");
    ai_defined(x, ne * sizeof(float), "scale factors applied to undefined coefficients");
    ai_any(data, sizeof(*data));
    ai_any(y, ne * sizeof(float));
}

void c_sns_put_data(lc3_bits_t *bits, const lc3_sns_data_t *data)
{
    (void)*(volatile int *)bits;
    ai_defined(data, sizeof(*data), "undefined scale factors written");
}

void c_tns_analyze(enum lc3_dt dt, enum lc3_bandwidth bw,
    bool nn_flag, int nbytes, lc3_tns_data_t *data, float *x)
{
    int ne = lc3_ne(dt, (enum lc3_srate)bw);
    frame_size(dt, bw, nbytes);
    ai_defined(x, ne * sizeof(float), "noise shaping of undefined coefficients");
    ai_any(x, ne * sizeof(float));
    data->nfilters = ai_int(1, 2);
    data->lpc_weighting = ai_bool();
    for (int f = 0; f < 2; f++) {
        data->rc_order[f] = ai_int(0, dt <= LC3_DT_5M ? 4 : 8);
        for (int i = 0; i < 8; i++)
            data->rc[f][i] = ai_int(-8, 8);
    }
}

void c_tns_put_data(lc3_bits_t *bits, const lc3_tns_data_t *data)
{
    (void)*(volatile int *)bits;
    ai_assert(data->nfilters >= 1 && data->nfilters <= 2, "number of filters");
    (void)*(volatile bool *)&data->lpc_weighting;
    for (int f = 0; f < data->nfilters; f++)
        ai_assert(data->rc_order[f] >= 0 && data->rc_order[f] <= 8, "order of a filter");
}

void c_spec_analyze(enum lc3_dt dt, enum lc3_srate sr, int nbytes,
    bool pitch, const lc3_tns_data_t *tns, lc3_spec_analysis_t *s,
    float *x, lc3_spec_side_t *side)
{
    int ne = lc3_ne(dt, sr);
    frame_size(dt, sr, nbytes);
    ai_assert(tns->nfilters >= 1 && tns->nfilters <= 2, "number of filters");
    ai_defined(x, ne * sizeof(float), "undefined coefficients quantized");
    ai_assert(s->nbits_off >= -40 && s->nbits_off <= 40, "offset of bits bounded");
    ai_assert(s->nbits_spare >= -(1 << 20) && s->nbits_spare <= 1 << 20, "spare bits bounded");
    ai_any(x, ne * sizeof(float));
    s->nbits_off = ai_float(-40, 40);
    s->nbits_spare = ai_int(-(1 << 20), 1 << 20);
    side->g_idx = ai_int(0, 255);
    side->nq = ai_step(2, ne, 2);
    side->lsb_mode = ai_bool();
}

void c_spec_put_side(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr,
    const lc3_spec_side_t *side)
{
    (void)*(volatile int *)bits;
    ai_defined(side, sizeof(int), "quantization data");
    ai_assert(side->nq >= 2 && side->nq <= lc3_ne(dt, sr), "number of coefficients");
}

void c_spec_encode(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr,
    enum lc3_bandwidth bw, int nbytes, const lc3_spec_side_t *side, float *x)
{
    (void)*(volatile int *)bits;
    frame_size(dt, sr, nbytes);
    ai_assert((int)bw <= (int)sr, "bandwidth");
    ai_assert(side->nq >= 2 && side->nq <= lc3_ne(dt, sr), "number of coefficients");
    (void)*(volatile bool *)&side->lsb_mode;
    ai_defined(x, lc3_ne(dt, sr) * sizeof(float), "undefined coefficients encoded");
}
