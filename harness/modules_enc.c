/* Parts of the encoder, on their own */
#include "ai.h"
#include <bits.h>
#include <tns.h>
#include <sns.h>
#include <mdct.h>
#include <ltpf.h>
#include <attdet.h>
#include <energy.h>
#include <bwdet.h>
#include <spec.h>
#include <tables.h>

static void open_bits(lc3_bits_t *bits, int nbytes)
{
    *(volatile int *)bits = nbytes;
}

static int frame_bytes(int dt, int sr)
{
    (void)dt;
    return sr >= LC3_SRATE_48K_HR ? ai_int(20, 625) : ai_int(20, 400);
}

/* Attack detection, any history of samples */
void h_attdet(int dt, int sr)
{
    int ns = lc3_ns(dt, sr), nt = lc3_nt(sr);
    lc3_attdet_analysis_t *s = ai_object(sizeof(*s));
    *s = (lc3_attdet_analysis_t){ 0 };
    while (ai_history()) {
        int16_t *x = ai_bytes((nt + ns) * sizeof(int16_t));
        ai_readonly(x);
        lc3_attdet_run(dt, sr, frame_bytes(dt, sr), s, x + nt);
        ai_merge();
    }
}

/* Pitch analysis.  The state kept from a frame to the next one stays in the bounds assumed */
void h_ltpf_analysis(int dt, int sr)
{
    int ns = lc3_ns(dt, sr), nt = lc3_nt(sr);
    lc3_ltpf_analysis_t *s = ai_object(sizeof(*s));
    ai_any(s, sizeof(*s));
    s->active = ai_bool();
    s->pitch = ai_int(0, 1023);
    s->tc = ai_int(0, 97);
    ai_merge();

    lc3_ltpf_data_t data;
    int16_t *x = ai_bytes((nt + ns) * sizeof(int16_t));
    ai_readonly(x);
    ai_forkload(128);
    bool present = lc3_ltpf_analyse(dt, sr, s, x + nt, &data);
    if (present) {
        ai_assert(data.pitch_index >= 0 && data.pitch_index < 512, "pitch index fits its field");
        ai_defined(&data.active, sizeof(bool), "activation");
    }
    ai_assert(s->pitch >= 0 && s->pitch <= 1023, "pitch kept");
    ai_assert(s->tc >= 0 && s->tc <= 97, "pitch lag kept");
}

/* Energy, bandwidth */
void h_energy(int dt, int sr)
{
    int ne = lc3_ne(dt, sr), nb = lc3_num_bands[dt][sr];
    float *x = ai_bytes(ne * sizeof(float));
    float *e = ai_object(nb * sizeof(float));
    ai_readonly(x);
    lc3_energy_compute(dt, sr, x, e);
    ai_defined(e, nb * sizeof(float), "all the bands");
    ai_readonly(e);
    ai_partition(1);
    int bw = lc3_bwdet_run(dt, sr, e);
    ai_assert(bw >= 0 && bw <= sr, "bandwidth detected");
    ai_merge();
}

/* Scale factors */
void h_sns_analysis(int dt, int sr)
{
    lc3_bits_t bits;
    lc3_sns_data_t data;
    int ne = lc3_ne(dt, sr), nb = lc3_num_bands[dt][sr];
    open_bits(&bits, 20);
    float *e = ai_bytes(nb * sizeof(float));
    float *x = ai_bytes(ne * sizeof(float));
    float *y = ai_object(ne * sizeof(float));
    ai_readonly(e);
    ai_readonly(x);
    lc3_sns_analyze(dt, sr, frame_bytes(dt, sr), e, ai_bool(), &data, x, y);
    ai_defined(y, ne * sizeof(float), "all the coefficients are written");
    ai_defined(&data.lfcb, sizeof(int), "first codebook");
    ai_defined(&data.hfcb, sizeof(int), "second codebook");
    ai_defined(&data.shape, sizeof(int), "shape");
    ai_defined(&data.gain, sizeof(int), "gain");
    ai_defined(&data.idx_a, sizeof(int), "index of the first set");
    ai_defined(&data.ls_a, sizeof(bool), "sign of the first set");
    ai_any(&data.idx_b, sizeof(int));      /* only set for the shape that has a second set */
    ai_any(&data.ls_b, sizeof(bool));
    lc3_sns_put_data(&bits, &data);
}

/* Temporal noise shaping */
void h_tns_analysis(int dt, int sr)
{
    for (int bw = 0; bw <= sr; bw++) {
        if (bw < sr && sr >= LC3_SRATE_48K_HR) continue;
        lc3_bits_t bits;
        lc3_tns_data_t data;
        int ne = lc3_ne(dt, sr);
        open_bits(&bits, 20);
        float *x = ai_bytes(ne * sizeof(float));
        lc3_tns_analyze(dt, bw, ai_bool(), frame_bytes(dt, sr), &data, x);
        ai_assert(data.nfilters >= 1 && data.nfilters <= 2, "number of filters");
        for (int f = 0; f < data.nfilters; f++) {
            ai_assert(data.rc_order[f] >= 0 && data.rc_order[f] <= (dt <= LC3_DT_5M ? 4 : 8), "order of a filter");
            for (int i = 0; i < data.rc_order[f]; i++)
                ai_assert(data.rc[f][i] >= -8 && data.rc[f][i] <= 8, "coefficient of a filter");
        }
        ai_defined(&data.lpc_weighting, sizeof(bool), "weighting");
        ai_defined(x, ne * sizeof(float), "filtered coefficients");
        data.lpc_weighting = ai_split(data.lpc_weighting);
        int nbits = lc3_tns_get_nbits(&data);
        ai_assert(nbits >= 0 && nbits <= 200, "bits of the filters");
        lc3_tns_put_data(&bits, &data);
        ai_merge();
    }
}

/* Spectrum.  The state kept from a frame to the next one stays in the bounds assumed */
void h_spec_analysis(int dt, int sr)
{
    lc3_spec_analysis_t *s = ai_object(sizeof(*s));
    int ne = lc3_ne(dt, sr);
    s->nbits_off = ai_float(-40, 40);
    s->nbits_spare = ai_int(-(1 << 20), 1 << 20);

    lc3_bits_t bits;
    lc3_tns_data_t tns;
    lc3_spec_side_t side;
    int bw = sr >= LC3_SRATE_48K_HR ? sr : ai_int(0, sr);
    int nbytes = frame_bytes(dt, sr);
    int nf = 1 + (dt >= LC3_DT_5M && bw >= LC3_BANDWIDTH_SWB);
    tns.nfilters = nf;
    tns.lpc_weighting = ai_bool();
    for (int f = 0; f < 2; f++) {
        tns.rc_order[f] = ai_int(0, dt <= LC3_DT_5M ? 4 : 8);
        for (int i = 0; i < 8; i++)
            tns.rc[f][i] = ai_int(-8, 8);
    }
    open_bits(&bits, 20);
    float *x = ai_bytes(ne * sizeof(float));
    bool pitch = ai_bool();
    ai_merge();

    ai_forkload(2);
    lc3_spec_analyze(dt, sr, nbytes, pitch, &tns, s, x, &side);
    ai_merge();
    ai_assert(s->nbits_off >= -40 && s->nbits_off <= 40, "offset of bits bounded");
    ai_assert(s->nbits_spare >= -(1 << 20) && s->nbits_spare <= 1 << 20, "spare bits bounded");
    ai_defined(&side.g_idx, sizeof(int), "gain");
    ai_defined(&side.nq, sizeof(int), "number of coefficients");
    ai_defined(&side.lsb_mode, sizeof(bool), "LSB mode");
    ai_defined(x, ne * sizeof(float), "quantized coefficients");
    ai_assert(side.nq >= 2 && side.nq <= ne, "number of coefficients coded");
    ai_assert(side.nq % 2 == 0, "pairs of coefficients coded");
    side.lsb_mode = ai_split(side.lsb_mode);
    lc3_spec_put_side(&bits, dt, sr, &side);
    lc3_spec_encode(&bits, dt, sr, bw, nbytes, &side, x);
}
