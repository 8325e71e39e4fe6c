/* Analysis of parts of the codec on their own: the callers are analysed with
 * the contracts of contracts.c, that these entry points establish. */
#include "ai.h"
#include <bits.h>
#include <tns.h>
#include <sns.h>
#include <mdct.h>
#include <ltpf.h>
#include <tables.h>

void c_setup_bits(lc3_bits_t *, enum lc3_bits_mode, void *, int);

static void open_bits(lc3_bits_t *bits, int nbytes)
{
    *(volatile int *)bits = nbytes;
}

/* Scale factors: anything accepted by the reader can be synthesized */
void h_sns_decode(int dt, int sr)
{
    lc3_bits_t bits;
    lc3_sns_data_t data;
    int ne = lc3_ne(dt, sr);
    open_bits(&bits, 20);
    ai_partition(1);
    ai_keep(&data);
    int ret = lc3_sns_get_data(&bits, &data);
    ai_assert(ret == 0 || ret == -1, "return value");
    if (ret) return;
    ai_defined(&data.shape, sizeof(int), "shape");
    float *x = ai_bytes(ne * sizeof(float));
    float *y = ai_object(ne * sizeof(float));
    ai_readonly(x);
    lc3_sns_synthesize(dt, sr, &data, x, y);
    ai_partition(0);
    ai_defined(y, ne * sizeof(float), "all the coefficients are written");
}

/* Temporal noise shaping */
void h_tns_decode(int dt, int sr)
{
    for (int bw = 0; bw <= sr; bw++) {
        lc3_bits_t bits;
        lc3_tns_data_t data;
        int nbytes = ai_int(20, 1000);
        open_bits(&bits, 20);
        ai_partition(1);
        ai_keep(&data);
        ai_rel(&data);
        int ret = lc3_tns_get_data(&bits, dt, bw, nbytes, &data);
        ai_assert(ret == 0 || ret == -1, "return value");
        if (ret == 0) {
            ai_assert(data.nfilters >= 1 && data.nfilters <= 2, "number of filters");
            ai_defined(&data.lpc_weighting, sizeof(bool), "weighting");
            for (int f = 0; f < data.nfilters; f++) {
                int order = data.rc_order[f];
                ai_assert(order >= 0 && order <= (dt <= LC3_DT_5M ? 4 : 8), "order of a filter");
                for (int i = 0; i < order; i++)
                    ai_assert(data.rc[f][i] >= -8 && data.rc[f][i] <= 8, "quantized reflection coefficient");
            }
        }
        ai_partition(0);
    }
}

/* Synthesis filters, of all orders: coefficients over the order are undefined */
void h_tns_synthesis(int dt, int sr)
{
    int ne = lc3_ne(dt, sr), max = dt <= LC3_DT_5M ? 4 : 8;
    for (int bw = 0; bw <= sr; bw++)
        for (int k = 0; k < 2 * (max + 1); k++) {
            int f = k / (max + 1), order = k % (max + 1);
            lc3_tns_data_t data;
            data.nfilters = 1 + (dt >= LC3_DT_5M && bw >= LC3_BANDWIDTH_SWB);
            data.lpc_weighting = ai_bool();
            if (f >= data.nfilters) continue;
            for (int g = 0; g < data.nfilters; g++) {
                data.rc_order[g] = g == f ? order : k & 1 ? max : 0;
                for (int i = 0; i < data.rc_order[g]; i++)
                    data.rc[g][i] = ai_int(-8, 8);
            }
            float *x = ai_bytes(ne * sizeof(float));
            lc3_tns_synthesize(dt, bw, &data, x);
        }
}

/* Modified discrete cosine transform, on buffers of the exact sizes */
void h_mdct_forward(int dt, int sr, int sr_dst)
{
    int ns = lc3_ns(dt, sr), nd = lc3_nd(dt, sr);
    float *x = ai_bytes(ns * sizeof(float));
    float *d = ai_bytes(nd * sizeof(float));
    lc3_mdct_forward(dt, sr, sr_dst, x, d, x);
    ai_readonly(x);
    float *y = ai_object(ns * sizeof(float));
    lc3_mdct_forward(dt, sr, sr_dst, x, d, y);
    ai_defined(y, ns * sizeof(float), "all the coefficients are written");
    ai_defined(d, nd * sizeof(float), "the overlap is written");
}

void h_mdct_inverse(int dt, int sr, int sr_src)
{
    int ns = lc3_ns(dt, sr), nd = lc3_nd(dt, sr);
    float *x = ai_bytes(ns * sizeof(float));
    float *d = ai_bytes(nd * sizeof(float));
    lc3_mdct_inverse(dt, sr, sr_src, x, d, x);
    ai_readonly(x);
    float *y = ai_object(ns * sizeof(float));
    lc3_mdct_inverse(dt, sr, sr_src, x, d, y);
    ai_defined(y, ns * sizeof(float), "all the samples are written");
    ai_defined(d, nd * sizeof(float), "the overlap is written");
}

/* Long term postfilter synthesis: any history of frames */
void h_ltpf_synthesis(int dt, int sr)
{
    lc3_bits_t bits;
    lc3_ltpf_synthesis_t *ltpf = ai_object(sizeof(*ltpf));
    *ltpf = (lc3_ltpf_synthesis_t){ 0 };
    int ns = lc3_ns(dt, sr), nh = ns + lc3_nh(dt, sr);
    open_bits(&bits, 20);
    while (ai_history()) {
        lc3_ltpf_data_t data;
        int nbytes = ai_int(0, 1000);
        bool present = ai_split(ai_bool());
        if (present) lc3_ltpf_get_data(&bits, &data);
        float *xh = ai_bytes(nh * sizeof(float));
        int off = ai_split(ai_step(0, nh - ns, ns));
        lc3_ltpf_synthesize(dt, sr, nbytes, ltpf, present ? &data : NULL, xh, xh + off);
        ai_merge();
    }
}
