/* Contracts of the bitstream layer, used by the analysis of its callers.
 * Each one asserts the precondition and returns anything the real function
 * may return.  The real functions are shown to meet them by bits_ops.c. */
#include "ai.h"
#include <bits.h>

void c_setup_bits(lc3_bits_t *bits,
    enum lc3_bits_mode mode, void *buffer, int len)
{
    ai_assert(len >= LC3_MIN_FRAME_BYTES && len <= LC3_HR_MAX_FRAME_BYTES,
        "bitstream opened with a length that is not a valid frame size");
    if (mode == LC3_BITS_MODE_READ) {
        (void)*(volatile uint8_t *)buffer;
        (void)((volatile uint8_t *)buffer)[len-1];
    } else
        ai_any(buffer, len);
    *(volatile int *)bits = len;
}

int c_get_bits_left(const lc3_bits_t *bits)
{
    int len = *(volatile int *)bits;
    return ai_int(0, 8 * (len + 7));
}

int c_check_bits(const lc3_bits_t *bits)
{
    (void)*(volatile int *)bits;
    return ai_int(-1, 0);
}

void c_put_bits(lc3_bits_t *bits, unsigned v, int n)
{
    (void)*(volatile int *)bits;
    ai_assert(n >= 1 && n <= 32, "number of bits written not in 1 to 32");
    if (n < 32)
        ai_assert(v <= (1u << n) - 1, "[field] value written does not fit its field");
}

/* The same, the value in excess of the field being cut */
void c_put_bits_any(lc3_bits_t *bits, unsigned v, int n)
{
    ai_defined(&v, sizeof(v), "undefined value written");
    (void)*(volatile int *)bits;
    ai_assert(n >= 1 && n <= 32, "number of bits written not in 1 to 32");
}

unsigned c_get_bits(lc3_bits_t *bits, int n)
{
    (void)*(volatile int *)bits;
    ai_assert(n >= 1 && n <= 31, "number of bits read not in 1 to 31");
    if (n == 1) { if (ai_bool()) return 1; return 0; }
    return ai_uint() & ((1u << n) - 1);
}

void c_put_symbol(lc3_bits_t *bits, const struct lc3_ac_model *model, unsigned s)
{
    (void)*(volatile int *)bits;
    ai_assert(s <= 16, "symbol out of its model");
    ai_assert(model->s[s].range >= 1, "symbol without a coding interval");
}

unsigned c_get_symbol(lc3_bits_t *bits, const struct lc3_ac_model *model)
{
    (void)*(volatile int *)bits;
    int m = 16;
    while (m > 0 && model->s[m].low >= 1024) m--;
    return ai_int(0, m);
}

/* The same, for the callers that do not rely on the size of the model */
unsigned c_get_symbol_any(lc3_bits_t *bits, const struct lc3_ac_model *model)
{
    (void)*(volatile int *)bits;
    (void)*(volatile uint16_t *)&model->s[16];
    return ai_int(0, 16);
}

void c_flush_bits(lc3_bits_t *bits)
{
    (void)*(volatile int *)bits;
}

/* --- Temporal noise shaping side information, established by h_tns_decode() and h_tns_synthesis() --- */
#include <tns.h>
#include <tables.h>

int c_tns_get_data(lc3_bits_t *bits,
    enum lc3_dt dt, enum lc3_bandwidth bw, int nbytes, lc3_tns_data_t *data)
{
    (void)*(volatile int *)bits;
    data->nfilters = 1 + (dt >= LC3_DT_5M && bw >= LC3_BANDWIDTH_SWB);
    data->lpc_weighting = ai_bool();
    for (int f = 0; f < 2; f++) {
        data->rc_order[f] = ai_int(0, dt <= LC3_DT_5M ? 4 : 8);
        for (int i = 0; i < 8; i++)
            data->rc[f][i] = ai_int(-8, 8);
    }
    if (ai_bool()) {
        ai_undef(data, sizeof(*data));
        return -1;
    }
    return 0;
}

void c_tns_synthesize(enum lc3_dt dt, enum lc3_bandwidth bw,
    const lc3_tns_data_t *data, float *x)
{
    ai_assert(data->nfilters >= 1 && data->nfilters <= 2, "number of filters");
    (void)*(volatile bool *)&data->lpc_weighting;
    for (int f = 0; f < data->nfilters; f++)
        ai_assert(data->rc_order[f] >= 0 && data->rc_order[f] <= (dt <= LC3_DT_5M ? 4 : 8), "order of a filter");
    enum lc3_srate sr = (enum lc3_srate)bw;
    ai_defined(x, lc3_ne(dt, sr) * sizeof(float), "noise shaping of undefined coefficients");
    ai_any(x, lc3_ne(dt, sr) * sizeof(float));
}

/* --- Scale factors, established by h_sns_decode() --- */
#include <sns.h>
#include <tables.h>

int c_sns_get_data(lc3_bits_t *bits, lc3_sns_data_t *data)
{
    (void)*(volatile int *)bits;
    ai_any(data, sizeof(*data));
    if (ai_bool()) {
        ai_undef(data, sizeof(*data));
        return -1;
    }
    return 0;
}

void c_sns_synthesize(enum lc3_dt dt, enum lc3_srate sr,
    const lc3_sns_data_t *data, const float *x, float *y)
{
    int ne = lc3_ne(dt, sr);
    ai_defined(data, sizeof(*data), "scale factors synthesized from data not decoded");
    ai_defined(x, ne * sizeof(float), "scale factors applied to undefined coefficients");
    ai_any(y, ne * sizeof(float));
}

/* --- MDCT, established by h_mdct_forward() and h_mdct_inverse() --- */
#include <mdct.h>

void c_mdct_inverse(enum lc3_dt dt, enum lc3_srate sr, enum lc3_srate sr_src,
    const float *x, float *d, float *y)
{
    int ns = lc3_ns(dt, sr), nd = lc3_nd(dt, sr);
    ai_assert(sr_src <= sr, "samplerates of the inverse transform");
    ai_defined(x, lc3_ns(dt, sr) * sizeof(float), "undefined coefficients transformed");
    ai_defined(d, nd * sizeof(float), "undefined overlap");
    ai_any(d, nd * sizeof(float));
    ai_any(y, ns * sizeof(float));
}

void c_mdct_forward(enum lc3_dt dt, enum lc3_srate sr, enum lc3_srate sr_dst,
    const float *x, float *d, float *y)
{
    int ns = lc3_ns(dt, sr), nd = lc3_nd(dt, sr);
    ai_assert(sr_dst <= sr, "samplerates of the forward transform");
    ai_defined(x, ns * sizeof(float), "undefined samples transformed");
    ai_defined(d, nd * sizeof(float), "undefined overlap");
    ai_any(d, nd * sizeof(float));
    ai_any(y, ns * sizeof(float));
}

/* --- Long term postfilter synthesis, established by h_ltpf_synthesis() --- */
#include <ltpf.h>

void c_ltpf_synthesize(enum lc3_dt dt, enum lc3_srate sr, int nbytes,
    lc3_ltpf_synthesis_t *ltpf, const lc3_ltpf_data_t *data,
    const float *xh, float *x)
{
    int ns = lc3_ns(dt, sr), nh = ns + lc3_nh(dt, sr);
    ai_assert(sr <= LC3_SRATE_48K, "postfilter used in high-resolution mode");
    ai_assert(nbytes >= 0 && nbytes <= 1000, "postfilter size");
    if (data) ai_defined(data, sizeof(bool), "postfilter data"),
        ai_defined(&data->pitch_index, sizeof(int), "postfilter data");
    ai_defined(xh, nh * sizeof(float), "undefined history");
    int off = x - xh;
    ai_assert(off >= 0 && off <= nh - ns, "samples out of the ring buffer");
    ai_assert(off % ns == 0, "samples not aligned on a frame in the ring buffer");
    ai_any(ltpf->c, sizeof(ltpf->c));
    ai_any(ltpf->x, sizeof(ltpf->x));
    ltpf->active = ai_bool();
    ltpf->pitch = ai_int(0, 100000);
    ai_any(x, ns * sizeof(float));
}

/* --- Spectral coefficients, analysed with the decoder by h_decode() --- */
#include <spec.h>

static float *spec_coeffs;
static long spec_size;

int c_spec_decode(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr,
    enum lc3_bandwidth bw, int nbytes, const lc3_spec_side_t *side, float *x)
{
    (void)*(volatile int *)bits;
    (void)*(volatile int *)&side->g_idx;
    (void)*(volatile int *)&side->nq;
    (void)*(volatile bool *)&side->lsb_mode;
    int ne = lc3_ne(dt, sr);
    spec_coeffs = x, spec_size = ne * sizeof(float);
    ai_any(x, ne * sizeof(float));
    if (ai_bool()) {
        ai_undef(x, ne * sizeof(float));
        return -1;
    }
    return 0;
}

/* Content of a frame in error, undefined from there */
int c_check_bits_end(const lc3_bits_t *bits)
{
    (void)*(volatile int *)bits;
    if (ai_bool()) {
        if (spec_coeffs) ai_undef(spec_coeffs, spec_size);
        return -1;
    }
    return 0;
}

/* --- The parts analysed in place, each with buffers of its own --- */
#include <plc.h>

static enum lc3_srate iso_sr;

int c_spec_decode_iso(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr,
    enum lc3_bandwidth bw, int nbytes, const lc3_spec_side_t *side, float *x)
{
    int ne = lc3_ne(dt, sr);
    iso_sr = sr;
    ai_assert((int)bw >= 0 && (int)bw <= (int)sr, "bandwidth");
    float *y = ai_bytes(ne * sizeof(float));
    int ret = lc3_spec_decode(bits, dt, sr, bw, nbytes, side, y);
    ai_any(x, ne * sizeof(float));
    return ret;
}

void c_tns_synthesize_iso(enum lc3_dt dt, enum lc3_bandwidth bw,
    const lc3_tns_data_t *data, float *x)
{
    ai_assert((int)bw >= 0 && (int)bw <= (int)iso_sr, "bandwidth");
    c_tns_synthesize(dt, bw, data, x);
    for (int f = 0; f < data->nfilters; f++)
        for (int i = 0; i < data->rc_order[f]; i++)
            ai_assert(data->rc[f][i] >= -8 && data->rc[f][i] <= 8, "coefficient of a filter");
    ai_any(x, lc3_ne(dt, iso_sr) * sizeof(float));
}

void c_plc_synthesize_iso(enum lc3_dt dt, enum lc3_srate sr,
    lc3_plc_state_t *plc, const float *x, float *y)
{
    int ne = lc3_ne(dt, sr);
    ai_defined(x, ne * sizeof(float), "concealment of undefined coefficients");
    float *u = ai_bytes(ne * sizeof(float)), *v = ai_object(ne * sizeof(float));
    ai_readonly(u);
    lc3_plc_synthesize(dt, sr, plc, u, v);
    ai_defined(v, ne * sizeof(float), "all the coefficients are written");
    ai_any(y, ne * sizeof(float));
}
