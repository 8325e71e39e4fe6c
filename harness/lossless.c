/* What is written in the bitstream is read back: each operation of the writer
 * and of the reader against the definition of an arithmetic coder with carry
 * propagation, and of fields of bits packed from the end */
#include "ai.h"
#include <bits.h>
#include <tables.h>

#define LEN 24

/* --- Fields of bits, by the origin of each bit --- */

void h_bit_fields(int k)
{
    for (int n = 1; n < 32; n++)
        for (int m = 1; m < 32; m += 30) {
            lc3_bits_t w, r;
            uint8_t *buffer = ai_bytes(LEN);
            unsigned a = k ? ai_bits(k) : 0, b = ai_bits(n), c = ai_bits(m), d = ai_bits(31);
            lc3_setup_bits(&w, LC3_BITS_MODE_WRITE, buffer, LEN);
            if (k) lc3_put_bits(&w, a, k);
            lc3_put_bits(&w, b, n);
            lc3_put_bits(&w, c, m);
            lc3_put_bits(&w, d, 31);
            int left = lc3_get_bits_left(&w);
            ai_assert(left == 8 * LEN - 2 - k - n - m - 31, "[lossless] bits left, writing fields");
            for (int i = left; i > 0; i -= 32) lc3_put_bits(&w, i < 32 ? (1u << i) - 1 : 0xffffffff, i < 32 ? i : 32);
            ai_assert(lc3_get_bits_left(&w) == 0, "[lossless] bits left of a full frame");
            ai_assert(lc3_check_bits(&w) == 0, "[lossless] a full frame is not an error");
            lc3_flush_bits(&w);

            lc3_setup_bits(&r, LC3_BITS_MODE_READ, buffer, LEN);
            if (k) ai_assert(lc3_get_bits(&r, k) == a, "[lossless] field read");
            ai_assert(lc3_get_bits(&r, n) == b, "[lossless] field read");
            ai_assert(lc3_get_bits(&r, m) == c, "[lossless] field read");
            ai_assert(lc3_get_bits(&r, 31) == d, "[lossless] field read");
            ai_assert(lc3_get_bits_left(&r) == left, "[lossless] bits left, reading fields");
            for (int i = 0; i < left; i++)
                ai_assert(lc3_get_bit(&r) == 1, "[lossless] last field of a full frame");
            ai_assert(lc3_get_bits_left(&r) == 0, "[lossless] bits left of a frame fully read");
            ai_assert(lc3_check_bits(&r) == 0, "[lossless] a frame fully read is not an error");
            lc3_get_bit(&r);
            ai_assert(lc3_check_bits(&r) == -1, "[lossless] reading more than the frame is an error");
        }
}

/* --- Arithmetic coder --- */

static unsigned hash(unsigned x)
{
    x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; return x ^ x >> 16;
}

/* Pending bytes of the writer: the last byte, and a run of 0xff, that a carry may change */
struct pending { int cache, count, carry; };

static int pending_bytes(struct pending p, uint8_t *v)
{
    int n = 0;
    if (p.cache >= 0) v[n++] = p.cache;
    for (int i = 0; i < p.count; i++) v[n++] = 0xff;
    if (p.carry)
        for (int i = n; i-- > 0; ) if (++v[i]) break;
    return n;
}

static int written(const lc3_bits_t *bits, const uint8_t *buffer, uint8_t *v)
{
    int n = (int)(bits->buffer.p_fw - bits->buffer.start);
    for (int i = 0; i < n; i++) v[i] = buffer[i];
    int k = pending_bytes((struct pending){ bits->ac.cache, bits->ac.carry_count, 0 }, v + n) + n;
    if (bits->ac.carry)
        for (int i = k; i-- > 0; ) if (++v[i]) break;
    return k;
}

static void put_at(lc3_bits_t *bits, uint8_t *buffer, struct pending p)
{
    lc3_setup_bits(bits, LC3_BITS_MODE_WRITE, buffer, LEN);
    if (p.cache >= 0) { buffer[0] = 0x12; bits->buffer.p_fw = buffer + 1; }
    bits->ac.cache = p.cache; bits->ac.carry = p.carry; bits->ac.carry_count = p.count;
}

static unsigned pick_range(unsigned h, unsigned freq, int shifts)
{
    /* range of the coder, so that the symbol needs that many shifts, 0 when impossible */
    unsigned lo = 64, hi = 16383;
    if (shifts == 0) lo = (0x10000 + freq - 1) / freq;
    else if (shifts == 1) { hi = 0xffff / freq; lo = (0x100 + freq - 1) / freq; }
    else hi = 0xff / freq;
    if (lo < 64) lo = 64;
    if (hi > 16383) hi = 16383;
    if (lo > hi) return 0;
    unsigned r = h % 4 == 0 ? lo : h % 4 == 1 ? hi : lo + h / 4 % (hi - lo + 1);
    return r << 10 | (h % 3 ? h >> 8 & 0x3ff : h & 1 ? 0x3ff : 0);
}

static void put_one(const struct lc3_ac_model *m, int s, unsigned h, int shifts, int cell)
{
    static const int tops[] = { 0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x180, 0x1fe };
    unsigned cum = m->s[s].low, freq = m->s[s].range;
    unsigned range = pick_range(h, freq, shifts);
    if (!range) return;
    unsigned r = range >> 10;
    int add = r * cum;

    /* interval of the result, before it is shifted */
    int top = tops[cell], x0 = top << 16, x1 = x0 | 0xffff;
    if (shifts == 2) { x0 |= (h >> 3 & 0xff) << 8; if (h & 4) x0 |= 0xff00; x1 = x0 | 0xff; }
    int lo = x0 - add, hi = x1 - add;
    if (lo < 0) lo = 0;
    if (hi > 0xffffff) hi = 0xffffff;
    if (lo > hi) return;
    x0 = lo + add, x1 = hi + add;

    struct pending p = { (int)(h >> 5 & 0xff) % 0xff, (int)(h >> 13 & 3), 0 };
    if ((h >> 15 & 7) == 0) p.cache = -1, p.count &= 1;
    if ((h >> 18 & 3) == 0) p.cache = 0xfe;
    if (top >= 0x100 && p.cache < 0) p.cache = 0;
    if (top < 0x100 && (h >> 20 & 1) && p.cache >= 0) p.carry = 1;

    lc3_bits_t bits;
    uint8_t *buffer = ai_bytes(LEN), before[LEN + 8], after[LEN + 8];
    put_at(&bits, buffer, p);
    ai_rel(&bits);
    bits.ac.range = range;
    int low = ai_int(lo, hi);
    bits.ac.low = low;

    /* expected bytes: those pending, the carry, and the bytes shifted out */
    int n = written(&bits, buffer, before);
    if (top >= 0x100)
        for (int i = n; i-- > 0; ) if (++before[i]) break;
    if (shifts > 0) before[n++] = x0 >> 16;
    if (shifts > 1) before[n++] = x0 >> 8;

    lc3_put_symbol(&bits, m, s);

    int k = written(&bits, buffer, after);
    ai_assert(k == n, "[lossless] count of bytes after a symbol");
    for (int i = 0; i < n; i++)
        ai_assert(after[i] == before[i], "[lossless] byte of the arithmetic coder, carry included");
    ai_assert(bits.ac.range == r * freq << 8 * shifts, "[lossless] range after a symbol");
    if (shifts == 0)
        ai_assert(bits.ac.low == (unsigned)low + (add - (top >= 0x100 ? 1 << 24 : 0)), "[lossless] low after a symbol");
    else {
        ai_assert(bits.ac.low >= ((unsigned)x0 << 8 * shifts & 0xffffff), "[lossless] low after a symbol");
        ai_assert(bits.ac.low <= ((unsigned)x1 << 8 * shifts & 0xffffff), "[lossless] low after a symbol");
    }
}

static void get_one(const struct lc3_ac_model *m, int s, unsigned h, int shifts)
{
    unsigned cum = m->s[s].low, freq = m->s[s].range;
    unsigned range = pick_range(h, freq, shifts);
    if (!range) return;
    unsigned r = range >> 10, add = r * cum, n = r * freq;

    lc3_bits_t bits;
    uint8_t *buffer = ai_bytes(LEN);
    buffer[3] = h >> 4, buffer[4] = h >> 12;
    lc3_setup_bits(&bits, LC3_BITS_MODE_READ, buffer, LEN);
    ai_rel(&bits);
    bits.ac.range = range;
    int low = ai_int(add, add + n - 1);
    bits.ac.low = low;
    unsigned v = lc3_get_symbol(&bits, m);
    ai_assert(v == (unsigned)s, "[lossless] symbol read");
    ai_assert(bits.ac.range == n << 8 * shifts, "[lossless] range after a symbol read");
    ai_assert(bits.buffer.p_fw == buffer + 3 + shifts, "[lossless] bytes read for a symbol");
    ai_assert(!bits.ac.error && lc3_check_bits(&bits) == 0, "[lossless] symbol read without error");
    if (shifts == 0)
        ai_assert(bits.ac.low == (unsigned)low - add, "[lossless] low after a symbol read");
    else {
        unsigned t = shifts == 1 ? buffer[3] : buffer[3] << 8 | buffer[4];
        ai_assert(bits.ac.low >= t && bits.ac.low <= ((n - 1) << 8 * shifts | t), "[lossless] low after a symbol read");
    }
}

static void symbols(const struct lc3_ac_model *m, unsigned h)
{
    for (int s = 0; s < 17; s++) {
        if (m->s[s].range == 0 || m->s[s].low >= 1024) continue;
        for (int shifts = 0; shifts < 3; shifts++) {
            for (int c = 0; c < 10; c++)
                put_one(m, s, hash(h + s * 64 + c), shifts, c);
            for (int c = 0; c < 2; c++)
                get_one(m, s, hash(h + s * 64 + 32 + c), shifts);
        }
    }
}

void h_ac_symbols(int part, int k, int seed)
{
    if (part == 0) symbols(lc3_tns_order_models + k, 4096 * seed + k);
    if (part == 1) symbols(lc3_tns_coeffs_models + k, 4096 * seed + 101 * k);
    if (part == 2) symbols(lc3_spectrum_models + k, 4096 * seed + 10007 * k);
}

/* Start of the reader, bytes shifted in and out: by the origin of the bits */
void h_ac_bytes(void)
{
    struct lc3_ac_model first = { { { 0, 1 }, { 1, 1023 } } };
    for (int i = 2; i < 17; i++) first.s[i] = (struct lc3_ac_symbol){ 1024, 0 };
    unsigned x = ai_bits(8), y = ai_bits(8), z = ai_bits(8), u = ai_bits(8), v = ai_bits(8);
    uint8_t *buffer = ai_bytes(LEN);
    buffer[0] = x, buffer[1] = y, buffer[2] = z, buffer[3] = u, buffer[4] = v;

    lc3_bits_t bits;
    lc3_setup_bits(&bits, LC3_BITS_MODE_READ, buffer, LEN);
    ai_assert(bits.ac.low == (x << 16 | y << 8 | z), "[lossless] first bytes read");
    ai_assert(bits.ac.range == 0xffffff, "[lossless] range at start");

    bits.ac.low = x, bits.ac.range = 0x123 << 10;
    ai_assert(lc3_get_symbol(&bits, &first) == 0, "[lossless] symbol read");
    ai_assert(bits.ac.low == (x << 8 | u), "[lossless] byte shifted in");
    bits.ac.low = x & 0x3f, bits.ac.range = 0x45 << 10;
    ai_assert(lc3_get_symbol(&bits, &first) == 0, "[lossless] symbol read");
    ai_assert(bits.buffer.p_fw == buffer + 6, "[lossless] bytes read for a symbol");

    /* after the end of the frame, zeros */
    lc3_setup_bits(&bits, LC3_BITS_MODE_READ, buffer, LEN);
    bits.buffer.p_fw = buffer + LEN;
    bits.ac.low = x, bits.ac.range = 0x123 << 10;
    ai_assert(lc3_get_symbol(&bits, &first) == 0, "[lossless] symbol read");
    ai_assert(bits.ac.low == x << 8, "[lossless] zero shifted in after the end");

    /* out of the range of the models */
    for (unsigned r = 64; r < 16384; r += 37) {
        lc3_setup_bits(&bits, LC3_BITS_MODE_READ, buffer, LEN);
        bits.ac.range = r << 10 | (r & 0x3ff), bits.ac.low = ai_int(r << 10, 0xffffff);
        lc3_get_symbol(&bits, &first);
        ai_assert(lc3_check_bits(&bits) == -1, "[lossless] value that no symbol codes is an error");
        ai_assert(bits.ac.low < bits.ac.range, "[lossless] low under the range after an error");
    }

    for (int top = 0; top < 256; top++) {
        lc3_setup_bits(&bits, LC3_BITS_MODE_WRITE, buffer, LEN);
        bits.ac.low = top << 16 | y << 8 | z, bits.ac.range = 0x123 << 10;
        lc3_put_symbol(&bits, &first, 0);
        ai_assert(bits.ac.low == (y << 16 | z << 8), "[lossless] byte shifted out");
    }
}

/* Termination: whatever the bits that follow, the value is in the last interval */
void h_ac_end(int bits_range, int seed)
{
    static const int tops[] = { 0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff };
    for (int k = 0; k < 120; k++) {
        unsigned h = hash(4096 * seed + 128 * bits_range + k);
        struct pending p = { (int)(h >> 5 & 0xff) % 0xff, (int)(h >> 13 & 3), 0 };
        if ((h >> 15 & 7) == 0) p.cache = -1;
        if ((h >> 18 & 3) == 0) p.cache = 0xfe;
        if ((h >> 20 & 3) == 0 && p.cache >= 0) p.carry = 1;
        /* low in the half of a step of the rounding made by the termination */
        int step = 1 << (bits_range - 1), range = step;
        range += h % 3 == 0 ? 0 : h % 3 == 1 ? step - 1 : (int)(h >> 3) % step;
        int low = (tops[k % 6] << 16 | (k & 8 ? 0xffff : (h >> 11 & 0xffff))) / step * step + (k & 1 ? step / 2 : 0) + 1;
        int high = low + step / 2 - 1;
        if (low == 1 && (k & 16)) low = high = 0;
        if (high > 0xffffff) high = 0xffffff;
        /* the first symbol leaves the end of the range, a carry is not followed by another one */
        if (p.cache < 0) p.count &= 1;
        int end = p.cache < 0 ? (p.count ? 0xfc0000 : 0xfffc00) : 0x1000000;
        if ((p.cache < 0 || p.carry) && high + range > end) {
            high = end - range;
            if (high < low) p.carry = 0, p.cache = 0x35, high = low;
        }
        for (int ones = 0; ones < 2; ones++) {
            lc3_bits_t w, r;
            uint8_t *buffer = ai_bytes(LEN), before[LEN + 8];
            put_at(&w, buffer, p);
            ai_partition(2);
            ai_rel(&w);
            ai_keep(&w), ai_keep(buffer);
            int v0 = ai_int(low, high);
            w.ac.low = v0;
            w.ac.range = range;
            int n = written(&w, buffer, before);
            int left = lc3_get_bits_left(&w);
            ai_assert(left == 8 * (LEN - n) - (26 - bits_range), "[lossless] bits left, symbols written");
            for (int i = left; i > 0; i -= 16)
                lc3_put_bits(&w, ones ? (1u << (i < 16 ? i : 16)) - 1 : 0, i < 16 ? i : 16);
            lc3_flush_bits(&w);

            /* value, from the bytes pending before */
            int carry = 0;
            uint8_t more[LEN + 8];
            for (int i = 0; i < n; i++) more[i] = before[i];
            for (int i = n; i-- > 0; ) if (++more[i]) break;
            int same = 1, plus = 1;
            for (int i = 0; i < n; i++) {
                int b = buffer[i];
                if (b != before[i]) same = 0;
                if (b != more[i]) plus = 0;
            }
            if (n == 0) plus = 0;
            ai_assert(same || plus, "[lossless] bytes pending at the end");
            carry = !same;
            int v = (carry << 24) + (buffer[n] << 16 | buffer[n + 1] << 8 | buffer[n + 2]);
            ai_assert(v >= v0, "[lossless] value of the end, under the interval");
            ai_assert(v < v0 + range, "[lossless] value of the end, over the interval");

            /* fields of a full frame are not changed */
            lc3_setup_bits(&r, LC3_BITS_MODE_READ, buffer, LEN);
            for (int i = 0; i < left; i++)
                ai_assert(lc3_get_bit(&r) == ones, "[lossless] field changed by the end of the symbols");
            ai_partition(0);
            ai_merge();
        }
    }
}

/* Bits left, at the same point of the writer and the reader */
void h_ac_left(int bits_range)
{
    for (int n = 0; n <= 40; n += 4)
        for (int count = 0; count < 3; count++)
            for (int cache = -1; cache < 2; cache++)
                for (int out = 0; out < 2; out++) {
                    if (cache < 0 && out) continue;
                    lc3_bits_t w, r;
                    uint8_t *buffer = ai_bytes(LEN);
                    int range = 1 << (bits_range - 1);
                    lc3_setup_bits(&w, LC3_BITS_MODE_WRITE, buffer, LEN);
                    w.buffer.p_fw += 2 * out;
                    w.ac.cache = cache, w.ac.carry_count = count;
                    w.ac.low = ai_int(0, 0xffffff), w.ac.range = ai_int(range, 2 * range - 1);
                    lc3_setup_bits(&r, LC3_BITS_MODE_READ, buffer, LEN);
                    r.ac.low = ai_int(0, 0xffffff), r.ac.range = ai_int(range, 2 * range - 1);
                    r.buffer.p_fw += 2 * out + (cache >= 0) + count;
                    for (int i = 0; i < n; i++) lc3_put_bits(&w, i & 1, 1 + (i & 3)), lc3_get_bits(&r, 1 + (i & 3));
                    ai_assert(lc3_get_bits_left(&w) == lc3_get_bits_left(&r), "[lossless] bits left, writer and reader");
                }
}
