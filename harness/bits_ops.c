/* The bitstream layer on its own */
#include "ai.h"
#include <bits.h>
#include <tables.h>

/* Bitstream layer, on a buffer of any size: every sequence of operations
 * stays in the buffer, and meets the contracts of contracts.c */
static int check_left(const lc3_bits_t *bits, int len)
{
    int n = lc3_get_bits_left(bits);
    ai_assert(n >= 0 && n <= 8 * (len + 7), "number of bits left");
    int c = lc3_check_bits(bits);
    ai_assert(c == 0 || c == -1, "state of the bitstream");
    return n;
}

static struct lc3_ac_model any_model(void)
{
    struct lc3_ac_model m;
    for (int i = 0; i < 17; i++)
        m.s[i].low = ai_int(0, 1024), m.s[i].range = ai_int(1, 1024);
    return m;
}

void h_bits_read(int len)
{
    lc3_bits_t bits;
    struct lc3_ac_model m = any_model();
    uint8_t *buffer = ai_bytes(len);
    ai_readonly(buffer);
    ai_rel(&bits);
    lc3_setup_bits(&bits, LC3_BITS_MODE_READ, buffer, len);
    while (ai_history()) {
        check_left(&bits, len);
        int op = ai_split(ai_int(0, 31));
        ai_partition(2);
        if (op == 0) {
            unsigned s = lc3_get_symbol(&bits, &m);
            ai_assert(s <= 16, "symbol");
        } else {
            unsigned v = lc3_get_bits(&bits, op);
                    ai_assert(v <= (1u << op) - 1, "value read on n bits");
        }
        ai_partition(0);
        ai_merge();
    }
}

void h_bits_write(int len)
{
    lc3_bits_t bits;
    struct lc3_ac_model m = any_model();
    uint8_t *buffer = ai_bytes(len);
    ai_rel(&bits);
    lc3_setup_bits(&bits, LC3_BITS_MODE_WRITE, buffer, len);
    ai_unroll(50);
    while (ai_history()) {
        /* a frame holds less than 2^20 symbols */
        ai_assume(bits.ac.carry_count < (1 << 20));
        check_left(&bits, len);
        int op = ai_split(ai_int(0, 32));
        if (op == 0) lc3_put_symbol(&bits, &m, ai_int(0, 16));
        else {
            ai_partition(2);
            lc3_put_bits(&bits, ai_uint(), op);
            ai_partition(0);
        }
        ai_merge();
    }
    ai_assume(bits.ac.carry_count < (1 << 20));
    ai_partition(2);
    lc3_flush_bits(&bits);
}

/* Symbol search: only symbols of the model are found */
static void search(const struct lc3_ac_model *models, int n)
{
    int k = ai_split(ai_int(0, n - 1));
    lc3_bits_t bits;
    uint8_t *buffer = ai_bytes(LC3_MIN_FRAME_BYTES);
    lc3_setup_bits(&bits, LC3_BITS_MODE_READ, buffer, LC3_MIN_FRAME_BYTES);
    ai_partition(2);
    unsigned s = lc3_get_symbol(&bits, models + k);
    ai_assert(s <= 16, "symbol");
    ai_assert(models[k].s[s].low < 1024 && models[k].s[s].range >= 1,
        "symbol read that its model does not code");
    ai_partition(0);
    ai_merge();
}

void h_bits_search(int part)
{
    if (part == 0) search(lc3_tns_order_models, 2);
    if (part == 1) search(lc3_tns_coeffs_models, 8);
    if (part == 2) search(lc3_spectrum_models, 64);
}
