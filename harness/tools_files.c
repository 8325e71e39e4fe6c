/* The containers: what is written is read back, any content is read safely */
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "ai.h"
#include <lc3.h>
#include "lc3bin.h"
#include "wave.h"

static char h_file;
#define FP ((FILE *)&h_file)
static struct { char *data; long size, pos; bool any, eof, err; int nbytes, reads; int fmt_size, skip, seen; } f;

size_t fwrite(const void *p, size_t size, size_t n, FILE *fp)
{
    ai_assert(fp == FP, "[tools] file written");
    ai_defined(p, size * n, "[tools] bytes written are defined");
    memcpy(f.data + f.size, p, size * n);
    f.size += size * n;
    return n;
}
static size_t failed(void) { f.eof = ai_splitall(ai_int(0, 1)); f.err = !f.eof; return 0; }

/* A wave file, with a format chunk of `fmt_size` bytes and a chunk skipped */
static size_t read_wave(void *p, size_t size, size_t n)
{
    uint32_t *v = p; long at = f.pos;
    f.pos += size * n;
    if (!at) {
        ai_assert(size == 12 && n == 1, "[tools] wave file header");
        v[0] = 0x46464952; v[1] = ai_uint(); v[2] = 0x45564157; return 1;
    }
    if (at == 12) {
        ai_assert(size == 24 && n == 1, "[tools] wave format");
        v[0] = 0x20746d66; v[1] = f.fmt_size; v[2] = 1 | (2 << 16); v[3] = 48000; v[4] = 48000 * 4; v[5] = 4 | (16 << 16); return 1;
    }
    ai_assert(size == 8 && n == 1, "[tools] wave chunk");
    if (f.skip >= 0 && at == 20 + f.fmt_size) { v[0] = 0x5453494c; v[1] = f.skip; return 1; }
    ai_assert(at == 20 + f.fmt_size + (f.skip >= 0 ? 8 + f.skip : 0), "[tools] position of the chunk read");
    v[0] = 0x61746164; v[1] = 4000; f.seen = 1;
    return 1;
}
size_t fread(void *p, size_t size, size_t n, FILE *fp)
{
    ai_assert(fp == FP, "[tools] file read");
    if (!size || !n) return 0;
    if (f.fmt_size) return read_wave(p, size, n);
    if (f.any) {
        if (f.nbytes >= 0 && !f.reads++) {
            ai_assert(size * n == 2, "[tools] size of the block");
            if (ai_bool()) return failed();
            *(uint16_t *)p = f.nbytes; return n;
        }
        if (ai_bool()) { ai_undef(p, size * n); return failed(); }
        ai_any(p, size * n);
        if (size == 24) {               // channels and size of a frame, of a wave file: by sign
            uint16_t *v = p;
            int k = ai_splitall(ai_int(0, 2)), l = ai_splitall(ai_int(0, 2));
            v[5] = k == 0 ? 0 : k == 1 ? ai_int(1, 32767) : ai_int(32768, 65535);
            v[10] = l == 0 ? 0 : l == 1 ? ai_int(1, 32767) : ai_int(32768, 65535);
        }
        return n;
    }
    if (f.pos + (long)(size * n) > f.size) { f.eof = true; return 0; }
    memcpy(p, f.data + f.pos, size * n);
    f.pos += size * n;
    return n;
}
int fseek(FILE *fp, long off, int whence)
{
    f.pos = whence == SEEK_SET ? off : whence == SEEK_CUR ? f.pos + off : 0;
    f.eof = false;
    return 0;
}
int feof(FILE *fp) { return f.eof; }
int ferror(FILE *fp) { return f.err; }

static int value(int bits) { return (int)ai_bits(bits); }

void h_bin_header(int hrmode, int dt_us, int sr_hz, int bitrate, int nch)
{
    f.data = ai_object(64);
    int n = value(31);
    lc3bin_write_header(FP, dt_us, sr_hz, hrmode, bitrate, nch, n);
    int dt2, sr2, nch2, n2; bool hr2;
    int r = lc3bin_read_header(FP, &dt2, &sr2, &hr2, &nch2, &n2);
    ai_assert(r == 0, "[tools] header written is accepted");
    ai_assert(dt2 == dt_us, "[tools] frame duration read back");
    ai_assert(sr2 == sr_hz, "[tools] samplerate read back");
    ai_assert(hr2 == hrmode, "[tools] mode read back");
    ai_assert(nch2 == nch, "[tools] channels read back");
    ai_assert(n2 == n, "[tools] samples read back");
    ai_assert(f.pos == f.size, "[tools] position after the header");
    ai_reach("[reach] header");
}
void h_bin_data(int n1, int n2, int nch)
{
    f.data = ai_object(4096);
    uint8_t *a = ai_object(4096), *b = ai_object(4096);
    for (int i = 0; i < n1 + n2; i++) a[i] = ai_bits(8);
    lc3bin_write_data(FP, a, n1);
    lc3bin_write_data(FP, a + n1, n2);
    ai_assert(lc3bin_read_data(FP, nch, b) == n1, "[tools] size of the block read back");
    for (int i = 0; i < n1; i++) ai_assert(a[i] == b[i], "[tools] block read back");
    ai_assert(lc3bin_read_data(FP, nch, b) == n2, "[tools] size of the block read back");
    for (int i = 0; i < n2; i++) ai_assert(a[n1 + i] == b[i], "[tools] block read back");
    ai_assert(lc3bin_read_data(FP, nch, b) < 0, "[tools] end of the blocks");
    ai_reach("[reach] blocks");
}
/* Any content and outcome */
void h_bin_any(void)
{
    f.any = true; f.nbytes = -1;
    int dt, sr, nch, n; bool hr;
    if (lc3bin_read_header(FP, &dt, &sr, &hr, &nch, &n) < 0) return;
    ai_assert(dt >= 0 && sr >= 0 && nch >= 0, "[tools] values of the header");
    ai_defined(&n, sizeof(n), "[tools] number of samples");
    ai_defined(&hr, sizeof(hr), "[tools] mode");
    ai_reach("[reach] any header");
}
void h_bin_block(int nbytes, int nch)
{
    f.any = true; f.nbytes = nbytes;
    uint8_t *b = ai_object(nch * LC3_HR_MAX_FRAME_BYTES);
    ai_partition(1);
    int r = lc3bin_read_data(FP, nch, b);
    if (r <= 0) return;
    ai_assert(r == nbytes, "[tools] size of the block");
    ai_defined(b, nbytes, "[tools] content of the block");
}
void h_wave_header(int bits, int bytes, int sr_hz, int nch, int n)
{
    f.data = ai_object(64);
    wave_write_header(FP, bits, bytes, sr_hz, nch, n);
    int bits2, bytes2, sr2, nch2, n2;
    ai_assert(wave_read_header(FP, &bits2, &bytes2, &sr2, &nch2, &n2) == 0, "[tools] header written is accepted");
    ai_assert(bits2 == bits, "[tools] bits by sample read back");
    ai_assert(bytes2 == bytes, "[tools] bytes by sample read back");
    ai_assert(sr2 == sr_hz, "[tools] samplerate read back");
    ai_assert(nch2 == nch, "[tools] channels read back");
    ai_assert(n2 == n, "[tools] samples read back");
    ai_assert(f.pos == f.size, "[tools] position after the header");
    ai_assert(*(uint32_t *)(f.data + 4) == 36 + (uint32_t)n * nch * bytes, "[tools] size of the wave file");
    ai_reach("[reach] wave header");
}
void h_wave_skip(int fmt_size, int skip)
{
    f.fmt_size = fmt_size; f.skip = skip;
    int bits, bytes, sr, nch, n;
    int r = wave_read_header(FP, &bits, &bytes, &sr, &nch, &n);
    ai_assert(r == 0 && f.seen, "[tools] wave file accepted");
    ai_assert(bits == 16 && bytes == 2 && sr == 48000 && nch == 2 && n == 1000, "[tools] wave format read");
    ai_assert(f.pos == 28 + fmt_size + (skip >= 0 ? 8 + skip : 0), "[tools] position of the samples");
    ai_reach("[reach] wave chunks");
}
void h_wave_any(void)
{
    ai_partition(1);
    f.any = true; f.nbytes = -1;
    int bits, bytes, sr, nch, n;
    if (wave_read_header(FP, &bits, &bytes, &sr, &nch, &n) < 0) return;
    ai_defined(&bits, 4, "[tools] bits by sample"); ai_defined(&n, 4, "[tools] number of samples");
    ai_assert(nch > 0 && bytes >= 0, "[tools] values of the header");
    ai_reach("[reach] any wave");
}
void h_wave_pcm(int bytes, int nch, int off, int count)
{
    f.data = ai_object(16384);
    uint8_t *a = ai_object(8192), *b = ai_object(8192);
    for (int i = 0; i < (off + count) * nch * bytes; i++) a[i] = ai_bits(8);
    wave_write_pcm(FP, bytes, a, nch, off, count);
    ai_assert(wave_read_pcm(FP, bytes, nch, count, b) == count, "[tools] samples read back");
    for (int i = 0; i < count * nch * bytes; i++) ai_assert(b[i] == a[off * nch * bytes + i], "[tools] samples read back");
    ai_reach("[reach] samples");
}
