/* Environment of the command line tools: files of any content, any outcome of
 * the input / output, and the codec replaced by what it requires of its
 * parameters and what it does to its memory (established by the other checks) */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <time.h>
#include <lc3.h>
#include "ai.h"

static struct {
    int hrmode, dt_us, sr_hz, sr_opt, sr_pcm_hz, nch, nsamples;     // configuration
    int sbytes, fsamples, nmin, nmax;
    int fine;                       // each sample is followed
    long size[4]; int nmem, nomem, nset; bool set[4];               // states
    bool in_eof, in_err;
    char *data; int block, ncall, offset, nblocks;                  // block of frames
    long total;                     // samples written
    int bitrate; bool header;
    int bits, dt_opt;
    bool refused;                   // parameters not accepted
} w;

static char h_in, h_out, h_err, h_pool[4][16];
FILE *stdin = (FILE *)&h_in, *stdout = (FILE *)&h_out, *stderr = (FILE *)&h_err;

static int h_errno;
int *__errno_location(void) { return &h_errno; }
char *strerror(int e) { return (char *)"error"; }
int fflush(FILE *f) { return 0; }
int fclose(FILE *f) { return 0; }
int fprintf(FILE *f, const char *format, ...) { return 0; }
int vfprintf(FILE *f, const char *format, va_list args) { return 0; }
void exit(int s) { for (;;) ai_assume(false); }
int clock_gettime(clockid_t c, struct timespec *t)
{ t->tv_sec = ai_long(0, 1l << 40); t->tv_nsec = ai_long(0, 999999999); return 0; }
FILE *fopen(const char *name, const char *mode)
{ return ai_bool() ? NULL : mode[0] == 'r' ? stdin : stdout; }
int feof(FILE *f) { return w.in_eof; }
int ferror(FILE *f) { return w.in_err; }

/* Memory of the codec states */
void *malloc(size_t n)
{
    ai_assert(w.nmem < w.nch, "[tools] a state by channel");
    if (w.nmem == w.nomem) return NULL;
    w.size[w.nmem] = n;
    return h_pool[w.nmem++];
}
void free(void *p)
{
    for (int k = 0; k < w.nch; k++)
        if (p == h_pool[k]) { ai_assert(w.set[k], "[tools] state released once"); w.set[k] = false; return; }
    ai_assert(false, "[tools] memory released");
}
static int setup(bool hrmode, int dt_us, int sr_hz, int sr_pcm_hz, void *mem, long size, const char *x)
{
    if (!mem || !size) return -1;
    int k = w.nset;
    ai_assert(mem == h_pool[k], "[tools] memory of the state");
    ai_assert(w.size[k] >= size, "[tools] size of the memory of the state");
    ai_assert(hrmode == w.hrmode, "[tools] mode of the codec");
    ai_assert(dt_us == w.dt_us, "[tools] frame duration of the codec");
    ai_assert(sr_hz == w.sr_hz, "[tools] samplerate of the codec");
    ai_assert((sr_pcm_hz > 0 ? sr_pcm_hz : sr_hz) == w.sr_pcm_hz, "[tools] samplerate of the samples");
    w.set[k] = true; w.nset++;
    return k;
}
static int state(const void *s)
{
    for (int k = 0; k < w.nch; k++)
        if (s == h_pool[k]) { ai_assert(w.set[k], "[tools] state not set up"); return k; }
    ai_assert(false, "[tools] state given");
    return 0;
}
/* The frame of a channel, in a block */
static void frame(int k, const void *data, int nbytes, int fmt, int stride)
{
    ai_assert(w.nch == 1 || k == w.ncall % 2, "[tools] channel of the frame");
    ai_assert(nbytes == w.block / w.nch + (k < w.block % w.nch), "[tools] size of the frame");
    ai_assert((const char *)data == w.data + w.offset, "[tools] position of the frame in the block");
    ai_assert(fmt == (w.sbytes == 2 ? LC3_PCM_FORMAT_S16 : w.sbytes == 3 ? LC3_PCM_FORMAT_S24_3LE : LC3_PCM_FORMAT_S24),
        "[tools] format of the samples");
    ai_assert(stride == w.nch, "[tools] samples of the channels interleaved");
    w.offset += nbytes; w.ncall++;
}
static int sbytes(int fmt)
{ return fmt == LC3_PCM_FORMAT_S16 ? 2 : fmt == LC3_PCM_FORMAT_S24_3LE ? 3 : 4; }
