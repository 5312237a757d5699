/* Force-included into every jom source: the names of the Microsoft C runtime and of strsafe.h that jom (or a
   reasonable change to jom) uses.  Everything ends in the simulator. */
#ifndef SIM_MSVC_NAMES_H
#define SIM_MSVC_NAMES_H
#ifdef __cplusplus
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <string>

#define _O_BINARY 0x8000
#define _O_TEXT   0x4000
#define O_BINARY_SIM 0
extern "C" {
int sim_crt_fileno(FILE *f);
int sim_crt_setmode(int fd, int mode);
FILE *sim_crt_wfopen(const wchar_t *name, const wchar_t *mode);
FILE *sim_crt_wfreopen(const wchar_t *name, const wchar_t *mode, FILE *f);
int sim_crt_rand_s(unsigned int *value);
int sim_crt_write(int fd, const void *p, unsigned n);
}
#define _fileno(f) sim_crt_fileno(f)
#define _setmode(fd, m) sim_crt_setmode(fd, m)
#define _wfopen sim_crt_wfopen
#define _wfreopen sim_crt_wfreopen
#define rand_s sim_crt_rand_s
#define _write sim_crt_write

static inline wchar_t *_wcsdup(const wchar_t *s)
{
    size_t n = 0;
    while (s[n])
        ++n;
    wchar_t *r = static_cast<wchar_t *>(malloc((n + 1) * sizeof(wchar_t)));
    return r ? static_cast<wchar_t *>(memcpy(r, s, (n + 1) * sizeof(wchar_t))) : r;
}
static inline int sim_wformat(wchar_t *buf, size_t size, const wchar_t *fmt, ...)
{
    /* %d %u %x %X %s %lu %c and width/zero flags are enough for jom */
    va_list ap; va_start(ap, fmt);
    size_t o = 0;
    auto put = [&](wchar_t c) { if (o + 1 < size) buf[o++] = c; };
    for (; *fmt; ++fmt) {
        if (*fmt != L'%') { put(*fmt); continue; }
        char spec[32]; int k = 0; spec[k++] = '%';
        ++fmt;
        int longs = 0;
        while (*fmt && k < 20 && ((*fmt >= L'0' && *fmt <= L'9') || *fmt == L'.' || *fmt == L'-' || *fmt == L'+' || *fmt == L'#' || *fmt == L'l' || *fmt == L'I')) {
            if (*fmt == L'l') longs++;
            else if (*fmt == L'I') { longs = 2; if (fmt[1] == L'6' && fmt[2] == L'4') fmt += 2; }
            else spec[k++] = char(*fmt);
            ++fmt;
        }
        char out[128]; out[0] = 0;
        switch (*fmt) {
        case L'd': case L'i': case L'u': case L'x': case L'X':
            if (longs > 1) { spec[k++] = 'l'; spec[k++] = 'l'; spec[k++] = char(*fmt); spec[k] = 0; snprintf(out, sizeof out, spec, va_arg(ap, long long)); }
            else { spec[k++] = char(*fmt); spec[k] = 0; snprintf(out, sizeof out, spec, va_arg(ap, int)); }
            for (char *p = out; *p; ++p) put(wchar_t(*p));
            break;
        case L'p':
            snprintf(out, sizeof out, "%p", va_arg(ap, void *));
            for (char *p = out; *p; ++p) put(wchar_t(*p));
            break;
        case L'c': put(wchar_t(va_arg(ap, int))); break;
        case L's': { const wchar_t *s = va_arg(ap, const wchar_t *); while (s && *s) put(*s++); break; }
        case L'%': put(L'%'); break;
        default: break;
        }
    }
    va_end(ap);
    if (size) buf[o] = 0;
    return int(o);
}
#define swprintf_s sim_wformat
#define StringCchPrintf(buf, size, ...) (sim_wformat(buf, size, __VA_ARGS__), S_OK)
#define StringCchPrintfW(buf, size, ...) (sim_wformat(buf, size, __VA_ARGS__), S_OK)
#endif
#endif
