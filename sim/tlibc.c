/* The part of the C library that touches the outside world, for tools that run as simulated
   processes. Linked into every tool's shared object; the tool's own objects have their libc
   names redirected to the sim_ names below. All state lives in this object's data, in the
   process's heap arena or on its stack, so that fork() can copy it. Everything ends in the
   k_ calls of the simulated kernel. Behaviour follows glibc: 4096 byte buffers, stderr
   unbuffered, failed flushes lose the buffer, fclose reports only the last flush and close. */
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <stdint.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <signal.h>
int vsnprintf(char*, size_t, const char*, va_list);
int vsscanf(const char*, const char*, va_list);

long k_open(const char*, int, int); long k_close(int); long k_read(int, void*, size_t); long k_write(int, const void*, size_t);
long k_lseek(int, long, int); long k_unlink(const char*); long k_rename(const char*, const char*); long k_mkdir(const char*, int); long k_rmdir(const char*);
long k_stat(const char*, long*); long k_fstat(int, long*); long k_access(const char*, int); long k_dup(int); long k_dup2(int, int); long k_ftruncate(int, long); long k_fsync(int);
long k_fork(void); long k_exec(const char*, char* const*); void k_exit(int) __attribute__((noreturn)); long k_wait(int, int*, int); long k_kill(int, int);
long k_getpid(void); long k_getppid(void); long k_time(long*); long k_signal(int, void*, int); long k_sigmask(int, unsigned long, unsigned long*);
long k_getcwd(char*, size_t); long k_chdir(const char*); const char* k_getenv(const char*); int k_alloc(size_t); void k_freed(size_t); long k_isatty(int); long k_pipe(int*);
void k_raise_abort(void) __attribute__((noreturn)); void* k_scratch(size_t);

#define RET(e) do { long r_ = (e); if (r_ < 0) { errno = (int)-r_; return -1; } return r_; } while (0)

/* ------------------------------------------------------------------ memory */
static char *hbase, *hcur, *hend; static unsigned char hpoison; static long hlive, hcount;
typedef struct { size_t n; size_t magic; } Hdr;
void sim_tlibc_init(char* base, size_t size, unsigned char poison) { hbase = hcur = base; hend = base + size; hpoison = poison; }
char* sim_heap_top(void) { return hcur; }
long sim_heap_live(void) { return hcount; }
static Hdr* freelist[24];
#define RED 16 /* guard bytes behind every block */
static int bucket(size_t n) { int b = 0; while (((size_t)32 << b) < n && b < 23) b++; return b; }
static void* raw(size_t n)
{
    int b = bucket(n + RED);
    size_t sz = (size_t)32 << b;
    Hdr* h = freelist[b];
    if (n > ((size_t)32 << 22)) return 0;
    if (h) freelist[b] = *(Hdr**)(h + 1);
    else {
        if ((size_t)(hend - hcur) < sz + sizeof(Hdr)) return 0;
        h = (Hdr*)hcur; hcur += sz + sizeof(Hdr);
    }
    h->n = n; h->magic = 0x51A110C8u + (size_t)b;
    hlive += (long)n; hcount++;
    memset((char*)(h + 1) + n, 0xC5 ^ (int)(n & 15), RED);
    return h + 1;
}
static int smashed(Hdr* h) { unsigned char* e = (unsigned char*)(h + 1) + h->n; int i, c = 0xC5 ^ (int)(h->n & 15); for (i = 0; i < RED; i++) if (e[i] != c) return 1; return 0; }
/* 0: nothing was written behind the end of a block */
static int hsmashed;
int sim_heap_check(void)
{
    char* p = hbase;
    while (p < hcur) {
        Hdr* h = (Hdr*)p; int b = (int)(h->magic & 0xff) - 0xC8;
        if ((h->magic - (size_t)b == 0x51A110C8u || h->magic - (size_t)b == 0xDEAD00C8u) && b >= 0 && b < 24) { if (h->magic - (size_t)b == 0x51A110C8u && smashed(h)) return 1; }
        else return 1;
        p += sizeof(Hdr) + ((size_t)32 << b);
    }
    return hsmashed;
}
void* sim_malloc(size_t n)
{
    void* p;
    if (k_alloc(n)) { errno = ENOMEM; return 0; }
    p = raw(n ? n : 1);
    if (!p) { errno = ENOMEM; return 0; }
    memset(p, hpoison, n < 65536 ? n : 65536);
    return p;
}
void sim_free(void* p)
{
    Hdr* h = (Hdr*)p - 1; int b;
    if (!p) return;
    if ((char*)p < hbase || (char*)p >= hcur || (b = (int)(h->magic - 0x51A110C8u)) < 0 || b > 23) k_raise_abort();
    if (smashed(h)) hsmashed = 1;
    hlive -= (long)h->n; hcount--;
    k_freed(h->n);
    memset(p, hpoison ^ 0xff, h->n < 65536 ? h->n : 65536);
    h->magic = 0xDEAD00C8u + (size_t)b;
    *(Hdr**)(h + 1) = freelist[b]; freelist[b] = h;
}
void* sim_calloc(size_t a, size_t b)
{
    void* p;
    if (b && a > (size_t)-1 / b) { errno = ENOMEM; return 0; }
    if (k_alloc(a * b)) { errno = ENOMEM; return 0; }
    p = raw(a * b ? a * b : 1);
    if (!p) { errno = ENOMEM; return 0; }
    memset(p, 0, a * b);
    return p;
}
void* sim_realloc(void* o, size_t n)
{
    void* p; size_t on;
    if (!o) return sim_malloc(n);
    if (!n) { sim_free(o); return 0; }
    on = ((Hdr*)o - 1)->n;
    if (!(p = sim_malloc(n))) return 0;
    memcpy(p, o, on < n ? on : n);
    sim_free(o);
    return p;
}
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = sim_malloc(n); return p ? memcpy(p, s, n) : 0; }
char* sim_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = sim_malloc(n + 1); if (!p) return 0; memcpy(p, s, n); p[n] = 0; return p; }
void* sim_reallocarray(void* o, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return 0; } return sim_realloc(o, a * b); }

/* ------------------------------------------------------------------ files */
long sim_open(const char* p, int fl, ...) { va_list a; int m; va_start(a, fl); m = va_arg(a, int); va_end(a); RET(k_open(p, fl, m)); }
long sim_creat(const char* p, int m) { RET(k_open(p, O_WRONLY | O_CREAT | O_TRUNC, m)); }
long sim_close(int fd) { RET(k_close(fd)); }
long sim_read(int fd, void* b, size_t n) { RET(k_read(fd, b, n)); }
long sim_write(int fd, const void* b, size_t n) { RET(k_write(fd, b, n)); }
long sim_lseek(int fd, long o, int w) { RET(k_lseek(fd, o, w)); }
int sim_unlink(const char* p) { RET(k_unlink(p)); }
int sim_remove(const char* p) { long r = k_unlink(p); if (r == -EISDIR || r == -EPERM) r = k_rmdir(p); RET(r); }
int sim_rename(const char* a, const char* b) { RET(k_rename(a, b)); }
int sim_mkdir(const char* p, unsigned m) { RET(k_mkdir(p, (int)m)); }
int sim_rmdir(const char* p) { RET(k_rmdir(p)); }
static void fillst(struct stat* st, long* v) { memset(st, 0, sizeof *st); st->st_ino = (ino_t)v[0]; st->st_mode = (mode_t)v[1]; st->st_size = v[2]; st->st_nlink = 1; st->st_mtime = v[3]; st->st_blksize = 4096; }
int sim_stat(const char* p, struct stat* st) { long v[4], r = k_stat(p, v); if (r >= 0) fillst(st, v); RET(r); }
int sim_fstat(int fd, struct stat* st) { long v[4], r = k_fstat(fd, v); if (r >= 0) fillst(st, v); RET(r); }
int sim_access(const char* p, int m) { RET(k_access(p, m)); }
int sim_dup(int fd) { RET(k_dup(fd)); }
int sim_dup2(int a, int b) { RET(k_dup2(a, b)); }
int sim_ftruncate(int fd, long n) { RET(k_ftruncate(fd, n)); }
int sim_fsync(int fd) { RET(k_fsync(fd)); }
void sim_sync(void) {}
int sim_isatty(int fd) { RET(k_isatty(fd)); }
int sim_pipe(int* p) { RET(k_pipe(p)); }
char* sim_getcwd(char* b, size_t n)
{
    long r;
    if (!b) { if (!n) n = 4096; if (!(b = sim_malloc(n))) return 0; }
    r = k_getcwd(b, n);
    if (r < 0) { errno = (int)-r; return 0; }
    return b;
}
int sim_chdir(const char* p) { RET(k_chdir(p)); }
static unsigned um = 022;
unsigned sim_umask(unsigned m) { unsigned o = um; um = m; return o; }
static unsigned long tmpn;
int sim_mkstemps(char* t, int sl)
{
    size_t n = strlen(t); int i, k; unsigned long v;
    for (k = 0; k < 100; k++) {
        long r; v = ((unsigned long)k_getpid() * 7919 + tmpn++ * 31 + (unsigned long)k_time(0)) * 2654435761u;
        for (i = 0; i < 6; i++) { t[n - (size_t)sl - 6 + (size_t)i] = "abcdefghijklmnopqrstuvwxyzABCDEF"[v & 31]; v >>= 5; }
        r = k_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (r != -EEXIST) RET(r);
    }
    errno = EEXIST; return -1;
}
int sim_mkstemp(char* t) { return sim_mkstemps(t, 0); }

/* ------------------------------------------------------------------ stdio */
enum { F_R = 1, F_W = 2, F_EOF = 4, F_ERR = 8, F_LINE = 16, F_UNB = 32, F_APP = 64, F_WROTE = 128, F_OPEN = 256, F_STATIC = 512, F_OWNBUF = 1024, F_HEAPBUF = 2048 };
typedef struct SF { int fd, fl; unsigned char* buf; size_t cap; size_t rp, re, wn; int unget; struct SF* next; } SF;
static SF f0 = { 0, F_R | F_OPEN | F_STATIC, 0, 4096, 0, 0, 0, -1, 0 }, f1 = { 1, F_W | F_OPEN | F_STATIC, 0, 4096, 0, 0, 0, -1, 0 }, f2 = { 2, F_W | F_UNB | F_OPEN | F_STATIC, 0, 4096, 0, 0, 0, -1, 0 };
SF *sim_stdin = &f0, *sim_stdout = &f1, *sim_stderr = &f2;
static SF* flist;
static unsigned char sbuf[3][4096];
static unsigned char* getbuf(SF* f)
{
    if (f->buf) return f->buf;
    if (f->fl & F_STATIC) f->buf = sbuf[f == &f0 ? 0 : f == &f1 ? 1 : 2];
    else { f->buf = raw(f->cap); f->fl |= F_HEAPBUF; hcount--; }
    return f->buf;
}
static int wall(SF* f, const unsigned char* p, size_t n)
{
    while (n) {
        long r = k_write(f->fd, p, n);
        if (r < 0) { errno = (int)-r; f->fl |= F_ERR; return -1; }
        p += r; n -= (size_t)r;
    }
    return 0;
}
static int flush1(SF* f)
{
    size_t n = f->wn;
    if (!n) return 0;
    f->wn = 0;
    return wall(f, f->buf, n);
}
static int discard(SF* f)
{
    if (f->rp < f->re) { k_lseek(f->fd, -(long)(f->re - f->rp), 1); }
    f->rp = f->re = 0; f->unget = -1;
    return 0;
}
int sim_fflush(SF* f)
{
    int r = 0;
    if (!f) { SF* g; if (flush1(&f1)) r = -1; if (flush1(&f2)) r = -1; for (g = flist; g; g = g->next) if (g->fl & F_OPEN) if (flush1(g)) r = -1; return r; }
    if (f->re) discard(f);
    return flush1(f);
}
static size_t fput(SF* f, const void* b, size_t n)
{
    const unsigned char* p = b; size_t left = n;
    if (!(f->fl & F_OPEN) || !(f->fl & F_W)) { f->fl |= F_ERR; errno = EBADF; return 0; }
    if (!n) return 0;
    if (f->re) discard(f);
    if (f->fl & F_UNB) return wall(f, p, n) ? 0 : n;
    if (!getbuf(f)) return 0;
    while (left) {
        size_t k = f->cap - f->wn;
        if (!f->wn && left >= f->cap) { size_t d = left - left % f->cap; if (wall(f, p, d)) return n - left; p += d; left -= d; continue; }
        if (k > left) k = left;
        memcpy(f->buf + f->wn, p, k); f->wn += k; p += k; left -= k;
        if (f->wn == f->cap && left) if (flush1(f)) return n - left;
    }
    if (f->fl & F_LINE) if (memchr(b, '\n', n)) if (flush1(f)) return 0;
    return n;
}
static int fill(SF* f)
{
    long r;
    if (!(f->fl & F_OPEN) || !(f->fl & F_R)) { f->fl |= F_ERR; errno = EBADF; return -1; }
    if (f->fl & F_EOF) return -1;
    if (f->wn) flush1(f);
    if (!getbuf(f)) { f->fl |= F_ERR; return -1; }
    r = k_read(f->fd, f->buf, f->cap);
    if (r < 0) { errno = (int)-r; f->fl |= F_ERR; return -1; }
    if (r == 0) { f->fl |= F_EOF; return -1; }
    f->rp = 0; f->re = (size_t)r;
    return 0;
}
size_t sim_fread(void* b, size_t s, size_t m, SF* f)
{
    unsigned char* p = b; size_t n = s * m, got = 0;
    if (!n) return 0;
    if (f->unget >= 0) { *p++ = (unsigned char)f->unget; f->unget = -1; got++; }
    while (got < n) {
        size_t k;
        if (f->rp == f->re) {
            if (n - got >= f->cap && (f->fl & F_R) && !(f->fl & F_EOF)) { /* large requests go straight to the file */
                size_t want = (n - got) - (n - got) % f->cap; long r = k_read(f->fd, p, want);
                f->rp = f->re = 0;
                if (r < 0) { errno = (int)-r; f->fl |= F_ERR; break; }
                if (r == 0) { f->fl |= F_EOF; break; }
                p += r; got += (size_t)r; continue;
            }
            if (fill(f)) break;
        }
        k = f->re - f->rp; if (k > n - got) k = n - got;
        memcpy(p, f->buf + f->rp, k); f->rp += k; p += k; got += k;
    }
    return got / s;
}
size_t sim_fwrite(const void* b, size_t s, size_t m, SF* f) { if (!s || !m) return 0; return fput(f, b, s * m) / s; }
int sim_fgetc(SF* f) { if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; } if (f->rp == f->re && fill(f)) return -1; return f->buf[f->rp++]; }
int sim_getc(SF* f) { return sim_fgetc(f); }
int sim_getchar(void) { return sim_fgetc(sim_stdin); }
int sim_ungetc(int c, SF* f) { if (c < 0 || f->unget >= 0) return -1; f->unget = c & 255; f->fl &= ~F_EOF; return c; }
char* sim_fgets(char* s, int n, SF* f)
{
    int i = 0, c = -1; int e = f->fl & F_ERR;
    f->fl &= ~F_ERR;
    while (i < n - 1 && (c = sim_fgetc(f)) >= 0) { s[i++] = (char)c; if (c == '\n') break; }
    if (i == 0 || ((f->fl & F_ERR) && c < 0)) { f->fl |= e; return 0; }
    f->fl |= e; s[i] = 0; return s;
}
int sim_fputc(int c, SF* f) { unsigned char x = (unsigned char)c; return fput(f, &x, 1) == 1 ? x : -1; }
int sim_putc(int c, SF* f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_fputs(const char* s, SF* f) { size_t n = strlen(s); return fput(f, s, n) == n ? 1 : -1; }
int sim_puts(const char* s) { size_t n = strlen(s); return fput(sim_stdout, s, n) == n && fput(sim_stdout, "\n", 1) == 1 ? 1 : -1; }
int sim_vfprintf(SF* f, const char* fmt, va_list ap)
{
    char b[8192]; char* p = b; va_list a2; int n;
    va_copy(a2, ap);
    n = vsnprintf(b, sizeof b, fmt, ap);
    if (n >= (int)sizeof b) { p = k_scratch((size_t)n + 1); vsnprintf(p, (size_t)n + 1, fmt, a2); }
    va_end(a2);
    if (n < 0) return n;
    return fput(f, p, (size_t)n) == (size_t)n ? n : -1;
}
int sim_fprintf(SF* f, const char* fmt, ...) { va_list a; int r; va_start(a, fmt); r = sim_vfprintf(f, fmt, a); va_end(a); return r; }
int sim_printf(const char* fmt, ...) { va_list a; int r; va_start(a, fmt); r = sim_vfprintf(sim_stdout, fmt, a); va_end(a); return r; }
int sim_vprintf(const char* fmt, va_list a) { return sim_vfprintf(sim_stdout, fmt, a); }
int sim_dprintf(int fd, const char* fmt, ...) { SF t = { 0 }; va_list a; int r; t.fd = fd; t.fl = F_W | F_OPEN | F_UNB; t.unget = -1; va_start(a, fmt); r = sim_vfprintf(&t, fmt, a); va_end(a); return r; }
int sim_vasprintf(char** o, const char* fmt, va_list ap)
{
    va_list a2; int n; va_copy(a2, ap); n = vsnprintf(0, 0, fmt, ap);
    if (n < 0 || !(*o = sim_malloc((size_t)n + 1))) { va_end(a2); return -1; }
    vsnprintf(*o, (size_t)n + 1, fmt, a2); va_end(a2); return n;
}
int sim_asprintf(char** o, const char* fmt, ...) { va_list a; int r; va_start(a, fmt); r = sim_vasprintf(o, fmt, a); va_end(a); return r; }
int sim_feof(SF* f) { return (f->fl & F_EOF) != 0; }
int sim_ferror(SF* f) { return (f->fl & F_ERR) != 0; }
void sim_clearerr(SF* f) { f->fl &= ~(F_EOF | F_ERR); }
int sim_fileno(SF* f) { return f->fd; }
long sim_ftell(SF* f)
{
    long o = k_lseek(f->fd, 0, 1);
    if (o < 0) { errno = (int)-o; return -1; }
    return o - (long)(f->re - f->rp) + (long)f->wn - (f->unget >= 0);
}
int sim_fseek(SF* f, long o, int w)
{
    long r;
    if (f->wn && flush1(f)) return -1;
    if (w == 1) o -= (long)(f->re - f->rp);
    f->rp = f->re = 0; f->unget = -1;
    r = k_lseek(f->fd, o, w);
    if (r < 0) { errno = (int)-r; return -1; }
    f->fl &= ~F_EOF;
    return 0;
}
void sim_rewind(SF* f) { sim_fseek(f, 0, 0); f->fl &= ~F_ERR; }
int sim_fgetpos(SF* f, long* p) { *p = sim_ftell(f); return *p < 0 ? -1 : 0; }
int sim_fsetpos(SF* f, const long* p) { return sim_fseek(f, *p, 0); }
static int mode(const char* m, int* sf)
{
    int plus = strchr(m, '+') != 0, o;
    if (*m == 'r') { o = plus ? O_RDWR : O_RDONLY; *sf = F_R | (plus ? F_W : 0); }
    else if (*m == 'w') { o = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; *sf = F_W | (plus ? F_R : 0); }
    else if (*m == 'a') { o = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; *sf = F_W | F_APP | (plus ? F_R : 0); }
    else return -1;
    if (strchr(m, 'x')) o |= O_EXCL;
    return o;
}
static SF* newsf(int fd, int fl)
{
    SF* f;
    for (f = flist; f; f = f->next) if (!(f->fl & F_OPEN)) break;
    if (!f) { f = raw(sizeof *f); if (!f) { errno = ENOMEM; return 0; } hcount--; memset(f, 0, sizeof *f); f->next = flist; flist = f; }
    f->fd = fd; f->fl = (f->fl & F_HEAPBUF) | fl | F_OPEN; f->cap = 4096; f->rp = f->re = f->wn = 0; f->unget = -1;
    if (!(f->fl & F_HEAPBUF)) f->buf = 0;
    return f;
}
SF* sim_fopen(const char* p, const char* m)
{
    int fl = 0, o = mode(m, &fl); long r; SF* f;
    if (o < 0) { errno = EINVAL; return 0; }
    if (k_alloc(552)) { errno = ENOMEM; return 0; }
    r = k_open(p, o, 0666);
    if (r < 0) { errno = (int)-r; return 0; }
    f = newsf((int)r, fl);
    if (!f) k_close((int)r);
    return f;
}
SF* sim_fdopen(int fd, const char* m) { int fl = 0, o = mode(m, &fl); if (o < 0) { errno = EINVAL; return 0; } return newsf(fd, fl); }
static int closesf(SF* f)
{
    int w = flush1(f); long c = k_close(f->fd);
    f->fl &= ~(F_OPEN | F_EOF | F_ERR); f->rp = f->re = f->wn = 0; f->unget = -1;
    if (c < 0) { errno = (int)-c; return -1; }
    return w;
}
int sim_fclose(SF* f)
{
    if (!(f->fl & F_OPEN)) k_raise_abort(); /* double fclose */
    return closesf(f);
}
SF* sim_freopen(const char* p, const char* m, SF* f)
{
    int fl = 0, o = mode(m, &fl), st = f->fl & (F_STATIC | F_HEAPBUF | F_UNB | F_OWNBUF); long r;
    if (f->fl & F_OPEN) closesf(f);
    if (!p || o < 0) { errno = EBADF; return 0; }
    r = k_open(p, o, 0666);
    if (r < 0) { errno = (int)-r; return 0; }
    f->fd = (int)r; f->fl = st | fl | F_OPEN;
    return f;
}
int sim_setvbuf(SF* f, char* b, int md, size_t n)
{
    f->fl &= ~(F_LINE | F_UNB);
    if (md == 2) f->fl |= F_UNB; else if (md == 1) f->fl |= F_LINE;
    if (b && n && md != 2) { if (!(f->fl & F_HEAPBUF)) { f->buf = (unsigned char*)b; f->cap = n; f->fl |= F_OWNBUF; } }
    return 0;
}
void sim_setbuf(SF* f, char* b) { sim_setvbuf(f, b, b ? 0 : 2, 8192); }
void sim_setlinebuf(SF* f) { sim_setvbuf(f, 0, 1, 0); }
void sim_perror(const char* s) { char b[2048]; int e = errno; if (s && *s) { strncpy(b, s, 1000); b[1000] = 0; strcat(b, ": "); } else b[0] = 0; strncat(b, strerror(e), 200); strcat(b, "\n"); fput(sim_stderr, b, strlen(b)); }
int sim_fscanf(SF* f, const char* fmt, ...) { char b[4096]; va_list a; int r; if (!sim_fgets(b, sizeof b, f)) return -1; va_start(a, fmt); r = vsscanf(b, fmt, a); va_end(a); return r; }
int sim_fcloseall(void) { SF* g; for (g = flist; g; g = g->next) if (g->fl & F_OPEN) closesf(g); return 0; }
SF* sim_tmpfile(void) { char t[] = "/tmp/tmpfXXXXXX"; int fd = sim_mkstemp(t); if (fd < 0) return 0; k_unlink(t); return sim_fdopen(fd, "w+"); }
SF* sim_popen(const char* c, const char* m) { (void)c; (void)m; errno = ENOSYS; return 0; }
int sim_system(const char* c) { (void)c; errno = ENOSYS; return -1; }

/* ------------------------------------------------------------------ processes */
static void (*atex[32])(void); static int natex, inexit;
int sim_atexit(void (*f)(void)) { if (natex == 32) return -1; atex[natex++] = f; return 0; }
void sim_exit(int s) { while (natex) atex[--natex](); (void)inexit; sim_fflush(0); k_exit(s); }
void sim__exit(int s) { k_exit(s); }
void sim_abort(void) { k_raise_abort(); }
void sim___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { sim_fprintf(sim_stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e); k_raise_abort(); }
void sim___stack_chk_fail(void) { sim_fprintf(sim_stderr, "*** stack smashing detected ***: terminated\n"); k_raise_abort(); }
int sim_fork(void) { RET(k_fork()); }
int sim_execv(const char* p, char* const* v) { RET(k_exec(p, v)); }
int sim_execvp(const char* p, char* const* v)
{
    char b[1200]; const char* path; long r = -ENOENT;
    if (strchr(p, '/')) RET(k_exec(p, v));
    path = k_getenv("PATH"); if (!path) path = "/bin:/usr/bin";
    for (;;) {
        const char* e = strchr(path, ':'); size_t n = e ? (size_t)(e - path) : strlen(path);
        if (n + strlen(p) + 2 < sizeof b) { memcpy(b, path, n); b[n] = '/'; strcpy(b + n + 1, p); r = k_exec(n ? b : p, v); }
        if ((r != -ENOENT && r != -ENOTDIR && r != -EACCES) || !e) break;
        path = e + 1;
    }
    RET(r);
}
int sim_waitpid(int pid, int* st, int opt) { RET(k_wait(pid, st, opt)); }
int sim_wait(int* st) { RET(k_wait(-1, st, 0)); }
int sim_kill(int pid, int sig) { RET(k_kill(pid, sig)); }
int sim_raise(int sig) { RET(k_kill((int)k_getpid(), sig)); }
int sim_getpid(void) { return (int)k_getpid(); }
int sim_getppid(void) { return (int)k_getppid(); }
int sim_setpgid(int a, int b) { (void)a; (void)b; return 0; }
void* sim_signal(int s, void* h) { long r = k_signal(s, h, 1); if (r == -EINVAL) { errno = EINVAL; return (void*)-1; } return (void*)r; }
int sim_sigaction(int s, const struct sigaction* n, struct sigaction* o)
{
    long r = k_signal(s, n ? (void*)n->sa_handler : (void*)-3L, n ? (n->sa_flags & SA_RESTART) != 0 : 0);
    if (r == -EINVAL) { errno = EINVAL; return -1; }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = (void (*)(int))r; }
    return 0;
}
int sim_sigprocmask(int how, const sigset_t* s, sigset_t* o)
{
    unsigned long m = s ? s->__val[0] : 0, old; long r = k_sigmask(s ? how : -1, m, &old);
    if (o) { memset(o, 0, sizeof *o); o->__val[0] = old; }
    RET(r);
}
char* sim_getenv(const char* n) { return (char*)k_getenv(n); }
unsigned sim_sleep(unsigned s) { (void)s; k_time(0); return 0; }
int sim_usleep(unsigned s) { (void)s; k_time(0); return 0; }

/* ------------------------------------------------------------------ time */
long sim_time(long* t) { long v = k_time(0); if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval* t, void* z) { long us; (void)z; t->tv_sec = k_time(&us); t->tv_usec = us; return 0; }
int sim_clock_gettime(int c, struct timespec* t) { long us; (void)c; t->tv_sec = k_time(&us); t->tv_nsec = us * 1000; return 0; }
long sim_clock(void) { long us, s = k_time(&us); return (s & 0xffff) * 1000000 + us; }
static struct tm tmv; static char tbuf[64];
struct tm* sim_gmtime(const long* t) { time_t v = *t; return gmtime_r(&v, &tmv); }
struct tm* sim_localtime(const long* t) { time_t v = *t; return gmtime_r(&v, &tmv); }
char* sim_asctime(const struct tm* t) { return asctime_r(t, tbuf); }
char* sim_ctime(const long* t) { time_t v = *t; struct tm x; return asctime_r(gmtime_r(&v, &x), tbuf); }
