#define _GNU_SOURCE
#include "vio.h"
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <termios.h>
#include <time.h>
#include <ctype.h>
#include <poll.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/time.h>
#include <netdb.h>

// ------------------------------------------------------------------ text buffers
static void sb_need(sb *b, size_t k){ if (b->n + k + 1 > b->cap){ b->cap = (b->n + k + 1) * 2 + 256; b->p = __real_realloc(b->p, b->cap);} }
void sb_reset(sb *b){ b->n = 0; sb_need(b, 1); b->p[0] = 0; }
void sb_printf(sb *b, const char *fmt, ...){
    va_list ap; va_start(ap, fmt); va_list ap2; va_copy(ap2, ap);
    int k = vsnprintf(NULL, 0, fmt, ap); va_end(ap);
    sb_need(b, k); vsnprintf(b->p + b->n, k + 1, fmt, ap2); va_end(ap2); b->n += k; }
void sb_bytes(sb *b, const unsigned char *d, size_t n){
    sb_printf(b, "["); for (size_t i = 0; i < n; i++) sb_printf(b, "%s%d", i ? "," : "", d[i]); sb_printf(b, "]"); }
void sb_text(sb *b, const char *s){
    if (!s){ sb_printf(b, "\"%%NULL\""); return; }
    sb_printf(b, "\"");
    for (const unsigned char *p = (const unsigned char*)s; *p; p++)
        if (*p < 0x20 || *p >= 0x7F || *p == '"' || *p == '\\' || *p == '%') sb_printf(b, "%%%02X", *p); else sb_printf(b, "%c", *p);
    sb_printf(b, "\""); }
sb ev;
static int cur; int vio_lines = 1;       // the line in use, and how many there are: events carry its number when there are several
void (*vio_before_event)(void);
void ev_begin(const char *e){ if (vio_before_event) vio_before_event(); sb_printf(&ev, "%s{\"e\":\"%s\"", ev.n ? "," : "", e); if (vio_lines > 1) sb_printf(&ev, ",\"ln\":%d", cur); }
void ev_end(void){ sb_printf(&ev, "}"); }
void ev_add(const char *fmt, ...){
    if (vio_before_event) vio_before_event();
    sb_printf(&ev, "%s", ev.n ? "," : "");
    va_list ap; va_start(ap, fmt); va_list ap2; va_copy(ap2, ap);
    int k = vsnprintf(NULL, 0, fmt, ap); va_end(ap);
    sb_need(&ev, k); vsnprintf(ev.p + ev.n, k + 1, fmt, ap2); va_end(ap2); ev.n += k;
    if (vio_lines > 1 && ev.n && ev.p[ev.n - 1] == '}'){ ev.n--; sb_printf(&ev, ",\"ln\":%d}", cur); } }

// ------------------------------------------------------------------ allocation accounting
long vio_live;
// while armed, requests are counted and the chosen one (or all from the chosen one on) denied
volatile int vio_arm; long vio_oom, vio_oom_all, vio_allocs;
// where the requests come from: the first and the last one of every place
long vio_first[VIO_MAXPLACES], vio_last[VIO_MAXPLACES]; int vio_places; static void *places[VIO_MAXPLACES];
static int deny(void *from){
    if (!vio_arm) return 0;
    vio_allocs++;
    int k = 0; while (k < vio_places && places[k] != from) k++;
    if (k < VIO_MAXPLACES){ if (k == vio_places){ vio_places++; places[k] = from; vio_first[k] = vio_allocs; } vio_last[k] = vio_allocs; }
    if ((vio_oom > 0 && vio_allocs == vio_oom) || (vio_oom_all > 0 && vio_allocs >= vio_oom_all)){ ev_add("{\"e\":\"oom\"}"); errno = ENOMEM; return 1; }
    return 0; }
// the library's own memory: what the C library allocates for it (and it releases) does not count
static struct node { void *p; struct node *next; } *own[1024];
static struct node **slot(void *p){ struct node **x = &own[((size_t)p >> 4) % 1024]; while (*x && (*x)->p != p) x = &(*x)->next; return x; }
static void *note_alloc(void *p){ if (p){ struct node *x = __real_malloc(sizeof *x), **at = &own[((size_t)p >> 4) % 1024]; x->p = p; x->next = *at; *at = x; vio_live++; } return p; }
static void note_free(void *p){ struct node **x = slot(p), *d = *x; if (d){ *x = d->next; __real_free(d); vio_live--; } }
static void disown(void){ for (int k = 0; k < 1024; k++) while (own[k]){ struct node *d = own[k]; own[k] = d->next; __real_free(d); } vio_live = 0; }
void *__wrap_malloc(size_t n){ if (deny(__builtin_return_address(0))) return NULL; return note_alloc(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b){ if (deny(__builtin_return_address(0))) return NULL; return note_alloc(__real_calloc(a,b)); }
void *__wrap_realloc(void *o, size_t n){
    if (deny(__builtin_return_address(0))) return NULL;
    int was = o && *slot(o); void *p = __real_realloc(o,n);
    if (p){ if (was) note_free(o); if (was || !o) note_alloc(p); } else if (was && !n) note_free(o);
    return p; }
void *__wrap_reallocarray(void *o, size_t a, size_t b){ size_t n; if (__builtin_mul_overflow(a, b, &n)){ errno = ENOMEM; return NULL; } return __wrap_realloc(o, n); }
void __wrap_free(void *p){ if (p) note_free(p); __real_free(p); }
char *__wrap_strdup(const char *s){ if (deny(__builtin_return_address(0))) return NULL; return note_alloc(__real_strdup(s)); }
char *__wrap_strndup(const char *s, size_t n){ size_t k = strnlen(s,n); char *p = __wrap_malloc(k+1); if (!p) return NULL; memcpy(p,s,k); p[k]=0; return p; }

#define START 1700000000L
long vio_now = START, vio_tick_read, vio_tick_write;
int __wrap_gettimeofday(struct timeval *t, void *z){ (void)z; t->tv_sec = vio_now; t->tv_usec = 0; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t){ (void)c; t->tv_sec = vio_now; t->tv_nsec = 0; return 0; }
time_t __wrap_time(time_t *t){ if (t) *t = vio_now; return vio_now; }
unsigned __wrap_sleep(unsigned s){ (void)s; return 0; }
int __wrap_usleep(useconds_t u){ (void)u; return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r){ (void)t; (void)r; return 0; }

// ------------------------------------------------------------------ the bus
typedef struct { char k; unsigned char *d; size_t n, off; } item;
#define MAXI 65536
static item queues[VIO_MAXLINES][MAXI], *q = queues[0]; static int qh, qt;
static char *rep; static const char *repp;
static char wr[4096]; static int wi;
static char op[256]; static int oi;
static char ts[256]; static int ti;
int vio_serial, vio_tty = 1, vio_cmode;
int vio_fd0 = 500;                        // number of the first descriptor handed out
#define VFD0 vio_fd0
#define NVFD 64
static struct { int used, open, serial, line, no, fam; struct termios t; int t_set; } vfd[NVFD]; static int nvfd;
static int nfds;                          // descriptors handed out on this line

// several lines: what belongs to the line not in use is kept aside
static struct { int qh, qt; char *rep; const char *repp; char wr[4096]; int wi; char op[256]; int oi; char ts[256]; int ti; int serial, tty, cmode, nfds, nsl; } kept[VIO_MAXLINES];
static void keep_slaves(int from, int to);
int vio_use(int k){
    int old = cur; if (k == cur) return old;
    #define SWAP(f, v) memcpy(&kept[old].f, &v, sizeof v); memcpy(&v, &kept[k].f, sizeof v);
    SWAP(qh, qh) SWAP(qt, qt) SWAP(rep, rep) SWAP(repp, repp) SWAP(wr, wr) SWAP(wi, wi) SWAP(op, op) SWAP(oi, oi) SWAP(ts, ts) SWAP(ti, ti) SWAP(serial, vio_serial) SWAP(tty, vio_tty) SWAP(cmode, vio_cmode) SWAP(nfds, nfds)
    keep_slaves(old, k); q = queues[k]; cur = k; return old; }
// what was heard on every line: the bytes, and for every read the moment, how many there were then and how many writes had been made
static struct { unsigned char *b; size_t n, cap; struct { long when; size_t n; int sent; } *r; size_t nr, capr; int sent; } heard[VIO_MAXLINES];
static void item_free(item *x){ __real_free(x->d); x->d = 0; x->n = x->off = 0; }
static int hexv(int c){ return c<='9'? c-'0' : (c|32)-'a'+10; }
static void put(char k, const unsigned char *d, size_t n){
    if (qt >= MAXI) abort();
    item *x = &q[qt++]; x->k = k; x->n = n; x->off = 0; x->d = __real_malloc(n + 1); if (n) memcpy(x->d, d, n); }
static void put_items(const char *s, size_t len, sb *log){
    // log: JSON list of the items appended
    size_t i = 0; int first = 1; static unsigned char tmp[65536];
    while (i < len){
        char k = s[i++]; size_t n = 0;
        if (k == 'x'){ while (i + 1 < len && s[i] != ','){ tmp[n++] = hexv(s[i])*16 + hexv(s[i+1]); i += 2; } put('B', tmp, n); }
        else put(k, tmp, 0);
        if (log){ sb_printf(log, "%s{\"k\":\"%c\",\"d\":", first ? "" : ",", k == 'x' ? 'B' : k); sb_bytes(log, tmp, n); sb_printf(log, "}"); first = 0; }
        if (i < len && s[i] == ',') i++;
    } }
static void reset_line(void){ heard[cur].n = heard[cur].nr = heard[cur].sent = 0; qh = qt = 0; __real_free(rep); rep = 0; repp = 0; wr[0] = 0; wi = 0; op[0] = 0; oi = 0; ts[0] = 0; ti = 0; nfds = 0; vio_serial = 0; vio_tty = 1; vio_cmode = 0; vio_pop(NULL); }
void vio_reset(void){
    for (int k = VIO_MAXLINES - 1; k >= 0; k--){ vio_use(k); while (qh < qt) item_free(&q[qh++]); reset_line(); }
    vio_lines = 1; vio_place(NULL); vio_now = START; vio_tick_read = vio_tick_write = 0;
    memset(vfd, 0, sizeof vfd); nvfd = 0; sb_reset(&ev); disown(); vio_fd0 = 500; vio_arm = 0; vio_oom = vio_oom_all = vio_allocs = 0; vio_places = 0; }
void vio_queue(const char *s){ put_items(s, strlen(s), NULL); }
void vio_replies(const char *s){ __real_free(rep); rep = __real_strdup(s); repp = rep; }
void vio_writes(const char *s){ snprintf(wr, sizeof wr, "%s", s); wi = 0; }
void vio_opens(const char *s){ snprintf(op, sizeof op, "%s", s); oi = 0; }
void vio_tcset_results(const char *s){ snprintf(ts, sizeof ts, "%s", s); ti = 0; }
size_t vio_left_bytes(void){ size_t n = 0; for (int i = qh; i < qt; i++) n += q[i].n - q[i].off; return n; }
size_t vio_left_items(void){ return qt - qh; }
int vio_fds_open(void){ int n = 0; for (int i = 0; i < nvfd; i++) n += vfd[i].open && vfd[i].line == cur; return n; }

// ------------------------------------------------------------------ simulated slaves
// spec: slave;slave;...   slave = prim:sec16hex:telegram1hex|telegram2hex...
// prim is a decimal primary address; sec is 8 bytes as they appear in a reply header.
typedef struct { int prim; unsigned char sec[8]; int sel; int fcb, idx; int nt; unsigned char t[32][256]; int tl[32]; } slave;
static slave slaves[VIO_MAXLINES][64], *sl = slaves[0]; static int nsl;
static void keep_slaves(int from, int to){ kept[from].nsl = nsl; nsl = kept[to].nsl; sl = slaves[to]; }
// collision mode: 0 concatenate, 1 perfectly overlapping acknowledgements / damaged long frames,
// 2 damaged everything (first byte destroyed), 3 bit-and superposition
void vio_pop(const char *s){
    nsl = 0; if (!s) return;
    while (*s && nsl < 64){
        slave *x = &sl[nsl++]; memset(x, 0, sizeof *x); x->fcb = -1;
        x->prim = (int)strtol(s, (char**)&s, 10); if (*s == ':') s++;
        for (int i = 0; i < 8; i++, s += 2) x->sec[i] = hexv(s[0])*16 + hexv(s[1]);
        if (*s == ':') s++;
        while (*s && *s != ';'){ int k = x->nt++; while (*s && *s != '|' && *s != ';'){ x->t[k][x->tl[k]++] = hexv(s[0])*16+hexv(s[1]); s += 2; } if (*s == '|') s++; }
        if (*s == ';') s++;
    } }
static int sec_match(const unsigned char *m, const slave *x){
    for (int i = 0; i < 8; i++) for (int h = 0; h < 2; h++){ int mn = (m[i] >> (4*h)) & 15, sn = (x->sec[i] >> (4*h)) & 15; if (mn != 15 && mn != sn) return 0; }
    return 1; }
static size_t mk_reply(slave *x, int i, unsigned char *o){
    // long frame RSP_UD carrying telegram i: 12 byte header (sec + acc,status,sig) + payload
    size_t n = 0, k; int pl = x->nt ? x->tl[i] : 0; size_t L = 3 + 12 + pl;
    o[n++] = 0x68; o[n++] = L; o[n++] = L; o[n++] = 0x68; o[n++] = 0x08; o[n++] = x->prim; o[n++] = 0x72;
    for (k = 0; k < 8; k++) o[n++] = x->sec[k];
    o[n++] = 0x55; o[n++] = 0; o[n++] = 0; o[n++] = 0;
    for (int j = 0; j < pl; j++) o[n++] = x->t[i][j];
    unsigned char c = 0; for (k = 4; k < n; k++) c += o[k];
    o[n++] = c; o[n++] = 0x16; return n; }
static void emit(unsigned char out[][300], size_t *len, int n, sb *log){
    static char hx[70000]; size_t p = 0; static unsigned char b[20000]; size_t bl = 0;
    if (n == 0) return;
    if (n == 1 || vio_cmode == 0){ for (int i = 0; i < n; i++){ memcpy(b + bl, out[i], len[i]); bl += len[i]; } }
    else {
        size_t mx = 0; for (int i = 0; i < n; i++) if (len[i] > mx) mx = len[i];
        for (size_t k = 0; k < mx; k++){ unsigned char v = 0xFF; for (int i = 0; i < n; i++) if (k < len[i]) v &= out[i][k]; b[bl++] = v; }
        if (vio_cmode == 1 && mx > 1) b[mx-2] ^= 0x5A;           // damaged checksum
        if (vio_cmode == 2) b[0] = 0x00;
    }
    hx[p++] = 'x'; for (size_t i = 0; i < bl; i++) p += sprintf(hx + p, "%02x", b[i]);
    put_items(hx, p, log); }
static int pop_react(const unsigned char *f, size_t n, sb *log){
    static unsigned char out[64][300]; size_t len[64]; int k = 0;
    if (!nsl) return 0;
    if (n == 5 && f[0] == 0x10){
        int a = f[2], c = f[1];
        for (int i = 0; i < nsl; i++){ slave *x = &sl[i];
            if (!(a == x->prim || a == 254 || a == 255 || (a == 253 && x->sel))) continue;
            if (c == 0x40){ if (a == 253) x->sel = 0; x->fcb = -1; x->idx = 0; if (a != 255){ out[k][0] = 0xE5; len[k++] = 1; } }
            else if ((c & 0xDF) == 0x5B){                                   // REQ_UD2, frame count bit valid
                int fcb = (c >> 5) & 1; int nt = x->nt ? x->nt : 1;
                if (x->fcb >= 0 && fcb != x->fcb) x->idx = (x->idx + 1) % nt;
                x->fcb = fcb;
                if (a != 255){ len[k] = mk_reply(x, x->idx, out[k]); k++; }
            } }
    } else if (n >= 9 && f[0] == 0x68 && n == (size_t)f[1] + 6){
        int c = f[4], a = f[5], ci = f[6];
        if (a == 253 && ci == 0x52 && n == 17){
            for (int i = 0; i < nsl; i++){ slave *x = &sl[i];
                if (sec_match(f + 7, x)){ x->sel = 1; x->fcb = -1; x->idx = 0; out[k][0] = 0xE5; len[k++] = 1; } else x->sel = 0; }
        } else if ((c & 0xDF) == 0x53) for (int i = 0; i < nsl; i++){ slave *x = &sl[i];
            if (!(a == x->prim || a == 254 || a == 255 || (a == 253 && x->sel))) continue;
            if (ci == 0x51 && n == 12 && f[7] == 1 && f[8] == 0x7A) x->prim = f[9];
            if (a != 255){ out[k][0] = 0xE5; len[k++] = 1; } }
    }
    emit(out, len, k, log); return 1; }

// ------------------------------------------------------------------ wrapped system calls
static void hear(const unsigned char *b, size_t n){
    if (heard[cur].n + n > heard[cur].cap) heard[cur].b = __real_realloc(heard[cur].b, heard[cur].cap = 2 * (heard[cur].n + n) + 1024);
    if (heard[cur].nr == heard[cur].capr) heard[cur].r = __real_realloc(heard[cur].r, (heard[cur].capr = 2 * heard[cur].nr + 256) * sizeof *heard[cur].r);
    memcpy(heard[cur].b + heard[cur].n, b, n); heard[cur].n += n; vio_now += vio_tick_read;
    size_t k = heard[cur].nr++; heard[cur].r[k].when = vio_now; heard[cur].r[k].n = heard[cur].n; heard[cur].r[k].sent = heard[cur].sent; }
// the moment of a telegram: one more than the number of writes before, if its last byte was read just then; 0: unknown; -2: another moment
int vio_moment(long when, const unsigned char *image, size_t n){
    if (when == 0) return 0;
    for (size_t k = heard[cur].nr; k-- > 0; ) if (heard[cur].r[k].when == when && heard[cur].r[k].n >= n && !memcmp(heard[cur].b + heard[cur].r[k].n - n, image, n)) return heard[cur].r[k].sent + 1;
    return -2; }
static int vidx(int fd){ int i = fd - VFD0; return (i >= 0 && i < nvfd && vfd[i].open) ? i : -1; }
static char nextc(char *s, int *i, char dflt){ return s[*i] ? s[(*i)++] : dflt; }
static int newfd(int serial){ if (nvfd >= NVFD) abort(); vfd[nvfd].used = vfd[nvfd].open = 1; vfd[nvfd].serial = serial; vfd[nvfd].line = cur; vfd[nvfd].no = nfds++; return VFD0 + nvfd++; }
static int number(int fd){ return vfd[fd - VFD0].no; }
void vio_open_preset(int ser){ vio_serial = ser; }

ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_close(int);
static ssize_t read_line(int fd, void *buf, size_t n);
ssize_t __wrap_read(int fd, void *buf, size_t n){ int i = vidx(fd), old = vio_use(i < 0 ? cur : vfd[i].line); ssize_t k = read_line(fd, buf, n); vio_use(old); return k; }
static ssize_t read_line(int fd, void *buf, size_t n){
    int i = vidx(fd);
    if (i < 0){ ev_add("{\"e\":\"badread\"}"); errno = EBADF; return -1; }
    if (n == 0) return 0;
    if (qh == qt){ if (vfd[i].serial) return 0; errno = EAGAIN; return -1; }
    item *x = &q[qh];
    switch (x->k){
    case 'B': { size_t k = x->n - x->off; if (k > n) k = n; memcpy(buf, x->d + x->off, k); hear(buf, k); x->off += k; if (x->off == x->n){ item_free(x); qh++; } return k; }
    case 'T': item_free(x); qh++; if (vfd[i].serial) return 0; errno = EAGAIN; return -1;
    case 'I': item_free(x); qh++; errno = EINTR; return -1;
    case 'E': item_free(x); qh++; errno = EIO; return -1;
    case 'Z': return 0;
    } abort(); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l){ (void)fl; (void)a; (void)l; return __wrap_read(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl){ (void)fl; return __wrap_read(fd, b, n); }
static ssize_t write_line(int fd, const void *buf, size_t n);
ssize_t __wrap_write(int fd, const void *buf, size_t n){ int i = vidx(fd), old = vio_use(i < 0 ? cur : vfd[i].line); ssize_t k = write_line(fd, buf, n); vio_use(old); return k; }
static ssize_t write_line(int fd, const void *buf, size_t n){
    int i = vidx(fd);
    if (i < 0){ ev_add("{\"e\":\"badwrite\"}"); errno = EBADF; return -1; }
    char c = nextc(wr, &wi, 'o');
    if (n > 100000 || c == 'f'){ ev_add("{\"e\":\"txfail\",\"n\":%ld}", n > 100000 ? -1L : (long)n); errno = EIO; return -1; }
    size_t k = n; if (c == 's' && n > 0) k = n - 1;
    vio_now += vio_tick_write; heard[cur].sent++;
    ev_begin("tx"); sb_printf(&ev, ",\"d\":"); sb_bytes(&ev, buf, k);
    sb_printf(&ev, ",\"q\":[");
    if (repp && *repp){ const char *e = strchr(repp, ';'); size_t l = e ? (size_t)(e - repp) : strlen(repp); put_items(repp, l, &ev); repp += l; if (*repp == ';') repp++; }
    else pop_react(buf, k, &ev);
    sb_printf(&ev, "]"); ev_end();
    return k; }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl){ (void)fl; return __wrap_write(fd, b, n); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l){ (void)fl; (void)a; (void)l; return __wrap_write(fd, b, n); }
int __wrap_shutdown(int fd, int how){ (void)how; if (vidx(fd) < 0){ errno = EBADF; return -1; } return 0; }
int __wrap_close(int fd){
    int i = vidx(fd);
    if (i < 0){ ev_add("{\"e\":\"badclose\"}"); errno = EBADF; return -1; }
    int old = vio_use(vfd[i].line); vfd[i].open = 0; ev_add("{\"e\":\"close\",\"fd\":%d}", number(fd)); vio_use(old); return 0; }
static char *the_place; void vio_place(const char *s){ if (the_place) __real_free(the_place); the_place = s ? __real_strdup(s) : NULL; }
// with several lines, line k is the device /dev/virtualk or the gateway gatewayk.test
static int open_line(void){
    if (nextc(op, &oi, 'o') != 'o'){ ev_add("{\"e\":\"openfail\"}"); errno = ENOENT; return -1; }
    int fd = newfd(1); ev_add("{\"e\":\"open\",\"fd\":%d}", number(fd)); return fd; }
int __wrap_open(const char *path, int flags, ...){
    size_t l = strlen("/dev/virtual"); int k = -1; const char *name = path;
    if (vio_lines == 1) k = strcmp(path, the_place ? the_place : "/dev/virtual") ? -1 : cur;
    else if (!strncmp(path, "/dev/virtual", l) && path[l] >= '0' && path[l] < '0' + vio_lines && !path[l + 1]){ k = path[l] - '0'; name = "/dev/virtual"; }
    int old = vio_use(k < 0 ? cur : k), fd = -1;
    ev_begin("dev"); sb_printf(&ev, ",\"h\":"); sb_text(&ev, name); ev_end();
    if (k < 0 || (flags & O_ACCMODE) != O_RDWR){ ev_add("{\"e\":\"openfail\"}"); errno = ENOENT; } else fd = open_line();
    vio_use(old); return fd; }
int __wrap_open64(const char *path, int flags, ...){ return __wrap_open(path, flags); }
int __wrap_isatty(int fd){ int i = vidx(fd); if (i < 0){ errno = EBADF; return 0; } int old = vio_use(vfd[i].line), y = vfd[i].serial && vio_tty; vio_use(old); return y; }
static long spd(speed_t s){ switch (s){ case B300: return 300; case B600: return 600; case B1200: return 1200; case B2400: return 2400; case B4800: return 4800; case B9600: return 9600; case B19200: return 19200; case B38400: return 38400; default: return -1; } }
int __wrap_tcsetattr(int fd, int act, const struct termios *t){
    int i = vidx(fd); (void)act;
    if (i < 0 || !vfd[i].serial){ ev_add("{\"e\":\"badtcset\"}"); errno = EBADF; return -1; }
    int old = vio_use(vfd[i].line); char c = nextc(ts, &ti, 'o');
    int cf = t->c_cflag; int size = (cf & CSIZE) == CS8 ? 8 : (cf & CSIZE) == CS7 ? 7 : (cf & CSIZE) == CS6 ? 6 : 5;
    ev_add("{\"e\":\"line\",\"ok\":%d,\"ispeed\":%ld,\"ospeed\":%ld,\"bits\":%d,\"parenb\":%d,\"parodd\":%d,\"cstopb\":%d,\"cread\":%d,\"clocal\":%d,\"crtscts\":%d,\"vmin\":%d,\"vtime\":%d,\"iflag\":%d,\"oflag\":%d,\"lflag\":%d}",
        c == 'o', spd(cfgetispeed(t)), spd(cfgetospeed(t)), size, !!(cf & PARENB), !!(cf & PARODD), !!(cf & CSTOPB), !!(cf & CREAD), !!(cf & CLOCAL), !!(cf & CRTSCTS),
        t->c_cc[VMIN], t->c_cc[VTIME], (int)t->c_iflag, (int)t->c_oflag, (int)t->c_lflag);
    vio_use(old);
    if (c != 'o'){ errno = EIO; return -1; }
    vfd[i].t = *t; vfd[i].t_set = 1; return 0; }
int __wrap_tcgetattr(int fd, struct termios *t){ int i = vidx(fd); if (i < 0){ errno = EBADF; return -1; } *t = vfd[i].t; return 0; }
int __wrap_tcdrain(int fd){ (void)fd; return 0; }
// what has arrived before the line falls silent is discarded
int __wrap_tcflush(int fd, int w){
    int i = vidx(fd); if (i < 0){ errno = EBADF; return -1; }
    if (w == TCIFLUSH || w == TCIOFLUSH){ int old = vio_use(vfd[i].line); while (qh < qt && q[qh].k == 'B') item_free(&q[qh++]); vio_use(old); }
    return 0; }
int __wrap_fcntl(int fd, int c, ...){ (void)fd; (void)c; return 0; }
int __wrap_ioctl(int fd, unsigned long c, ...){ (void)fd; (void)c; return 0; }
// resolver/connection: op letters: 'o' ok, 'n' name resolution fails, 'k' socket fails, 'c' connect refused.
// the name has two addresses, one of each family, and takes streams and datagrams; each address tried consumes one letter.
static struct addrinfo ai[4]; static struct sockaddr_in6 sa6; static struct sockaddr_in sa4;
static int asked;                         // the line whose address was asked for last
int __wrap_getaddrinfo(const char *h, const char *p, const struct addrinfo *hi, struct addrinfo **r){
    asked = cur; int known = vio_lines > 1 || !strcmp(h, the_place ? the_place : "gateway.test");
    if (vio_lines > 1){ known = !strncmp(h, "gateway", 7) && h[7] >= '0' && h[7] < '0' + vio_lines && !strcmp(h + 8, ".test"); if (known){ asked = h[7] - '0'; h = "gateway.test"; } }
    int old = vio_use(asked), n;
    ev_begin("resolve"); sb_printf(&ev, ",\"h\":"); sb_text(&ev, h); sb_printf(&ev, ",\"p\":"); sb_text(&ev, p); ev_end();
    n = op[oi] == 'n'; if (n) oi++;
    vio_use(old); if (n || !known) return EAI_NONAME;
    memset(ai, 0, sizeof ai); int m = 0, fam = hi ? hi->ai_family : AF_UNSPEC, type = hi ? hi->ai_socktype : 0;
    for (int i = 0; i < 4; i++){
        int f = i < 2 ? AF_INET6 : AF_INET, t = i % 2 ? SOCK_STREAM : SOCK_DGRAM;
        if ((fam != AF_UNSPEC && fam != f) || (type && type != t)) continue;
        ai[m].ai_family = f; ai[m].ai_socktype = t; ai[m].ai_protocol = t == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP;
        ai[m].ai_addr = f == AF_INET6 ? (struct sockaddr*)&sa6 : (struct sockaddr*)&sa4; ai[m].ai_addrlen = f == AF_INET6 ? sizeof sa6 : sizeof sa4;
        if (m) ai[m - 1].ai_next = &ai[m]; m++; }
    if (!m) return EAI_NONAME;
    *r = ai; return 0; }
void __wrap_freeaddrinfo(struct addrinfo *a){ (void)a; int old = vio_use(asked); ev_add("{\"e\":\"freeaddr\"}"); vio_use(old); }
int __wrap_socket(int a, int b, int c){ (void)c;
    int old = vio_use(asked), fd = -1;
    if ((b & 15) != SOCK_STREAM) ev_add("{\"e\":\"badsocket\"}");
    if (op[oi] == 'k'){ oi++; ev_add("{\"e\":\"openfail\"}"); errno = EMFILE; }
    else { fd = newfd(0); vfd[vidx(fd)].fam = a; ev_add("{\"e\":\"open\",\"fd\":%d}", number(fd)); }
    vio_use(old); return fd; }
int __wrap_connect(int fd, const struct sockaddr *s, socklen_t l){
    int i = vidx(fd), ok, old = vio_use(i < 0 ? cur : vfd[i].line), six = s == (struct sockaddr*)&sa6;
    if (i < 0 || vfd[i].serial || (!six && s != (struct sockaddr*)&sa4) || vfd[i].fam != (six ? AF_INET6 : AF_INET) || l < (six ? sizeof sa6 : sizeof sa4)){ ev_add("{\"e\":\"badconnect\"}"); vio_use(old); errno = EBADF; return -1; }
    ev_add("{\"e\":\"to\",\"n\":%d}", six ? 1 : 2);
    ok = nextc(op, &oi, 'o') == 'o'; if (!ok) ev_add("{\"e\":\"connfail\"}");
    vio_use(old); if (ok) return 0; errno = ECONNREFUSED; return -1; }
int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t l){
    (void)lv; (void)l;
    if (vidx(fd) < 0){ ev_add("{\"e\":\"badsockopt\"}"); return -1; }
    int old = vio_use(vfd[vidx(fd)].line);
    if (o == SO_RCVTIMEO || o == SO_SNDTIMEO){ const struct timeval *t = v; ev_add("{\"e\":\"tmo\",\"w\":\"%s\",\"ms\":%ld}", o == SO_RCVTIMEO ? "r" : "s", (long)(t->tv_sec * 1000 + (t->tv_usec + 500) / 1000)); }
    vio_use(old); return 0; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t){ (void)n; (void)r; (void)w; (void)e; (void)t; return 1; }
int __wrap_getsockopt(int fd, int lv, int o, void *v, socklen_t *l){ (void)lv; (void)o; if (vidx(fd) < 0){ errno = EBADF; return -1; } memset(v, 0, *l); return 0; }
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m){ (void)n; (void)r; (void)w; (void)e; (void)t; (void)m; return 1; }
int __wrap_poll(struct pollfd *p, nfds_t n, int t){ (void)t; for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return (int)n; }
