// Virtual transport, event log and allocation accounting for driving libmbus
// without any real device, socket or clock.
#ifndef VIO_H
#define VIO_H
#include <stddef.h>
#include <stdio.h>
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t);
void *__real_realloc(void*,size_t); void __real_free(void*);
char *__real_strdup(const char*);

// growable text buffer (event log)
typedef struct { char *p; size_t n, cap; } sb;
void sb_printf(sb *b, const char *fmt, ...) __attribute__((format(printf,2,3)));
void sb_reset(sb *b);
void sb_bytes(sb *b, const unsigned char *d, size_t n);     // JSON array of ints
void sb_text(sb *b, const char *s);                           // JSON string, %XX escapes
extern sb ev;                                                  // current event list body
void ev_add(const char *fmt, ...) __attribute__((format(printf,1,2)));
void ev_begin(const char *e); void ev_end(void);
extern void (*vio_before_event)(void);      // called before an event is recorded

extern long vio_live;           // live allocations made through wrapped functions
extern volatile int vio_arm;             // count allocation requests, and deny the chosen ones
extern long vio_oom;            // the request to deny (0: none)
extern long vio_oom_all;        // deny this request and every later one (0: none)
#define VIO_MAXPLACES 64
extern long vio_first[VIO_MAXPLACES], vio_last[VIO_MAXPLACES]; extern int vio_places;    // first and last request of every place in the code
extern long vio_allocs;         // requests counted
extern long vio_now;            // value returned by time()
extern long vio_tick_read, vio_tick_write;  // by how much it goes on when bytes are read, and when bytes are written
int vio_moment(long when, const unsigned char *image, size_t n);   // see vio.c

#define VIO_MAXLINES 3
extern int vio_lines;           // lines in use (1 unless set after a reset)
int vio_use(int line);          // the line that is configured, opened and reported from now on; returns the one before
void vio_reset(void);
void vio_place(const char *s);                // the only name that leads anywhere (NULL: /dev/virtual and gateway.test)
void vio_queue(const char *items);          // append items "xHEX,T,E,Z,I"
void vio_replies(const char *lists);        // per-send item lists, separated by ';'
void vio_writes(const char *s);             // per-write outcome letters: o,f,s
void vio_opens(const char *s);              // per-open/connect outcome letters
void vio_tcset_results(const char *s);      // per-tcsetattr outcome letters
void vio_pop(const char *spec);             // simulated slaves
extern int vio_cmode;
extern int vio_serial;                      // 1: descriptor behaves as a tty
extern int vio_fd0;                         // number of the first descriptor handed out
extern int vio_tty;                         // isatty() answer for open serial descriptors
size_t vio_left_bytes(void); size_t vio_left_items(void);
int vio_fds_open(void);
void vio_open_preset(int ser);
#endif
