// Drives libmbus through its public API; one case per input line, one JSON line per case.
#define _GNU_SOURCE
#include <ctype.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <mbus.h>
#include "vio.h"

// the driver's own allocations are never denied
static mbus_frame *own_frame(int t){ int a = vio_arm; vio_arm = 0; mbus_frame *f = mbus_frame_new(t); vio_arm = a; return f; }
static mbus_frame_data *own_frame_data(void){ int a = vio_arm; vio_arm = 0; mbus_frame_data *f = mbus_frame_data_new(); vio_arm = a; return f; }
static void *own_malloc(size_t n){ int a = vio_arm; vio_arm = 0; void *p = malloc(n); vio_arm = a; return p; }
#define mbus_frame_new own_frame
#define mbus_frame_data_new own_frame_data
#define malloc own_malloc
static void arm(int on);

static sb out;
static char *tok[4096]; static int nt;
static int who = -1;                // several handles: the parameters of handle n are those that begin with "n."
static const char *get(const char *k){ size_t l = strlen(k); for (int i = 0; i < nt; i++){ const char *t = tok[i]; if (who >= 0){ if (t[0] != '0' + who || t[1] != '.') continue; t += 2; } if (!strncmp(t, k, l) && t[l] == '=') return t + l + 1; } return NULL; }
static long geti(const char *k, long d){ const char *v = get(k); return v ? strtol(v, NULL, 0) : d; }
static int hexv(int c){ return c<='9'? c-'0' : (c|32)-'a'+10; }
static void arm(int on){ vio_arm = on && (get("oom") || get("oomall")); }
static void put_places(sb *b){ sb_printf(b, ",\"pl\":["); for (int i = 0; i < vio_places; i++) sb_printf(b, "%s%ld,%ld", i ? "," : "", vio_first[i], vio_last[i]); sb_printf(b, "]"); }
static void put_na(void){ if (get("oom") || get("oomall")) sb_printf(&out, ",\"na\":%ld", vio_allocs); if (geti("oom", 0) == -1) put_places(&out); }
static size_t unhex(const char *s, unsigned char *o){ size_t n = 0; while (s && s[0] && s[1] && s[0] != ':'){ o[n++] = hexv(s[0])*16 + hexv(s[1]); s += 2; } return n; }

static void put_frame(sb *b, mbus_frame *f){
    // only the fields that the frame's type gives a meaning to
    sb_printf(b, "{\"t\":%d", f->type);
    if (f->type == MBUS_FRAME_TYPE_SHORT || f->type == MBUS_FRAME_TYPE_CONTROL || f->type == MBUS_FRAME_TYPE_LONG)
        sb_printf(b, ",\"c\":%d,\"a\":%d", f->control, f->address);
    if (f->type == MBUS_FRAME_TYPE_CONTROL || f->type == MBUS_FRAME_TYPE_LONG){
        sb_printf(b, ",\"ci\":%d,\"d\":", f->control_information); sb_bytes(b, f->data, f->data_size > 252 ? 252 : f->data_size); }
    unsigned char w[300]; size_t n = 0, k;
    if (f->type == MBUS_FRAME_TYPE_ACK) w[n++] = 0xE5;
    else if (f->type == MBUS_FRAME_TYPE_SHORT){ w[n++] = 0x10; w[n++] = f->control; w[n++] = f->address; w[n++] = f->control + f->address; w[n++] = 0x16; }
    else { size_t l = f->type == MBUS_FRAME_TYPE_LONG && f->data_size <= 252 ? f->data_size : 0; unsigned char c = 0;
        w[n++] = 0x68; w[n++] = l + 3; w[n++] = l + 3; w[n++] = 0x68; w[n++] = f->control; w[n++] = f->address; w[n++] = f->control_information; memcpy(w + n, f->data, l); n += l;
        for (k = 4; k < n; k++) c += w[k];
        w[n++] = c; w[n++] = 0x16; }
    int m = vio_moment(f->timestamp, w, n); sb_printf(b, ",\"ts\":%d}", m > 0 && geti("bare", 0) ? 1 : m); }
static void put_chain(sb *b, mbus_frame *f){
    sb_printf(b, "["); int n = 0; for (; f && n < 600; f = f->next, n++){ if (n) sb_printf(b, ","); put_frame(b, f); } sb_printf(b, "]"); }

// ------------------------------------------------------------------ pure operations
static void put_parsed(mbus_frame *f){
    sb_printf(&out, ",\"t\":%d,\"s1\":%d", f->type, f->start1);
    if (f->type != MBUS_FRAME_TYPE_ACK) sb_printf(&out, ",\"c\":%d,\"a\":%d,\"ck\":%d,\"st\":%d", f->control, f->address, f->checksum, f->stop);
    if (f->type == MBUS_FRAME_TYPE_LONG || f->type == MBUS_FRAME_TYPE_CONTROL){
        sb_printf(&out, ",\"s2\":%d,\"l1\":%d,\"l2\":%d,\"ci\":%d,\"d\":", f->start2, f->length1, f->length2, f->control_information); sb_bytes(&out, f->data, f->data_size > 252 ? 252 : f->data_size);
        sb_printf(&out, ",\"n\":%ld", (long)f->data_size); } }
static void op_parse(void){
    unsigned char *d = malloc(1); size_t n; const char *h = get("d"); free(d);
    d = malloc(strlen(h) / 2 + 1); n = unhex(h, d); unsigned char *x = malloc(n ? n : 1); memcpy(x, d, n); free(d);
    mbus_frame *f = malloc(sizeof *f); memset(f, 0, sizeof *f);
    if (get("junk")) memset(f, 0xA5, sizeof *f);
    f->next = NULL;
    int r = mbus_parse(f, x, n);
    sb_printf(&out, ",\"r\":%d", r < 0 ? -1 : r);
    if (r == 0){
        put_parsed(f);
    }
    free(f); free(x); }

static mbus_frame *mk_frame(void){
    mbus_frame *f = mbus_frame_new(geti("t", 0)); if (!f) return NULL;
    f->control = geti("c", 0); f->address = geti("a", 0); f->control_information = geti("ci", 0);
    if (get("d")) f->data_size = unhex(get("d"), f->data);
    return f; }
static void op_pack(void){
    mbus_frame *f = mk_frame(); size_t n = geti("n", 300); unsigned char *buf = malloc(n ? n : 1);
    memset(buf, 0xEE, n ? n : 1);
    int r = mbus_frame_pack(f, buf, n);
    sb_printf(&out, ",\"r\":%d", r < 0 ? -1 : r);
    if (r >= 0){
        sb_printf(&out, ",\"w\":"); sb_bytes(&out, buf, (size_t)r > n ? n : (size_t)r);
        // the image decodes to the same telegram
        mbus_frame *g = malloc(sizeof *g); memset(g, 0, sizeof *g);
        int p = mbus_parse(g, buf, r);
        sb_printf(&out, ",\"p\":%d", p < 0 ? -1 : p);
        if (p == 0){ sb_printf(&out, ",\"f\":"); put_frame(&out, g); }
        int v = mbus_frame_verify(f);
        sb_printf(&out, ",\"v\":%d", v == 0 ? 0 : 1);
        free(g);
    } else { int clean = 1; for (size_t i = 0; i < n; i++) clean &= buf[i] == 0xEE; sb_printf(&out, ",\"clean\":%d", clean); }
    free(buf); mbus_frame_free(f); }
static void op_verify(void){
    mbus_frame *f = mk_frame();
    mbus_frame_calc_length(f); mbus_frame_calc_checksum(f);
    if (get("s1")) f->start1 = geti("s1", 0);
    if (get("s2")) f->start2 = geti("s2", 0);
    if (get("l1")) f->length1 = geti("l1", 0);
    if (get("l2")) f->length2 = geti("l2", 0);
    if (get("ck")) f->checksum = geti("ck", 0);
    if (get("st")) f->stop = geti("st", 0);
    sb_printf(&out, ",\"s1\":%d,\"s2\":%d,\"l1\":%d,\"l2\":%d,\"ck\":%d,\"st\":%d", f->start1, f->start2, f->length1, f->length2, f->checksum, f->stop);
    sb_printf(&out, ",\"v\":%d", mbus_frame_verify(f) == 0 ? 0 : 1);
    mbus_frame_free(f); }

static void put_double(sb *b, double v){
    // decimal scientific notation with 15 significant digits, as mantissa digits and exponent
    char t[64]; snprintf(t, sizeof t, "%.14e", v);
    if (!strchr(t, 'e')){ sb_printf(b, "{\"k\":\"%s\"}", strchr(t, 'n') && strchr(t,'a') ? "nan" : t[0] == '-' ? "-inf" : "inf"); return; }
    char *e = strchr(t, 'e'); int ex = atoi(e + 1); char m[32]; int k = 0; int neg = t[0] == '-';
    for (char *p = t + neg; p < e; p++) if (*p != '.') m[k++] = *p;
    m[k] = 0;
    sb_printf(b, "{\"k\":\"num\",\"s\":%d,\"m\":[", neg);
    for (int i = 0; i < k; i++) sb_printf(b, "%s%c", i ? "," : "", m[i]);
    sb_printf(b, "],\"x\":%d}", ex); }
static void put_norm(sb *b, mbus_record *n){
    if (!n){ sb_printf(b, "{\"ok\":0}"); return; }
    sb_printf(b, "{\"ok\":1,\"num\":%d,\"fn\":", n->is_numeric ? 1 : 0); sb_text(b, n->function_medium);
    sb_printf(b, ",\"unit\":"); sb_text(b, n->unit); sb_printf(b, ",\"qty\":"); sb_text(b, n->quantity);
    sb_printf(b, ",\"dev\":%d,\"tar\":\"%ld\",\"sto\":\"%ld\"", n->device, n->tariff, n->storage_number);
    if (n->is_numeric){ sb_printf(b, ",\"val\":"); put_double(b, n->value.real_val); }
    else { sb_printf(b, ",\"str\":"); sb_text(b, n->value.str_val.value); }
    sb_printf(b, "}"); }
static void put_record(sb *b, mbus_data_record *r, int norm){
    sb_printf(b, "{\"dif\":%d,\"dife\":", r->drh.dib.dif); sb_bytes(b, r->drh.dib.dife, r->drh.dib.ndife);
    sb_printf(b, ",\"vif\":%d,\"vife\":", r->drh.vib.vif); sb_bytes(b, r->drh.vib.vife, r->drh.vib.nvife);
    sb_printf(b, ",\"cust\":"); sb_text(b, (r->drh.vib.vif & 0x7F) == 0x7C ? (char*)r->drh.vib.custom_vif : "");
    sb_printf(b, ",\"d\":"); sb_bytes(b, r->data, r->data_len > 253 ? 253 : r->data_len); sb_printf(b, ",\"ts\":%d", r->timestamp == vio_now);
    if (norm){
        sb_printf(b, ",\"fn\":"); sb_text(b, mbus_data_record_function(r));
        sb_printf(b, ",\"sto\":\"%ld\",\"tar\":\"%ld\",\"dev\":%d", mbus_data_record_storage_number(r), mbus_data_record_tariff(r), mbus_data_record_device(r));
        sb_printf(b, ",\"unit\":"); sb_text(b, mbus_data_record_unit(r)); sb_printf(b, ",\"val\":"); sb_text(b, mbus_data_record_value(r));
        mbus_record *n = mbus_parse_variable_record(r); sb_printf(b, ",\"norm\":"); put_norm(b, n); if (n) mbus_record_free(n);
    }
    sb_printf(b, "}"); }
static mbus_frame *data_frame(const char *h, int ci){
    mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_LONG); memset(f->data, 0x5A, sizeof f->data);
    f->control = 0x08; f->address = geti("a", 1); f->control_information = ci; f->data_size = unhex(h, f->data); f->timestamp = vio_now;
    return f; }
static void put_reply(mbus_frame_data *fd, int norm){
    if (fd->type == MBUS_DATA_TYPE_VARIABLE){
        mbus_data_variable *v = &fd->data_var; mbus_data_variable_header *h = &v->header;
        sb_printf(&out, ",\"k\":\"var\",\"hdr\":["); unsigned char hb[12] = { h->id_bcd[0],h->id_bcd[1],h->id_bcd[2],h->id_bcd[3],h->manufacturer[0],h->manufacturer[1],h->version,h->medium,h->access_no,h->status,h->signature[0],h->signature[1]};
        for (int i = 0; i < 12; i++) sb_printf(&out, "%s%d", i ? "," : "", hb[i]);
        sb_printf(&out, "],\"nrec\":%ld,\"more\":%d,\"recs\":[", (long)v->nrecords, v->more_records_follow ? 1 : 0);
        int k = 0; for (mbus_data_record *x = v->record; x; x = x->next, k++){ if (k) sb_printf(&out, ","); put_record(&out, x, norm); }
        sb_printf(&out, "]");
    } else if (fd->type == MBUS_DATA_TYPE_FIXED){
        mbus_data_fixed *x = &fd->data_fix;
        sb_printf(&out, ",\"k\":\"fix\",\"idn\":"); sb_bytes(&out, x->id_bcd, 4);
        sb_printf(&out, ",\"acc\":%d,\"sta\":%d,\"t1\":%d,\"t2\":%d,\"v1\":", x->tx_cnt, x->status, x->cnt1_type, x->cnt2_type); sb_bytes(&out, x->cnt1_val, 4);
        sb_printf(&out, ",\"v2\":"); sb_bytes(&out, x->cnt2_val, 4);
        if (norm){
            sb_printf(&out, ",\"medium\":"); sb_text(&out, mbus_data_fixed_medium(x));
            sb_printf(&out, ",\"fn\":"); sb_text(&out, mbus_data_fixed_function(x->status));
            sb_printf(&out, ",\"u1\":"); sb_text(&out, mbus_data_fixed_unit(x->cnt1_type)); sb_printf(&out, ",\"u2\":"); sb_text(&out, mbus_data_fixed_unit(x->cnt2_type));
            mbus_record *n = mbus_parse_fixed_record(x->status, x->cnt1_type, x->cnt1_val); sb_printf(&out, ",\"n1\":"); put_norm(&out, n); if (n) mbus_record_free(n);
            n = mbus_parse_fixed_record(x->status, x->cnt2_type, x->cnt2_val); sb_printf(&out, ",\"n2\":"); put_norm(&out, n); if (n) mbus_record_free(n);
        }
    } else sb_printf(&out, ",\"k\":\"err\",\"err\":%d", fd->error); }
static void op_vdata(int norm){
    mbus_frame *f = data_frame(get("d"), geti("ci", 0x72));
    if (get("c")) f->control = geti("c", 8);
    mbus_frame_data *fd = mbus_frame_data_new(); arm(1);
    int r = mbus_frame_data_parse(f, fd);
    sb_printf(&out, ",\"r\":%d", r == 0 ? 0 : -1);
    if (r == 0){
        put_reply(fd, norm);
        if (get("repack")){
            mbus_frame *g = mbus_frame_new(MBUS_FRAME_TYPE_LONG); g->control = 8; g->address = 1; g->control_information = geti("ci", 0x72);
            int p = mbus_frame_internal_pack(g, fd); sb_printf(&out, ",\"rp\":%d", p == 0 ? 0 : -1);
            if (p == 0){ sb_printf(&out, ",\"rd\":"); sb_bytes(&out, g->data, g->data_size > 252 ? 252 : g->data_size); }
            mbus_frame_free(g); }
    }
    arm(0); put_na();
    if (r != 0 && fd->type == MBUS_DATA_TYPE_VARIABLE && fd->data_var.record){ mbus_data_record_free(fd->data_var.record); fd->data_var.record = NULL; }
    if (fd->type != MBUS_DATA_TYPE_VARIABLE) fd->data_var.record = NULL;
    mbus_frame_data_free(fd); mbus_frame_free(f);
    sb_printf(&out, ",\"live\":%ld", vio_live); }

static void put_xml(const char *key, char *x){
    sb_printf(&out, ",\"%s\":", key);
    if (!x) sb_printf(&out, "\"%%NULL\""); else { sb_text(&out, x); free(x); } }
// hex,hex,... : data payloads, each prefixed with the control and the ci byte; chain of frames
static mbus_frame *mk_chain(const char *s, const char *when){
    mbus_frame *head = NULL, *last = NULL; unsigned char tmp[1024]; static char one[4096];
    while (s && *s){
        size_t l = strcspn(s, ","); memcpy(one, s, l); one[l] = 0; size_t n = unhex(one, tmp);
        mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_LONG); memset(f->data, 0x5A, sizeof f->data);
        f->control = tmp[0]; f->address = 1; f->control_information = tmp[1]; f->data_size = n - 2; memcpy(f->data, tmp + 2, n - 2); f->timestamp = when ? strtol(when, (char**)&when, 10) : vio_now; if (when && *when == ',') when++;
        if (last) last->next = f; else head = f; last = f;
        s += l; if (*s == ',') s++;
    }
    return head; }
static void op_xml(void){
    mbus_frame *head = mk_chain(get("fr"), get("at"));
    arm(1); put_xml("chain", mbus_frame_xml(head));
    // single telegram renderers on the first frame
    mbus_frame_data *fd = mbus_frame_data_new();
    int r = mbus_frame_data_parse(head, fd);
    if (r == 0){ put_xml("raw", mbus_frame_data_xml(fd)); put_xml("norm", mbus_frame_data_xml_normalized(fd)); }
    arm(0); put_na();
    if (fd->type == MBUS_DATA_TYPE_VARIABLE && fd->data_var.record){ mbus_data_record_free(fd->data_var.record); }
    fd->data_var.record = NULL;
    mbus_frame_data_free(fd);
    mbus_frame_free(head);
    sb_printf(&out, ",\"live\":%ld", vio_live); }
// objects held in places: !mP:K:… makes one (F image, D control ci data, C chain, X document of a chain, d data of the telegram in a place,
// x document of the chain in a place, N record of the data in a place; f, c and e give the telegram, the first of the chain
// or the data in this place other content), !sP shows it, !rP releases it
static void drop_data(mbus_frame_data *fd, int r){
    if (r != 0 && fd->type == MBUS_DATA_TYPE_VARIABLE && fd->data_var.record){ mbus_data_record_free(fd->data_var.record); fd->data_var.record = NULL; }
    if (fd->type != MBUS_DATA_TYPE_VARIABLE) fd->data_var.record = NULL;
    mbus_frame_data_free(fd); }
static void op_objects(void){
    struct { char k; void *p; } held[10]; memset(held, 0, sizeof held); int first = 1;
    sb_printf(&out, ",\"steps\":[");
    for (int i = 0; i < nt; i++) if (tok[i][0] == '!'){
        char *a = tok[i] + 1; int at = a[1] - '0'; sb_printf(&out, "%s{\"j\":%d", first ? "" : ",", i); first = 0;
        if (a[0] == 'm'){
            char kind = a[3]; const char *x = a + 5; void *p = NULL; int named = 0;
            switch (kind){
            case 'F': { size_t n = strlen(x) / 2; unsigned char *b = malloc(n + 1), *w; n = unhex(x, b); w = malloc(n ? n : 1); memcpy(w, b, n); free(b);
                        mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); int r = mbus_parse(f, w, n); f->timestamp = vio_now; free(w);
                        if (r == 0) p = f; else mbus_frame_free(f); break; }
            case 'f': { size_t n = strlen(x) / 2; unsigned char *w = malloc(n ? n : 1); n = unhex(x, w); if (held[at].k == 'F' && mbus_parse(held[at].p, w, n) == 0) p = held[at].p; free(w); kind = 'F'; break; }
            case 'c': if (held[at].k == 'C'){ mbus_frame *f = held[at].p; static unsigned char one[300]; size_t n = unhex(x, one); f->control = one[0]; f->control_information = one[1]; f->data_size = n - 2; memcpy(f->data, one + 2, n - 2); p = f; } kind = 'C'; break;
            case 'D': { char *e; int c = strtol(x, &e, 10), ci = strtol(e + 1, &e, 10); mbus_frame *f = data_frame(e + 1, ci); f->control = c;
                        mbus_frame_data *fd = mbus_frame_data_new(); int r = mbus_frame_data_parse(f, fd); mbus_frame_free(f); if (r == 0) p = fd; else drop_data(fd, r); break; }
            case 'e': if (held[at].k == 'D' || held[at].k == 'd'){ mbus_frame_data *fd = held[at].p; if (fd->type == MBUS_DATA_TYPE_VARIABLE && fd->data_var.record) mbus_data_record_free(fd->data_var.record); fd->data_var.record = NULL;
                        char *e; int c = strtol(x, &e, 10), ci = strtol(e + 1, &e, 10); mbus_frame *f = data_frame(e + 1, ci); f->control = c;
                        int r = mbus_frame_data_parse(f, fd); mbus_frame_free(f); if (r == 0) p = fd; else drop_data(fd, r); } kind = 'D'; break;
            case 'd': { if (held[*x - '0'].k != 'F') break; mbus_frame_data *fd = mbus_frame_data_new(); int r = mbus_frame_data_parse(held[*x - '0'].p, fd); if (r == 0) p = fd; else drop_data(fd, r); break; }
            case 'C': p = mk_chain(x, NULL); break;
            case 'X': { mbus_frame *f = mk_chain(x, NULL); p = mbus_frame_xml(f); mbus_frame_free(f); break; }
            case 'x': if (held[*x - '0'].k == 'C') p = mbus_frame_xml(held[*x - '0'].p); break;
            case 'N': { char of = held[*x - '0'].k; mbus_frame_data *fd = held[*x - '0'].p; mbus_data_record *r = (of == 'D' || of == 'd') && fd->type == MBUS_DATA_TYPE_VARIABLE ? fd->data_var.record : NULL;
                        for (int n = atoi(x + 2); n > 1 && r; n--) r = r->next;
                        if (r){ p = mbus_parse_variable_record(r); named = 1; } break; }
            }
            held[at].k = p || named ? kind : 0; held[at].p = p; sb_printf(&out, ",\"r\":%d", held[at].k ? 0 : -1);
        } else if (a[0] == 's') switch (held[at].k){
            case 'F': sb_printf(&out, ",\"r\":0"); put_parsed(held[at].p); break;
            case 'D': case 'd': sb_printf(&out, ",\"r\":0"); put_reply(held[at].p, 1); break;
            case 'C': put_xml("chain", mbus_frame_xml(held[at].p)); break;
            case 'X': case 'x': sb_printf(&out, ",\"chain\":"); sb_text(&out, held[at].p); break;
            case 'N': sb_printf(&out, ",\"norm\":"); put_norm(&out, held[at].p); break;
        } else {
            switch (held[at].k){ case 'F': case 'C': mbus_frame_free(held[at].p); break; case 'D': case 'd': drop_data(held[at].p, 0); break; case 'X': case 'x': free(held[at].p); break; case 'N': if (held[at].p) mbus_record_free(held[at].p); break; }
            held[at].k = 0; held[at].p = NULL;
        }
        sb_printf(&out, "}");
    }
    sb_printf(&out, "],\"live\":%ld", vio_live); }
static void op_hex2bin(void){
    const char *h = get("d"); unsigned char *src = malloc(strlen(h) / 2 + 1); size_t n = unhex(h, src);
    unsigned char *s2 = malloc(n ? n : 1); memcpy(s2, src, n); size_t m = geti("n", 16); unsigned char *dst = malloc(m ? m : 1); memset(dst, 0xEE, m ? m : 1);
    size_t r = mbus_hex2bin(dst, m, s2, n);
    sb_printf(&out, ",\"r\":%ld,\"w\":", (long)r); sb_bytes(&out, dst, m); free(src); free(s2); free(dst); }
static char *untext(const char *k){ const char *h = get(k); if (!h) return NULL; char *s = malloc(strlen(h) / 2 + 1); size_t n = unhex(h, (unsigned char*)s); s[n] = 0; return s; }
static void op_addr(void){
    char *s = untext("s");
    mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_LONG); memset(f->data, 0x5A, sizeof f->data);
    sb_printf(&out, ",\"is\":%d", mbus_is_secondary_address(s) ? 1 : 0);
    int r = mbus_frame_select_secondary_pack(f, s); sb_printf(&out, ",\"r\":%d", r == 0 ? 0 : -1);
    if (r == 0){ sb_printf(&out, ",\"f\":"); put_frame(&out, f); }
    mbus_frame_free(f); free(s); }
static void op_getaddr(void){
    mbus_frame *f = data_frame(get("d"), geti("ci", 0x72)); if (get("c")) f->control = geti("c", 8);
    arm(1); char *a = mbus_frame_get_secondary_address(f); arm(0); put_na(); sb_printf(&out, ",\"addr\":"); sb_text(&out, a);
    if (a){ char keep[40]; snprintf(keep, sizeof keep, "%s", a); mbus_frame *g = mbus_frame_new(MBUS_FRAME_TYPE_LONG);
        int r = mbus_frame_select_secondary_pack(g, keep); sb_printf(&out, ",\"r\":%d", r == 0 ? 0 : -1);
        if (r == 0){ sb_printf(&out, ",\"f\":"); put_frame(&out, g); } mbus_frame_free(g); }
    mbus_frame_free(f); sb_printf(&out, ",\"live\":%ld", vio_live); }
static void op_num(void){
    int n = geti("n", 1); int v = (int)geti("v", 0); unsigned char *b = malloc(n); int w;
    int r = mbus_data_int_encode(b, n, v); sb_printf(&out, ",\"ir\":%d,\"ib\":", r); sb_bytes(&out, b, n);
    if (n <= 4){ mbus_data_int_decode(b, n, &w); sb_printf(&out, ",\"iv\":%d", w); }
    r = mbus_data_bcd_encode(b, n, v); sb_printf(&out, ",\"br\":%d,\"bb\":", r); sb_bytes(&out, b, n);
    sb_printf(&out, ",\"bd\":\"%lld\"", mbus_data_bcd_decode(b, n)); free(b); }
static void op_man(void){
    unsigned char b[2]; char *s = untext("s"); unsigned id = mbus_manufacturer_id(s); sb_printf(&out, ",\"man\":%u", id);
    if (id){ mbus_data_manufacturer_encode(b, (unsigned char*)s); sb_printf(&out, ",\"e\":"); sb_bytes(&out, b, 2); }
    free(s); }
static void op_manr(void){ sb_printf(&out, ",\"t\":"); sb_text(&out, mbus_decode_manufacturer(geti("a",0), geti("b",0))); }
static void op_lookup(void){
    mbus_data_variable_header h; memset(&h, 0, sizeof h);
    h.manufacturer[0] = geti("m0",0); h.manufacturer[1] = geti("m1",0); h.version = geti("ver",0); h.medium = geti("med",0);
    unsigned char id[4]; if (get("idh")){ unhex(get("idh"), id); memcpy(h.id_bcd, id, 4); }
    sb_printf(&out, ",\"prod\":"); sb_text(&out, mbus_data_product_name(&h));
    sb_printf(&out, ",\"medium\":"); sb_text(&out, mbus_data_variable_medium_lookup(h.medium));
    sb_printf(&out, ",\"err\":"); sb_text(&out, mbus_data_error_lookup(geti("err",0))); }
static void op_frames(void){
    // frame construction defaults and slave register
    mbus_frame *f = mbus_frame_new(geti("t",0)); sb_printf(&out, ",\"type\":%d,\"dir\":%d,\"s1\":%d,\"s2\":%d,\"st\":%d", mbus_frame_type(f), mbus_frame_direction(f), f->start1, f->start2, f->stop);
    mbus_frame_free(f); sb_printf(&out, ",\"nul\":[%d,%d,%d]", mbus_frame_type(NULL), mbus_frame_direction(NULL), mbus_frame_free(NULL)); }

// ------------------------------------------------------------------ sessions
static mbus_handle *H, *HS[VIO_MAXLINES]; static int is_ser, is_sers[VIO_MAXLINES], nh = 1, at;
static int line_of(mbus_handle *h){ for (int i = 0; i < nh; i++) if ((i == at ? H : HS[i]) == h) return i; return at; }
// the names are the caller's only as long as the call lasts
static mbus_handle *new_handle(const char *place, unsigned port){
    char *n = __real_malloc(place ? strlen(place) + 32 : 32); size_t l;
    if (place) strcpy(n, place); else sprintf(n, nh > 1 ? is_ser ? "/dev/virtual%d" : "gateway%d.test" : is_ser ? "/dev/virtual" : "gateway.test", at);
    vio_place(place); l = strlen(n);
    mbus_handle *h = is_ser ? mbus_context_serial(n) : mbus_context_tcp(n, port); memset(n, '?', l); __real_free(n); return h; }
// traffic dumped on standard error becomes an event of the callback that dumped it: the bytes are those of the dump
static int errfd = -1, olderr = -1; static off_t errat;
int __real_close(int); ssize_t __real_read(int, void*, size_t);
static int dump_line(const char *s){
    const char *k = strstr(s, "] "); if (*s != '[' || !k) return 0; k += 2;
    int send = !strncmp(k, "SEND (", 6); if (!send && strncmp(k, "RECV (", 6)) return 0;
    char *e; long n = strtol(k + 6, &e, 10), m = 0; if (strncmp(e, "):", 2)) return 0; e += 2;
    static unsigned char b[5000]; while (*e == ' ' && isxdigit(e[1]) && isxdigit(e[2]) && m < 5000){ b[m++] = hexv(e[1]) * 16 + hexv(e[2]); e += 3; }
    ev_begin(*e || m != n ? "baddump" : send ? "scb" : "rcb"); sb_printf(&ev, ",\"k\":%d,\"d\":", is_ser); sb_bytes(&ev, b, m); ev_end(); return 1; }
static void take_dumps(void){
    static int busy; if (busy || errfd < 0) return; busy = 1; static char b[70000];
    ssize_t n = pread(errfd, b, sizeof b - 1, errat); b[n > 0 ? n : 0] = 0;
    for (char *p = b, *q; (q = strchr(p, '\n')); p = q + 1){ *q = 0; errat += q + 1 - p; dump_line(p); }
    busy = 0; }
static void err_begin(void){ fflush(stderr); errfd = memfd_create("err", 0); olderr = dup(2); dup2(errfd, 2); errat = 0; }
static void err_end(void){ fflush(stderr); dup2(olderr, 2); __real_close(olderr); __real_close(errfd); errfd = -1; }
static int capfd = -1;
static long fcntl_size(int fd){ struct stat st; fstat(fd, &st); return st.st_size; }
static void cap_reset(void){ fflush(stdout); if (ftruncate(capfd, 0)) abort(); lseek(capfd, 0, SEEK_SET); }
static void cap_event(void){
    fflush(stdout); struct stat st; fstat(capfd, &st); if (!st.st_size) return;
    static char b[65536]; ssize_t __real_read(int,void*,size_t); lseek(capfd, 0, SEEK_SET); ssize_t n = __real_read(capfd, b, sizeof b - 1); b[n > 0 ? n : 0] = 0;
    ev_begin("out"); sb_printf(&ev, ",\"s\":"); sb_text(&ev, b); ev_end(); cap_reset(); }
// every handle has callbacks of its own: what one of them is told belongs to the line it was registered for (and is nobody's when told about another)
static void told_bytes(const char *e, int line, unsigned char k, const char *b, size_t n){ int old = vio_use(line); ev_begin(e); sb_printf(&ev, ",\"k\":%d,\"d\":", k); sb_bytes(&ev, (const unsigned char*)b, n > 4096 ? 4096 : n); ev_end(); vio_use(old); }
static void told_mask(mbus_handle *h, int line, const char *m){ int old = vio_use(line); ev_begin(line_of(h) == line ? "prog" : "badprog"); sb_printf(&ev, ",\"m\":"); sb_text(&ev, m); ev_end(); vio_use(old); }
static void told_found(mbus_handle *h, int line, mbus_frame *f){ int old = vio_use(line); ev_begin(line_of(h) == line ? "found" : "badfound"); sb_printf(&ev, ",\"f\":"); put_frame(&ev, f); ev_end(); vio_use(old); }
#define CALLBACKS(n) \
    static void on_send##n(unsigned char k, const char *b, size_t l){ told_bytes("scb", n, k, b, l); } \
    static void on_recv##n(unsigned char k, const char *b, size_t l){ told_bytes("rcb", n, k, b, l); } \
    static void on_prog##n(mbus_handle *h, const char *m){ told_mask(h, n, m); } \
    static void on_found##n(mbus_handle *h, mbus_frame *f){ told_found(h, n, f); }
CALLBACKS(0) CALLBACKS(1) CALLBACKS(2)
static void (*const on_send[])(unsigned char, const char*, size_t) = { on_send0, on_send1, on_send2 }, (*const on_recv[])(unsigned char, const char*, size_t) = { on_recv0, on_recv1, on_recv2 };
static void (*const on_prog[])(mbus_handle*, const char*) = { on_prog0, on_prog1, on_prog2 }; static void (*const on_found[])(mbus_handle*, mbus_frame*) = { on_found0, on_found1, on_found2 };
static char *arg[16]; static int na;
static void ret(long v){ ev_begin("ret"); sb_printf(&ev, ",\"v\":%ld,\"lb\":%ld,\"li\":%ld", v, (long)vio_left_bytes(), (long)vio_left_items()); }
static long A(int i, long d){ return i < na && arg[i][0] ? strtol(arg[i], NULL, 0) : d; }
#define USED 77        // the moment of what the frame was used for before
static void run_op(char *s){
    na = 0; for (char *p = s; p; ){ arg[na++] = p; p = strchr(p, ':'); if (p) *p++ = 0; }
    const char *o = arg[0];
    ev_begin("call"); sb_printf(&ev, ",\"op\":\"%s\",\"a\":[", o); for (int i = 1; i < na; i++){ if (i > 1) sb_printf(&ev, ","); sb_text(&ev, arg[i]); } sb_printf(&ev, "]"); ev_end();
    unsigned char tmp[4096]; char mask[40] = "";
    if (!strcmp(o, "recv")){ mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); f->timestamp = USED; int r = mbus_recv_frame(H, f); ret(r); if (r == 0){ sb_printf(&ev, ",\"f\":"); put_frame(&ev, f); } else sb_printf(&ev, ",\"f\":{\"t\":-1}"); ev_end(); mbus_frame_free(f); }
    else if (!strcmp(o, "recvn")){ ret(mbus_recv_frame(H, NULL)); ev_end(); }
    else if (!strcmp(o, "drecv")){ mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); int r = H->recv(H, f); ret(r); if (r == 0){ sb_printf(&ev, ",\"f\":"); put_frame(&ev, f); } else sb_printf(&ev, ",\"f\":{\"t\":-1}"); ev_end(); mbus_frame_free(f); }
    else if (!strcmp(o, "purge")){ ret(mbus_purge_frames(H)); ev_end(); }
    else if (!strcmp(o, "sendn")){ ret(mbus_send_frame(H, NULL)); ev_end(); }
    else if (!strcmp(o, "select")){ ret(mbus_select_secondary_address(H, arg[1])); ev_end(); }
    else if (!strcmp(o, "probe")){ memset(mask, '?', 39); mask[39] = 0; int r = mbus_probe_secondary_address(H, arg[1], mask); ret(r); sb_printf(&ev, ",\"m\":"); if (r == MBUS_PROBE_SINGLE) sb_text(&ev, mask); else sb_printf(&ev, "\"\""); ev_end(); }
    else if (!strcmp(o, "scan")){ snprintf(mask, sizeof mask, "%s", arg[2]); ret(mbus_scan_2nd_address_range(H, A(1,0), mask)); sb_printf(&ev, ",\"m\":"); sb_text(&ev, mask); ev_end(); }
    else if (!strcmp(o, "rr")){ mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); f->timestamp = USED; int r = mbus_sendrecv_request(H, A(1,0), f, A(2,0)); ret(r); sb_printf(&ev, ",\"ch\":"); if (r == 0) put_chain(&ev, f); else sb_printf(&ev, "[]"); ev_end(); mbus_frame_free(f); }
    else if (!strcmp(o, "read")){ mbus_address ad; memset(&ad, 0, sizeof ad); if (!strcmp(arg[1], "p")){ ad.is_primary = 1; ad.primary = A(2,0); } else { ad.is_primary = 0; ad.secondary = arg[2][0] ? arg[2] : NULL; }
        mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); f->timestamp = USED; int r = mbus_read_slave(H, &ad, f); ret(r); if (r == 0){ sb_printf(&ev, ",\"f\":"); put_frame(&ev, f); } else sb_printf(&ev, ",\"f\":{\"t\":-1}"); ev_end(); mbus_frame_free(f); }
    else if (!strcmp(o, "ping")){ ret(mbus_send_ping_frame(H, A(1,0), A(2,0))); ev_end(); }
    else if (!strcmp(o, "req")){ ret(mbus_send_request_frame(H, A(1,0))); ev_end(); }
    else if (!strcmp(o, "ud")){ size_t n = na > 2 ? unhex(arg[2], tmp) : 0; unsigned char *x = malloc(n ? n : 1); memcpy(x, tmp, n); int r = mbus_send_user_data_frame(H, A(1,0), (na > 3 && arg[3][0] == 'n') ? NULL : x, n); free(x); ret(r); ev_end(); }
    else if (!strcmp(o, "areset")){ ret(mbus_send_application_reset_frame(H, A(1,0), A(2,-1))); ev_end(); }
    else if (!strcmp(o, "baud")){ ret(mbus_send_switch_baudrate_frame(H, A(1,0), A(2,0))); ev_end(); }
    else if (!strcmp(o, "setaddr")){ ret(mbus_set_primary_address(H, A(1,0), A(2,0))); ev_end(); }
    else if (!strcmp(o, "selframe")){ ret(mbus_send_select_frame(H, arg[1])); ev_end(); }
    else if (!strcmp(o, "setbaud")){ ret(mbus_serial_set_baudrate(H, A(1,0))); ev_end(); }
    else if (!strcmp(o, "tmo")){ ret(mbus_tcp_set_timeout_set(A(1,0) / 1000.0)); ev_end(); }
    else if (!strcmp(o, "opt")){ ret(mbus_context_set_option(H, A(1,0), A(2,0))); ev_end(); }
    else if (!strcmp(o, "connect")){ ret(mbus_connect(H)); ev_end(); }
    else if (!strcmp(o, "disconnect")){ ret(mbus_disconnect(H)); ev_end(); }
    else if (!strcmp(o, "new")){ if (na > 1){ tmp[unhex(arg[1], tmp)] = 0; H = new_handle((char*)tmp, A(2,0)); } else H = new_handle(NULL, 10001); ret(H ? 0 : -1); ev_end(); }
    else if (!strcmp(o, "free")){ mbus_context_free(H); H = NULL; ret(0); ev_end(); }
    else if (!strcmp(o, "null")){ // every operation on a missing handle
        mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_SHORT); f->control = 0x40; mbus_address ad; memset(&ad, 0, sizeof ad); ad.is_primary = 1;
        char m[17] = "FFFFFFFFFFFFFFFF";
        int v[8] = { mbus_connect(NULL), mbus_disconnect(NULL), mbus_context_set_option(NULL, 0, 1), mbus_recv_frame(NULL, f), mbus_send_frame(NULL, f), mbus_sendrecv_request(NULL, 1, f, 1), mbus_read_slave(NULL, &ad, f), mbus_scan_2nd_address_range(NULL, 0, m) };
        mbus_context_free(NULL); int bad = 0; for (int i = 0; i < 8; i++) bad |= (v[i] == 0) << i; mbus_frame_free(f); ret(bad); ev_end(); }
    else if (!strcmp(o, "cb")){ if (A(1,0)){ mbus_register_send_event(H, on_send[at]); mbus_register_recv_event(H, on_recv[at]); } else { mbus_register_send_event(H, NULL); mbus_register_recv_event(H, NULL); }
        mbus_register_found_event(H, A(2,1) ? on_found : NULL); mbus_register_scan_progress(H, A(2,1) ? on_prog : NULL); ret(0); ev_end(); }
    else { ev_add("{\"e\":\"unknown-op\"}"); }
}
static void run_send(char *s){
    na = 0; for (char *p = s; p; ){ arg[na++] = p; p = strchr(p, ':'); if (p) *p++ = 0; }
    ev_begin("call"); sb_printf(&ev, ",\"op\":\"send\",\"a\":["); for (int i = 1; i < na; i++){ if (i > 1) sb_printf(&ev, ","); sb_text(&ev, arg[i]); } sb_printf(&ev, "]"); ev_end();
    mbus_frame *f = mbus_frame_new(A(1,0)); f->control = A(2,0); f->address = A(3,0); f->control_information = A(4,0); f->data_size = na > 5 ? unhex(arg[5], f->data) : 0;
    int r = mbus_send_frame(H, f); ret(r); ev_end(); mbus_frame_free(f); }

static void setup_line(void){
    is_ser = !strcmp(get("tr") ? get("tr") : "tcp", "ser"); vio_serial = is_ser;
    vio_tty = geti("tty", 1);
    if (get("w")) vio_writes(get("w"));
    if (get("open")) vio_opens(get("open"));
    if (get("tcs")) vio_tcset_results(get("tcs"));
    if (get("pre")) vio_queue(get("pre"));
    if (get("rep")) vio_replies(get("rep"));
    if (get("pop")) vio_pop(get("pop"));
    vio_cmode = geti("cm", 0); }
static void setup_env(void){ vio_reset(); vio_tick_write = 61; vio_tick_read = 1; vio_oom = geti("oom", 0); vio_oom_all = geti("oomall", 0); vio_fd0 = geti("fd0", 500); setup_line(); }
static void setup_handle(void){
    H = new_handle(NULL, 10001);
    mbus_connect(H);
    if (geti("cb", 1) == 2){ mbus_register_send_event(H, mbus_dump_send_event); mbus_register_recv_event(H, mbus_dump_recv_event); }
    else if (geti("cb", 1)){ mbus_register_send_event(H, on_send[at]); mbus_register_recv_event(H, on_recv[at]); }
    if (geti("fcb", 1)){ mbus_register_found_event(H, on_found[at]); mbus_register_scan_progress(H, on_prog[at]); }
    if (get("purge")) mbus_context_set_option(H, MBUS_OPTION_PURGE_FIRST_FRAME, geti("purge", 1));
    if (get("dr")) mbus_context_set_option(H, MBUS_OPTION_MAX_DATA_RETRY, geti("dr", 3));
    if (get("sr")) mbus_context_set_option(H, MBUS_OPTION_MAX_SEARCH_RETRY, geti("sr", 1)); }
static void turn_to(int k){ HS[at] = H; is_sers[at] = is_ser; at = k; H = HS[k]; is_ser = is_sers[k]; vio_use(k); }
static void op_sess(void){
    nh = geti("n", 1); int bare = !!get("bare"); if (nh > VIO_MAXLINES) abort();
    int dumps = geti("cb", 1) == 2; if (dumps) err_begin();
    setup_env(); vio_lines = nh; H = NULL; at = 0; memset(HS, 0, sizeof HS); cap_reset();
    if (nh > 1) for (int k = 0; k < nh; k++){ turn_to(k); who = k; setup_line(); if (!bare) setup_handle(); who = -1; }
    else if (!bare) setup_handle();
    turn_to(0); sb_reset(&ev);
    vio_allocs = 0; arm(1);
    // "@n" turns to handle n
    for (int i = 0; i < nt; i++) if (tok[i][0] == '!'){ if (tok[i][1] == '@'){ turn_to(tok[i][2] - '0'); continue; } if (!strncmp(tok[i], "!send:", 6)) run_send(tok[i] + 1); else run_op(tok[i] + 1); cap_event(); }
    arm(0); put_na();
    if (!bare) for (int k = 0; k < nh; k++){ turn_to(k); mbus_disconnect(H); mbus_context_free(H); H = NULL; }
    for (int k = 0; k < nh; k++){ turn_to(k); ev_add("{\"e\":\"end\",\"live\":%ld,\"fds\":%d}", vio_live, vio_fds_open()); }
    if (dumps){ take_dumps(); err_end(); }
    sb_printf(&out, ",\"ev\":[%s]", ev.p); vio_use(0);
}

// ------------------------------------------------------------------ dumps
static void put_captured(void){ static char b[300000]; fflush(stdout); lseek(capfd, 0, SEEK_SET); ssize_t n = __real_read(capfd, b, sizeof b - 1); b[n > 0 ? n : 0] = 0; sb_printf(&out, ",\"text\":"); sb_text(&out, b); cap_reset(); }
static void op_dprint(void){
    mbus_frame *f = data_frame(get("d"), geti("ci", 0x72)); if (get("c")) f->control = geti("c", 8);
    cap_reset(); mbus_frame_data *x = mbus_frame_data_new(); int r = mbus_frame_data_parse(f, x); sb_printf(&out, ",\"r\":%d", r == 0 ? 0 : -1);
    if (r == 0){ mbus_frame_data_print(x); put_captured(); }
    mbus_frame_data_free(x); mbus_frame_free(f); sb_printf(&out, ",\"live\":%ld", vio_live); }
static void op_fprint(void){
    // telegrams t:c:a:ci:data;...
    mbus_frame *first = NULL, *last = NULL; const char *p = get("f");
    while (*p){ long v[4]; for (int i = 0; i < 4; i++){ v[i] = strtol(p, (char**)&p, 10); p++; }
        mbus_frame *f = mbus_frame_new(v[0]); if (!f){ f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); f->type = v[0]; }
        f->control = v[1]; f->address = v[2]; f->control_information = v[3]; f->data_size = 0;
        while (*p && *p != ';'){ f->data[f->data_size++] = hexv(p[0]) * 16 + hexv(p[1]); p += 2; }
        if (*p) p++;
        if (last) last->next = f; else first = f;
        last = f; }
    cap_reset(); int r = mbus_frame_print(first); sb_printf(&out, ",\"r\":%d", r < 0 ? -1 : r); put_captured();
    mbus_frame_free(first); sb_printf(&out, ",\"live\":%ld", vio_live); }
static void op_hexdump(void){
    char *s = untext("label"); unsigned char *b = malloc(5000); size_t n = get("d") ? unhex(get("d"), b) : 0; unsigned char *x = malloc(n ? n : 1); memcpy(x, b, n); long keep = vio_now;
    err_begin(); vio_now = geti("now", 0); mbus_hex_dump(s, get("d") ? (char*)x : NULL, n); vio_now = keep; static char t[30000]; ssize_t k = pread(errfd, t, sizeof t - 1, 0); t[k > 0 ? k : 0] = 0; err_end();
    sb_printf(&out, ",\"text\":"); sb_text(&out, t); free(s); free(b); free(x); }

// ------------------------------------------------------------------ calls that lack something
static int missing(const char *role){ const char *m = get("miss"); size_t l = strlen(role); while (m && *m){ size_t k = strcspn(m, ","); if (k == l && !strncmp(m, role, l)) return 1; m += k; if (*m) m++; } return 0; }
#define G(role, p) (missing(role) ? NULL : (p))
static const char *of_int(long v){ return v < 0 ? "neg" : v > 0 ? "pos" : "zero"; }
static const char *of_text(const char *s){ return !s ? "null" : *s ? "text" : "empty"; }
static const char *of_ptr(const void *p){ return p ? "object" : "null"; }
static void op_absent(void){
    setup_env(); sb_reset(&ev); nh = 1; at = 0; setup_handle(); cap_reset(); err_begin();
    // everything there is to be given
    static mbus_frame fr, fr1; static mbus_frame_data fd, fd1; static mbus_data_fixed fx, fx1; static mbus_data_record rc, rc1, rl, rl1; static unsigned char by[16], by1[16]; static char tx[17], tx1[17], pl[40], pl1[40], mk[17], mk1[17];
    static struct tm tm, tm1; mbus_handle h1; char *o1 = tx, *o2 = tx; double od = 7.5, oe = 7.5; int oi = 7; long ol; long long oll; mbus_address ad, ad1;
    for (int i = 0; i < 16; i++) by[i] = 0x10 + i;
    strcpy(tx, "0123456789012345"); strcpy(mk, "0123456789FFFFFF"); memset(pl, '?', sizeof pl); memset(&tm, 0x11, sizeof tm);
    mbus_frame *n = mbus_frame_new(MBUS_FRAME_TYPE_LONG); fr = *n; mbus_frame_free(n); fr.control = 8; fr.address = 5; fr.control_information = 0x72; fr.data_size = 15; memcpy(fr.data, "\x78\x56\x34\x12\x01\x01\x01\x01\x01\x00\x00\x00\x01\x13\x09", 15); fr.next = NULL;
    memset(&fd, 0, sizeof fd); memset(&rc, 0, sizeof rc); rc.drh.dib.dif = 0x81; rc.drh.dib.ndife = 1; rc.drh.dib.dife[0] = 0x11; rc.drh.vib.vif = 0x13; rc.data_len = 1; rc.data[0] = 9; rl = rc;
    fd.type = MBUS_DATA_TYPE_VARIABLE; memcpy(&fd.data_var.header, fr.data, 12); fd.data_var.nrecords = 1; fd.data_var.record = &rl; memset(&fx, 0x21, sizeof fx); memset(&ad, 0, sizeof ad);
    const char *f = get("f"), *r = "unknown";
    ad.is_primary = strcmp(f, "read_secondary"); if (ad.is_primary) ad.primary = 5; else ad.secondary = G("text", tx);
    fr1 = fr; fd1 = fd; fx1 = fx; rc1 = rc; rl1 = rl; memcpy(by1, by, sizeof by); strcpy(tx1, tx); strcpy(mk1, mk); memcpy(pl1, pl, sizeof pl); tm1 = tm; h1 = *H; ad1 = ad; size_t evn = ev.n; long live = vio_live; long lb = vio_left_bytes(), li = vio_left_items();
    mbus_handle *h = G("handle", H); mbus_frame *F = G("frame", &fr); mbus_frame_data *D = G("data", &fd); mbus_data_variable *V = G("variable", &fd.data_var); mbus_data_fixed *X = G("fixed", &fx); mbus_data_record *R = G("record", &rc);
    mbus_data_variable_header *HD = G("header", &fd.data_var.header); unsigned char *B = G("bytes", by); char *T = G("text", tx), *P = G("place", pl), *M = G("mask", mk); mbus_value_information_block *VB = G("vib", &rc.drh.vib);
    char **O = G("out", &o1), **O3 = G("out3", &o2); double *O2 = G("out2", &od);
    #define IS(s) else if (!strcmp(f, s))
    if (0); IS("parse") r = of_int(mbus_parse(F, B, 16)); IS("pack") r = of_int(mbus_frame_pack(F, B, 16)); IS("verify") r = of_int(mbus_frame_verify(F)); IS("type") r = of_int(mbus_frame_type(F)); IS("direction") r = of_int(mbus_frame_direction(F));
    IS("data_parse") r = of_int(mbus_frame_data_parse(F, D)); IS("fixed_parse") r = of_int(mbus_data_fixed_parse(F, X)); IS("variable_parse") r = of_int(mbus_data_variable_parse(F, V)); IS("internal_pack") r = of_int(mbus_frame_internal_pack(F, D));
    IS("select_pack") r = of_int(mbus_frame_select_secondary_pack(F, T)); IS("get_address") r = of_ptr(mbus_frame_get_secondary_address(F)); IS("is_secondary") r = of_int(mbus_is_secondary_address(T));
    IS("frame_free") r = of_int(mbus_frame_free(F)); IS("data_free"){ mbus_frame_data_free(D); r = "void"; } IS("records_free"){ mbus_data_record_free(R); r = "void"; } IS("record_append"){ mbus_data_record_append(V, R); r = "void"; } IS("norm_free"){ mbus_record_free(NULL); r = "void"; }
    IS("frame_xml") r = of_ptr(mbus_frame_xml(F)); IS("data_xml") r = of_ptr(mbus_frame_data_xml(D)); IS("data_xml_normalized") r = of_ptr(mbus_frame_data_xml_normalized(D)); IS("fixed_xml") r = of_ptr(mbus_data_fixed_xml(X));
    IS("variable_xml") r = of_ptr(mbus_data_variable_xml(V)); IS("header_xml") r = of_text(mbus_data_variable_header_xml(HD)); IS("frame_print") r = of_int(mbus_frame_print(F)); IS("data_print") r = of_int(mbus_frame_data_print(D));
    IS("fixed_print") r = of_int(mbus_data_fixed_print(X)); IS("variable_print") r = of_int(mbus_data_variable_print(V)); IS("header_print") r = of_int(mbus_data_variable_header_print(HD)); IS("hex_dump"){ mbus_hex_dump(T, (char*)B, 16); r = "void"; }
    IS("product") r = of_text(mbus_data_product_name(HD)); IS("fixed_medium") r = of_text(mbus_data_fixed_medium(X)); IS("unit") r = of_text(mbus_vib_unit_lookup(VB)); IS("record_function") r = of_text(mbus_data_record_function(R));
    IS("record_unit") r = of_text(mbus_data_record_unit(R)); IS("record_value") r = of_text(mbus_data_record_value(R)); IS("storage") r = of_int(mbus_data_record_storage_number(R)); IS("tariff") r = of_int(mbus_data_record_tariff(R)); IS("device") r = of_int(mbus_data_record_device(R));
    IS("normalize_record") r = of_ptr(mbus_parse_variable_record(R)); IS("normalize_fixed") r = of_ptr(mbus_parse_fixed_record(0, 5, B)); IS("xml_text") r = of_int(mbus_str_xml_encode((unsigned char*)P, by, 20)); IS("xml_text_source"){ char b[20] = "x"; r = of_int(mbus_str_xml_encode((unsigned char*)b, (unsigned char*)T, 20)); if (*b) r = "text"; }
    IS("int_decode") r = of_int(mbus_data_int_decode(B, 4, &oi)); IS("long_decode") r = of_int(mbus_data_long_decode(B, 4, &ol)); IS("long_long_decode") r = of_int(mbus_data_long_long_decode(B, 4, &oll)); IS("int_encode") r = of_int(mbus_data_int_encode(B, 4, 5));
    IS("bcd_encode") r = of_int(mbus_data_bcd_encode(B, 4, 5)); IS("bcd_decode") r = of_int(mbus_data_bcd_decode(B, 4)); IS("hex2bin") r = of_int(mbus_hex2bin((unsigned char*)P, 16, B, 16)); IS("manufacturer_encode") r = of_int(mbus_data_manufacturer_encode((unsigned char*)P, (unsigned char*)T));
    IS("bin_decode"){ mbus_data_bin_decode((unsigned char*)P, B, 4, 20); r = "void"; } IS("raw_decode"){ mbus_data_raw_decode((unsigned char*)P, B, 4, 20); r = "void"; } IS("str_decode"){ mbus_data_str_decode((unsigned char*)P, B, 4); r = "void"; } IS("tm_decode"){ mbus_data_tm_decode(NULL, by, 4); r = "void"; }
    IS("vif_normalize") r = of_int(mbus_vif_unit_normalize(0x13, 1.0, O, O2, O3)); IS("vib_normalize") r = of_int(mbus_vib_unit_normalize(VB, 1.0, O, O2, O3));
    IS("value_decode"){ char *s; int n; r = of_int(mbus_variable_value_decode(R, &oe, &s, &n)); }
    IS("connect") r = of_int(mbus_connect(h)); IS("disconnect") r = of_int(mbus_disconnect(h)); IS("free"){ mbus_context_free(h); r = "void"; } IS("option") r = of_int(mbus_context_set_option(h, MBUS_OPTION_MAX_DATA_RETRY, 1));
    IS("recv") r = of_int(mbus_recv_frame(h, F)); IS("purge") r = of_int(mbus_purge_frames(h)); IS("send") r = of_int(mbus_send_frame(h, F)); IS("request") r = of_int(mbus_sendrecv_request(h, 5, F, 0));
    IS("read_primary") r = of_int(mbus_read_slave(h, G("address", &ad), F)); IS("read_secondary") r = of_int(mbus_read_slave(h, G("address", &ad), F)); IS("scan") r = of_int(mbus_scan_2nd_address_range(h, 10, M));
    IS("select") r = of_int(mbus_select_secondary_address(h, T)); IS("probe") r = of_int(mbus_probe_secondary_address(h, T, P)); IS("ping") r = of_int(mbus_send_ping_frame(h, 5, 0)); IS("ping_purge") r = of_int(mbus_send_ping_frame(h, 5, 1)); IS("req") r = of_int(mbus_send_request_frame(h, 5));
    IS("user_data") r = of_int(mbus_send_user_data_frame(h, 5, B, 3)); IS("reset") r = of_int(mbus_send_application_reset_frame(h, 5, 1)); IS("baud") r = of_int(mbus_send_switch_baudrate_frame(h, 5, 2400)); IS("set_address") r = of_int(mbus_set_primary_address(h, 5, 6)); IS("select_frame") r = of_int(mbus_send_select_frame(h, T));
    IS("line_connect") r = of_int(is_ser ? mbus_serial_connect(h) : mbus_tcp_connect(h)); IS("line_disconnect") r = of_int(is_ser ? mbus_serial_disconnect(h) : mbus_tcp_disconnect(h)); IS("line_send") r = of_int(is_ser ? mbus_serial_send_frame(h, F) : mbus_tcp_send_frame(h, F));
    IS("line_recv") r = of_int(is_ser ? mbus_serial_recv_frame(h, F) : mbus_tcp_recv_frame(h, F)); IS("set_speed") r = of_int(mbus_serial_set_baudrate(h, 2400)); IS("line_free"){ is_ser ? mbus_serial_data_free(h) : mbus_tcp_data_free(h); r = "void"; }
    err_end(); fflush(stdout);
    int same = !memcmp(&fr, &fr1, sizeof fr) && !memcmp(&fd, &fd1, sizeof fd) && !memcmp(&fx, &fx1, sizeof fx) && !memcmp(&rc, &rc1, sizeof rc) && !memcmp(&rl, &rl1, sizeof rl) && !memcmp(by, by1, sizeof by) && !strcmp(tx, tx1) && !strcmp(mk, mk1)
        && !memcmp(pl, pl1, sizeof pl) && !memcmp(&tm, &tm1, sizeof tm) && !memcmp(H, &h1, sizeof h1) && !memcmp(&ad, &ad1, sizeof ad) && o1 == tx && o2 == tx && od == 7.5 && vio_live == live;
    int quiet = ev.n == evn && vio_left_bytes() == lb && vio_left_items() == li && fcntl_size(capfd) == 0;
    mbus_frame *g = mbus_frame_new(MBUS_FRAME_TYPE_ANY); int works = mbus_recv_frame(H, g) == MBUS_RECV_RESULT_OK && g->type == MBUS_FRAME_TYPE_ACK && mbus_send_ping_frame(H, 5, 0) == 0; mbus_frame_free(g);
    mbus_disconnect(H); mbus_context_free(H); H = NULL;
    sb_printf(&out, ",\"r\":\"%s\",\"same\":%d,\"quiet\":%d,\"works\":%d", r, same, quiet, works); }
// texts into a buffer of n places
static void op_text(void){
    const char *f = get("f"); unsigned char *d = malloc(strlen(get("d")) / 2 + 1); size_t k = unhex(get("d"), d); unsigned char *x = malloc(k + (*f == 'x')); memcpy(x, d, k); if (*f == 'x') x[k] = 0; long n = geti("n", 1); unsigned char *w = malloc(n); memset(w, 0xEE, n);
    if (*f == 'b') mbus_data_bin_decode(w, x, k, n); else if (*f == 'r') mbus_data_raw_decode(w, x, k, n); else mbus_str_xml_encode(w, x, n);
    size_t l = strnlen((char*)w, n); sb_printf(&out, ",\"w\":"); if (l == (size_t)n) sb_printf(&out, "[-1]"); else sb_bytes(&out, w, l);
    free(d); free(x); free(w); }

// why something is refused: the text that is left after the call, and whether it was there before
static void op_why(void){
    const char *f = get("f"); int r = 0; long fill = geti("old", 20); char *old = __real_malloc(fill + 1); memset(old, 'q', fill); old[fill] = 0; mbus_frame *F = NULL; mbus_frame *G = mbus_frame_new(MBUS_FRAME_TYPE_ANY); char *s = untext("s");
    unsigned char *x = NULL; size_t n = 0; mbus_frame_data *D = NULL;
    if (!strcmp(f, "parse")){ const char *h = get("d"); unsigned char *y = malloc(strlen(h) / 2 + 1); n = unhex(h, y); x = malloc(n ? n : 1); memcpy(x, y, n); free(y); }
    if (!strcmp(f, "verify")){ F = mk_frame(); mbus_frame_calc_length(F); mbus_frame_calc_checksum(F); if (get("s1")) F->start1 = geti("s1", 0); if (get("s2")) F->start2 = geti("s2", 0); if (get("l1")) F->length1 = geti("l1", 0); if (get("l2")) F->length2 = geti("l2", 0); if (get("ck")) F->checksum = geti("ck", 0); if (get("st")) F->stop = geti("st", 0);
        sb_printf(&out, ",\"s1\":%d,\"s2\":%d,\"l1\":%d,\"l2\":%d,\"ck\":%d,\"st\":%d", F->start1, F->start2, F->length1, F->length2, F->checksum, F->stop); }
    if (!strcmp(f, "data") || !strcmp(f, "getaddr")){ F = data_frame(get("d"), geti("ci", 0x72)); F->control = geti("c", 8); if (get("t")) F->type = geti("t", 0); D = mbus_frame_data_new(); }
    if (!strcmp(f, "recv") || !strcmp(f, "connect")){ nh = 1; at = 0; setup_env(); sb_reset(&ev); is_ser = 0; H = new_handle(get("place") ? untext("place") : NULL, geti("port", 10001)); if (*f == 'r') mbus_connect(H); mbus_context_set_option(H, MBUS_OPTION_PURGE_FIRST_FRAME, 0); }
    mbus_error_str_set(old);
    if (!strcmp(f, "parse")) r = mbus_parse(G, x, n); else if (!strcmp(f, "verify")) r = mbus_frame_verify(F); else if (!strcmp(f, "data")) r = mbus_frame_data_parse(F, D);
    else if (!strcmp(f, "addr")) r = mbus_frame_select_secondary_pack(G, s); else if (!strcmp(f, "getaddr")) r = mbus_frame_get_secondary_address(F) ? 0 : -1;
    else if (!strcmp(f, "recv")) r = mbus_recv_frame(H, G); else if (!strcmp(f, "connect")) r = mbus_connect(H);
    else if (!strcmp(f, "set")) mbus_error_str_set(s); else if (!strcmp(f, "setnull")) mbus_error_str_set(NULL); else if (!strcmp(f, "reset")) mbus_error_reset();
    const char *t = mbus_error_str(); size_t l = t ? strnlen(t, 100000) : 0;
    sb_printf(&out, ",\"r\":%d,\"same\":%d,\"text\":", r, t && !strcmp(t, old)); if (!t) sb_printf(&out, "null"); else { char *c = malloc(l + 1); memcpy(c, t, l); c[l] = 0; sb_text(&out, c); free(c); }
    if (H){ mbus_disconnect(H); mbus_context_free(H); H = NULL; }
    if (D){ if (r) D->data_var.record = NULL; if (D->type != MBUS_DATA_TYPE_VARIABLE) D->data_var.record = NULL; mbus_frame_data_free(D); }
    if (F) mbus_frame_free(F); mbus_frame_free(G); if (x) free(x); if (s) free(s); __real_free(old); }

// ------------------------------------------------------------------ command line programs
#define TOOLS X(mbus_serial_scan) X(mbus_serial_set_address) X(mbus_serial_request_data) X(mbus_serial_request_data_multi_reply) \
 X(mbus_serial_select_secondary) X(mbus_serial_scan_secondary) X(mbus_serial_switch_baudrate) X(mbus_tcp_scan) X(mbus_tcp_request_data) \
 X(mbus_tcp_request_data_multi_reply) X(mbus_tcp_select_secondary) X(mbus_tcp_scan_secondary) X(mbus_tcp_application_reset) X(mbus_tcp_raw_send)
#ifndef NO_TOOLS
#define X(n) int tool_##n(int, char**);
TOOLS
#undef X
#endif
static int evfd = -1, infd = -1;
static void dump_ev(void){ take_dumps(); if (get("oom") || get("oomall")){ vio_arm = 0; ev_begin("na"); sb_printf(&ev, ",\"n\":%ld", vio_allocs); put_places(&ev); ev_end(); } if (evfd >= 0){ size_t o = 0; while (o < ev.n){ ssize_t __real_write(int,const void*,size_t); ssize_t k = __real_write(evfd, ev.p + o, ev.n - o); if (k <= 0) break; o += k; } } }
static char *slurp(int fd, size_t *n){ struct stat st; fstat(fd, &st); char *p = __real_malloc(st.st_size + 1); lseek(fd, 0, SEEK_SET); size_t o = 0; while (o < (size_t)st.st_size){ ssize_t k = __real_read(fd, p + o, st.st_size - o); if (k <= 0) break; o += k; } p[o] = 0; *n = o; return p; }
#ifndef NO_TOOLS
static void op_tool(void){
    setup_env(); vio_tick_read = 0;
    int so = memfd_create("out", 0), se = memfd_create("err", 0), ef = memfd_create("ev", 0), si = memfd_create("in", 0);
    if (get("stdin")){ char *t = untext("stdin"); ssize_t __real_write(int,const void*,size_t); __real_write(si, t, strlen(t)); lseek(si, 0, SEEK_SET); free(t); }
    int ff = memfd_create("file", 0); if (get("file")){ char *t = untext("file"); ssize_t __real_write(int,const void*,size_t); __real_write(ff, t, strlen(t)); lseek(ff, 0, SEEK_SET); free(t); }
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0){
        __real_close(infd); dup2(si, 0); dup2(so, 1); dup2(se, 2); evfd = ef; alarm(60);
        // dirty the stack: uninitialised locals of the program hold values that look plausible
        { volatile unsigned char junk[60000]; for (size_t i = 0; i < sizeof junk; i++) junk[i] = geti("dirty", 0); }
        if (geti("dumps", 0)){ errfd = se; errat = 0; }
        sb_reset(&ev); atexit(dump_ev);
        static char *av[64]; int ac = 0; const char *nm = get("tool"); av[ac++] = (char*)nm;
        for (int i = 0; i < nt; i++) if (tok[i][0] == '!'){ char *a = tok[i] + 1; if (!strcmp(a, "@FILE")){ a = __real_malloc(40); sprintf(a, "/proc/self/fd/%d", ff); } av[ac++] = a; }
        av[ac] = NULL; int rc = 127; arm(1);
        #define X(n) if (!strcmp(nm, #n)) rc = tool_##n(ac, av);
        TOOLS
        #undef X
        exit(rc);
    }
    int st = 0; waitpid(p, &st, 0); size_t n;
    if (!WIFEXITED(st) || WEXITSTATUS(st) == 99){ char *e = slurp(se, &n); sb_printf(&out, ",\"crash\":"); if (n > 1500) e[1500] = 0; sb_text(&out, e); __real_free(e); }
    else { sb_printf(&out, ",\"rc\":%d,\"out\":", WEXITSTATUS(st)); char *o = slurp(so, &n); sb_text(&out, o); __real_free(o); }
    char *e = slurp(ef, &n); sb_printf(&out, ",\"ev\":[%s]", e); __real_free(e);
    __real_close(so); __real_close(se); __real_close(ef); __real_close(si); __real_close(ff); }
#endif

const char *__asan_default_options(void){ return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
const char *__ubsan_default_options(void){ return "print_stacktrace=1:exitcode=99"; }

int main(void){
    vio_before_event = take_dumps;
    setenv("TZ", "XST-9:30", 1); tzset();          // a place where it is never the time of UTC
    static char *line; size_t cap = 0; ssize_t l;
    // the verdict channel is a private copy of standard output; what the library prints is captured
    int jfd = dup(1); FILE *jout = fdopen(jfd, "w"); setvbuf(jout, NULL, _IOLBF, 1 << 16);
    capfd = memfd_create("stdout", 0); dup2(capfd, 1);
    // and the commands are read through a stream of their own: a program's standard input is its own
    infd = dup(0); FILE *jin = fdopen(infd, "r");
    while ((l = getline(&line, &cap, jin)) > 0){
        if (line[l-1] == '\n') line[--l] = 0;
        nt = 0; for (char *p = strtok(line, " "); p && nt < 4096; p = strtok(NULL, " ")) tok[nt++] = p;
        if (nt < 2) continue;
        sb_reset(&out); sb_reset(&ev); vio_reset();
        sb_printf(&out, "{\"id\":%s", tok[0]);
        vio_oom = geti("oom", 0); vio_oom_all = geti("oomall", 0);
        const char *o = tok[1]; alarm(120); mbus_parse_set_debug(geti("dbg", 0));
        if (!strcmp(o, "parse")) op_parse(); else if (!strcmp(o, "pack")) op_pack(); else if (!strcmp(o, "verify")) op_verify();
        else if (!strcmp(o, "vdata")) op_vdata(geti("norm", 0)); else if (!strcmp(o, "xml")) op_xml(); else if (!strcmp(o, "hex2bin")) op_hex2bin();
        else if (!strcmp(o, "addr")) op_addr(); else if (!strcmp(o, "getaddr")) op_getaddr(); else if (!strcmp(o, "num")) op_num();
        else if (!strcmp(o, "man")) op_man(); else if (!strcmp(o, "manr")) op_manr(); else if (!strcmp(o, "lookup")) op_lookup(); else if (!strcmp(o, "frames")) op_frames();
        else if (!strcmp(o, "dprint")) op_dprint(); else if (!strcmp(o, "fprint")) op_fprint(); else if (!strcmp(o, "hexdump")) op_hexdump();
        else if (!strcmp(o, "absent")) op_absent(); else if (!strcmp(o, "text")) op_text(); else if (!strcmp(o, "why")) op_why(); else if (!strcmp(o, "objects")) op_objects();
        else if (!strcmp(o, "sess")) op_sess();
#ifndef NO_TOOLS
        else if (!strcmp(o, "tool")) op_tool();
#endif
        else sb_printf(&out, ",\"unknown\":1");
        if (get("dbg")) cap_reset();
        fprintf(jout, "%s}\n", out.p);
    }
    return 0; }
