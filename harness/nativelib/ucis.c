/* A UCIS C library that keeps databases in memory, with functions (vp_...) for
 * the harness to look at what has arrived in them.  Structures and codes are
 * those of the UCIS 1.0 standard. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

typedef struct { void *filehandle; int line; int token; } srcinfo_t;
typedef struct {
    uint64_t type; int flags;
    union { uint64_t int64; uint32_t int32; unsigned char *bytevector; } data;
    int goal, weight, limit, bitlen;
} coverdata_t;
typedef struct {
    unsigned teststatus; double simtime; const char *timeunit; const char *runcwd; double cputime;
    const char *seed; const char *cmd; const char *args; int compulsory; const char *date;
    const char *username; double cost; const char *toolcategory;
} testdata_t;

enum { K_DB = 1, K_SCOPE, K_HIST, K_FILE, K_ITER };
#define NPROP 64
typedef struct prop { int bin, str, key; long ival; char *sval; struct prop *next; } prop;
struct obj;
typedef struct bin { char *name; coverdata_t d; struct obj *file; int hassrc, line, token; } bin;
typedef struct obj {
    int kind; struct obj *db, *up; struct obj *reg;
    char *name, *name2;
    struct obj **kid; int nkid;
    struct obj **hist; int nhist;
    prop *props;
    /* scopes */
    int weight, source, flags, hassrc, line, token; uint64_t type; struct obj *file, *du;
    struct obj **pt; int npt;
    int metric, ttype, dir;
    bin *bins; int nbin;
    /* history nodes */
    int hkind, hastd; testdata_t td;
    /* databases */
    int closed; struct obj *copy;
    /* iterators */
    struct obj **it; int nit, pos, freed;
} obj;

static obj *registry;
static obj **opened; static int nopened;
static struct { char *name; obj *db; } disk[256]; static int ndisk;
static char *errs; static int fail_next; static int last_recurse, last_type, writes; static obj *last_scope;

static char *dup(const char *s) { return s ? strdup(s) : NULL; }

static void err(const char *f, ...) {
    char b[300]; va_list a;
    va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    size_t n = errs ? strlen(errs) : 0;
    if (n > 4000) return;
    errs = realloc(errs, n + strlen(b) + 3);
    errs[n] = 0; strcat(errs, b); strcat(errs, "; ");
}

static obj *mk(int kind, obj *db) {
    obj *o = calloc(1, sizeof *o);
    o->kind = kind; o->db = db ? db : o; o->reg = registry; registry = o;
    return o;
}

/* the object, if it is one, of that database and kind */
static obj *chk(const char *fn, void *p, int kind, void *db) {
    for (obj *o = registry; o; o = o->reg)
        if (o == p) {
            if (o->kind != kind && !(kind == K_SCOPE && o->kind == K_DB)) { err("%s: handle of kind %d, not %d", fn, o->kind, kind); return NULL; }
            if (db && o->db != db) { err("%s: handle of another database", fn); return NULL; }
            return o;
        }
    err("%s: no handle", fn);
    return NULL;
}
static obj *chkdb(const char *fn, void *p) {
    obj *o = chk(fn, p, K_DB, NULL);
    if (o && o->closed) { err("%s: closed database", fn); return NULL; }
    return o;
}
static void push(obj ***v, int *n, obj *x) { *v = realloc(*v, (*n + 1) * sizeof **v); (*v)[(*n)++] = x; }
static int refuse(void) { if (fail_next) { fail_next = 0; return 1; } return 0; }

static void setsrc(const char *fn, srcinfo_t *s, obj *db, obj **file, int *has, int *line, int *token) {
    *has = s != NULL; *file = NULL; *line = -1; *token = -1;
    if (!s) return;
    if (s->filehandle) *file = chk(fn, s->filehandle, K_FILE, db);
    *line = s->line; *token = s->token;
}

static obj *scope(const char *fn, void *dbp, void *par, const char *name, srcinfo_t *src, int weight, int source, uint64_t type, int flags) {
    obj *db = chkdb(fn, dbp); if (!db) return NULL;
    obj *up = par ? chk(fn, par, K_SCOPE, db) : db; if (!up) return NULL;
    if (refuse()) return NULL;
    obj *o = mk(K_SCOPE, db);
    o->up = up; o->name = dup(name); o->weight = weight; o->source = source; o->type = type; o->flags = flags;
    setsrc(fn, src, db, &o->file, &o->hassrc, &o->line, &o->token);
    push(&up->kid, &up->nkid, o);
    return o;
}

static obj *copytree(obj *o, obj *db, obj *up);

void *ucis_Open(const char *file) {
    obj *src = NULL;
    if (refuse()) return NULL;
    if (file) {
        for (int i = 0; i < ndisk; i++) if (!strcmp(disk[i].name, file)) src = disk[i].db;
        if (!src) return NULL;
    }
    obj *o = src ? copytree(src, NULL, NULL) : mk(K_DB, NULL);
    push(&opened, &nopened, o);
    return o;
}
int ucis_Write(void *dbp, const char *file, void *sc, int recurse, int covertype) {
    obj *db = chkdb("Write", dbp); if (!db) return -1;
    obj *s = sc ? chk("Write", sc, K_SCOPE, db) : NULL;
    if (sc && !s) return -1;
    if (refuse()) return -1;
    last_scope = s; last_recurse = recurse; last_type = covertype; writes++;
    obj *c = copytree(db, NULL, NULL);
    for (int i = 0; i < ndisk; i++) if (!strcmp(disk[i].name, file)) { disk[i].db = c; return 0; }
    if (ndisk == 256) return -1;
    disk[ndisk].name = dup(file); disk[ndisk++].db = c;
    return 0;
}
int ucis_Close(void *dbp) {
    obj *db = chkdb("Close", dbp); if (!db) return -1;
    if (refuse()) return -1;
    db->closed = 1;
    return 0;
}
void *ucis_CreateHistoryNode(void *dbp, void *par, const char *log, const char *phys, int kind) {
    obj *db = chkdb("CreateHistoryNode", dbp); if (!db) return NULL;
    obj *up = par ? chk("CreateHistoryNode", par, K_HIST, db) : NULL; if (par && !up) return NULL;
    if (!log) { err("CreateHistoryNode: no name"); return NULL; }
    if (refuse()) return NULL;
    obj *o = mk(K_HIST, db);
    o->up = up; o->name = dup(log); o->name2 = dup(phys); o->hkind = kind;
    push(&db->hist, &db->nhist, o);
    return o;
}
void *ucis_CreateScope(void *db, void *par, const char *name, srcinfo_t *src, int weight, int source, uint64_t type, int flags) {
    return scope("CreateScope", db, par, name, src, weight, source, type, flags);
}
void *ucis_CreateInstance(void *db, void *par, const char *name, srcinfo_t *src, int weight, int source, uint64_t type, void *dup_, int flags) {
    obj *du = NULL;
    if (dup_) { du = chk("CreateInstance", dup_, K_SCOPE, db); if (!du) return NULL; }
    obj *o = scope("CreateInstance", db, par, name, src, weight, source, type, flags);
    if (o) o->du = du;
    return o;
}
void *ucis_CreateCross(void *db, void *par, const char *name, srcinfo_t *src, int weight, int source, int n, void **pts) {
    obj *o = scope("CreateCross", db, par, name, src, weight, source, 0x8000, 0);
    if (!o) return NULL;
    for (int i = 0; i < n; i++) {
        obj *p = chk("CreateCross", pts[i], K_SCOPE, db);
        if (p) push(&o->pt, &o->npt, p);
    }
    return o;
}
int ucis_CreateNextCover(void *dbp, void *par, const char *name, coverdata_t *d, srcinfo_t *src) {
    obj *db = chkdb("CreateNextCover", dbp); if (!db) return -1;
    obj *up = chk("CreateNextCover", par, K_SCOPE, db); if (!up) return -1;
    if (refuse()) return -1;
    up->bins = realloc(up->bins, (up->nbin + 1) * sizeof *up->bins);
    bin *b = &up->bins[up->nbin];
    memset(b, 0, sizeof *b);
    b->name = dup(name);
    if (d) b->d = *d; else err("CreateNextCover: no data");
    setsrc("CreateNextCover", src, db, &b->file, &b->hassrc, &b->line, &b->token);
    return up->nbin++;
}
void *ucis_CreateToggle(void *db, void *par, const char *name, const char *canon, unsigned flags, int metric, int type, int dir) {
    obj *o = scope("CreateToggle", db, par, name, NULL, 0, 0, 1, (int)flags);
    if (!o) return NULL;
    o->name2 = dup(canon); o->metric = metric; o->ttype = type; o->dir = dir;
    return o;
}
static prop *putprop(const char *fn, void *dbp, void *p, int bin, int str, int key) {
    obj *db = chkdb(fn, dbp), *o = NULL; if (!db) return NULL;
    if (!p) o = db;
    else for (obj *x = registry; x; x = x->reg) if (x == p && x->db == db && x->kind <= K_HIST) o = x;
    if (!o) { err("%s: no handle", fn); return NULL; }
    if (bin >= o->nbin) { err("%s: no bin %d", fn, bin); return NULL; }
    for (prop *q = o->props; q; q = q->next) if (q->bin == bin && q->str == str && q->key == key) return q;
    prop *q = calloc(1, sizeof *q);
    q->bin = bin; q->str = str; q->key = key; q->next = o->props; o->props = q;
    return q;
}
void ucis_SetIntProperty(void *db, void *o, int index, int key, int value) {
    prop *q = putprop("SetIntProperty", db, o, index, 0, key);
    if (q) q->ival = value;
    if (q && o && ((obj *)o)->kind == K_HIST && key == 19) ((obj *)o)->td.teststatus = value;
}
void ucis_SetStringProperty(void *db, void *o, int index, int key, const char *value) {
    prop *q = putprop("SetStringProperty", db, o, index, 1, key);
    if (q) q->sval = dup(value);
}
void *ucis_CreateFileHandle(void *dbp, const char *name, const char *dir) {
    obj *db = chkdb("CreateFileHandle", dbp); if (!db) return NULL;
    if (refuse()) return NULL;
    obj *o = mk(K_FILE, db);
    o->name = dup(name); o->name2 = dup(dir);
    return o;
}
void ucis_RegisterErrorHandler(void *f, void *u) { }
int ucis_SetTestData(void *db, void *h, testdata_t *t) {
    obj *o = chkdb("SetTestData", db) ? chk("SetTestData", h, K_HIST, db) : NULL;
    if (!o || !t) return -1;
    if (refuse()) return -1;
    o->td = *t; o->hastd = 1;
    o->td.timeunit = dup(t->timeunit); o->td.runcwd = dup(t->runcwd); o->td.seed = dup(t->seed);
    o->td.cmd = dup(t->cmd); o->td.args = dup(t->args); o->td.date = dup(t->date);
    o->td.username = dup(t->username); o->td.toolcategory = dup(t->toolcategory);
    return 0;
}
int ucis_GetTestData(void *db, void *h, testdata_t *t) {
    obj *o = chkdb("GetTestData", db) ? chk("GetTestData", h, K_HIST, db) : NULL;
    if (!o || !t) return -1;
    if (refuse()) return -1;
    *t = o->td;
    return 0;
}
void *ucis_HistoryIterate(void *dbp, void *h, uint32_t kind) {
    obj *db = chkdb("HistoryIterate", dbp); if (!db) return NULL;
    obj *up = h ? chk("HistoryIterate", h, K_HIST, db) : NULL; if (h && !up) return NULL;
    obj *it = mk(K_ITER, db);
    for (int i = 0; i < db->nhist; i++) {
        obj *o = db->hist[i];
        if ((!up || o->up == up) && (kind == 0 || (int)kind == o->hkind)) push(&it->it, &it->nit, o);
    }
    return it;
}
static void *scan(const char *fn, void *db, void *p) {
    obj *it = chkdb(fn, db) ? chk(fn, p, K_ITER, db) : NULL;
    if (!it) return NULL;
    if (it->freed) { err("%s: iterator freed", fn); return NULL; }
    return it->pos < it->nit ? it->it[it->pos++] : NULL;
}
void *ucis_HistoryScan(void *db, void *p) { return scan("HistoryScan", db, p); }
void *ucis_ScopeIterate(void *dbp, void *p, uint64_t mask) {
    obj *db = chkdb("ScopeIterate", dbp); if (!db) return NULL;
    obj *up = p ? chk("ScopeIterate", p, K_SCOPE, db) : db; if (!up) return NULL;
    obj *it = mk(K_ITER, db);
    for (int i = 0; i < up->nkid; i++)
        if (up->kid[i]->type & mask) push(&it->it, &it->nit, up->kid[i]);
    return it;
}
void *ucis_ScopeScan(void *db, void *p) { return scan("ScopeScan", db, p); }
void ucis_FreeIterator(void *db, void *p) {
    obj *it = chkdb("FreeIterator", db) ? chk("FreeIterator", p, K_ITER, db) : NULL;
    if (!it) return;
    if (it->freed) err("FreeIterator: twice");
    it->freed = 1;
}
int ucis_GetScopeSourceInfo(void *db, void *p, srcinfo_t *s) {
    obj *o = chkdb("GetScopeSourceInfo", db) ? chk("GetScopeSourceInfo", p, K_SCOPE, db) : NULL;
    if (!o || !s) return -1;
    s->filehandle = o->file; s->line = o->hassrc ? o->line : -1; s->token = o->hassrc ? o->token : -1;
    return 0;
}
const char *ucis_GetFileName(void *db, void *f) {
    obj *o = chkdb("GetFileName", db) ? chk("GetFileName", f, K_FILE, db) : NULL;
    return o ? o->name : NULL;
}

/* ------------------------------------------------------------------ copies */
static obj *copytree(obj *o, obj *db, obj *up) {
    obj *c = mk(o->kind, db);
    obj *reg = c->reg;
    *c = *o;
    c->reg = reg; c->db = db ? db : c; c->up = up;
    c->kid = NULL; c->nkid = 0; c->hist = NULL; c->nhist = 0; c->pt = NULL; c->npt = 0; c->closed = 0;
    c->props = NULL;
    for (prop *q = o->props; q; q = q->next) {
        prop *n = malloc(sizeof *n); *n = *q; n->next = c->props; c->props = n;
    }
    o->copy = c;
    if (o->nbin) { c->bins = malloc(o->nbin * sizeof *c->bins); memcpy(c->bins, o->bins, o->nbin * sizeof *c->bins); }
    if (o->kind == K_DB) {          /* files first */
        for (obj *f = registry; f; f = f->reg)
            if (f->kind == K_FILE && f->db == o) {
                obj *n = mk(K_FILE, c); n->name = f->name; n->name2 = f->name2; f->copy = n;
            }
        for (int i = 0; i < o->nhist; i++) {
            obj *h = o->hist[i], *n = copytree(h, c, NULL);
            n->up = h->up ? h->up->copy : NULL;
            push(&c->hist, &c->nhist, n);
        }
    }
    if (o->kind == K_SCOPE) {
        if (o->file) c->file = o->file->copy;
        for (int i = 0; i < o->nbin; i++) if (o->bins[i].file) c->bins[i].file = o->bins[i].file->copy;
    }
    for (int i = 0; i < o->nkid; i++) push(&c->kid, &c->nkid, copytree(o->kid[i], c->db, c));
    /* what refers to other scopes, once all are there */
    if (o->kind == K_DB)
        for (obj *s = registry; s; s = s->reg)
            if (s->kind == K_SCOPE && s->db == o && s->copy) {
                obj *n = s->copy;
                n->du = s->du ? s->du->copy : NULL;
                n->pt = NULL; n->npt = 0;
                for (int i = 0; i < s->npt; i++) push(&n->pt, &n->npt, s->pt[i]->copy);
            }
    return c;
}

/* -------------------------------------------------------- for the harness */
static char *out; static size_t len, cap;
static void put(const char *f, ...) {
    va_list a; char b[512];
    va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (len + n + 1 > cap) { cap = (len + n + 1) * 2 + 4096; out = realloc(out, cap); }
    memcpy(out + len, b, n + 1); len += n;
}
static void str(const char *s) {            /* in hexadecimal, or null */
    if (!s) { put("null"); return; }
    put("\"");
    for (; *s; s++) put("%02x", (unsigned char)*s);
    put("\"");
}
static void where(obj *o) {                 /* positions from the root */
    if (!o || o->kind == K_DB) return;
    where(o->up);
    int i = 0;
    while (i < o->up->nkid && o->up->kid[i] != o) i++;
    put("%s%d", o->up->kind == K_DB ? "" : ",", i + 1);
}
static void props(obj *o, int bin) {
    put("[");
    int first = 1;
    for (prop *q = o->props; q; q = q->next)
        if (q->bin == bin || (bin < 0 && q->bin < 0)) {
            put("%s[%d,%d,%d,", first ? "" : ",", q->bin, q->str, q->key);
            if (q->str) str(q->sval); else put("%ld", q->ival);
            put("]"); first = 0;
        }
    put("]");
}
static void node(obj *o) {
    put("{\"name\":"); str(o->name);
    put(",\"root\":%d,\"type\":%llu,\"weight\":%d,\"source\":%d,\"flags\":%d", o->kind == K_DB, (unsigned long long)o->type, o->weight, o->source, o->flags);
    put(",\"file\":"); str(o->file ? o->file->name : NULL);
    put(",\"hassrc\":%d,\"line\":%d,\"token\":%d", o->hassrc, o->line, o->token);
    put(",\"du\":"); str(o->du ? o->du->name : NULL);
    put(",\"duat\":[");  if (o->du) where(o->du); put("]");
    put(",\"canon\":"); str(o->name2);
    put(",\"metric\":%d,\"ttype\":%d,\"dir\":%d", o->metric, o->ttype, o->dir);
    put(",\"pts\":[");
    for (int i = 0; i < o->npt; i++) { put("%s[", i ? "," : ""); where(o->pt[i]); put("]"); }
    put("],\"closed\":%d,\"props\":", o->closed); props(o, -1);
    put(",\"bins\":[");
    for (int i = 0; i < o->nbin; i++) {
        bin *b = &o->bins[i];
        int vec = b->d.flags & 0x04;        /* IS_VECTOR */
        put("%s{\"name\":", i ? "," : ""); str(b->name);
        put(",\"type\":%llu,\"flags\":%d,\"count\":%llu", (unsigned long long)b->d.type, b->d.flags,
            vec ? 0ULL : (b->d.flags & 1) ? (unsigned long long)b->d.data.int32 : (unsigned long long)b->d.data.int64);
        put(",\"goal\":%d,\"weight\":%d,\"limit\":%d,\"bitlen\":%d", b->d.goal, b->d.weight, b->d.limit, b->d.bitlen);
        put(",\"file\":"); str(b->file ? b->file->name : NULL);
        put(",\"hassrc\":%d,\"line\":%d,\"token\":%d,\"props\":", b->hassrc, b->line, b->token);
        props(o, i);
        put("}");
    }
    put("],\"kids\":[");
    for (int i = 0; i < o->nkid; i++) { if (i) put(","); node(o->kid[i]); }
    put("]}");
}
const char *vp_dump(int k) {
    len = 0; put("");
    if (k < 0 || k >= nopened) return NULL;
    obj *db = opened[k];
    put("{\"tree\":"); node(db);
    put(",\"hist\":[");
    for (int i = 0; i < db->nhist; i++) {
        obj *h = db->hist[i];
        int up = 0;
        for (int j = 0; j < db->nhist; j++) if (db->hist[j] == h->up) up = j + 1;
        put("%s{\"par\":%d,\"log\":", i ? "," : "", h->up && !up ? -1 : up); str(h->name);
        put(",\"phys\":"); str(h->name2);
        put(",\"kind\":%d,\"hastd\":%d,\"td\":{\"status\":%u", h->hkind, h->hastd, h->td.teststatus);
        put(",\"simtime\":\"%.17g\",\"cputime\":\"%.17g\",\"cost\":\"%.17g\",\"compulsory\":%d", h->td.simtime, h->td.cputime, h->td.cost, h->td.compulsory);
        put(",\"timeunit\":"); str(h->td.timeunit); put(",\"runcwd\":"); str(h->td.runcwd);
        put(",\"seed\":"); str(h->td.seed); put(",\"cmd\":"); str(h->td.cmd); put(",\"args\":"); str(h->td.args);
        put(",\"date\":"); str(h->td.date); put(",\"user\":"); str(h->td.username);
        put(",\"toolcategory\":"); str(h->td.toolcategory);
        put("},\"props\":"); props(h, -1);
        put("}");
    }
    put("],\"files\":[");
    int first = 1;
    for (obj *f = registry; f; f = f->reg) if (f->kind == K_FILE && f->db == db) {
        put("%s[", first ? "" : ","); str(f->name); put(","); str(f->name2); put("]"); first = 0;
    }
    put("]}");
    return out;
}
int vp_opened(void) { return nopened; }
const char *vp_errors(void) { return errs ? errs : ""; }
void vp_fail(int on) { fail_next = on; }
int vp_failing(void) { return fail_next; }
const char *vp_written(void) {
    len = 0; put("{\"n\":%d,\"recurse\":%d,\"covertype\":%d,\"scope\":", writes, last_recurse, last_type);
    if (last_scope) { put("["); where(last_scope); put("]"); } else put("null");
    put("}");
    return out;
}
void vp_reset(void) { registry = NULL; opened = NULL; nopened = 0; ndisk = 0; errs = NULL; fail_next = 0; writes = 0; last_scope = NULL; }
