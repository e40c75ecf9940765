// nkh: conformance harness.  Drives the public Ninkasi API (nkx.h only)
// from a line-oriented script of host operations, and writes one JSON
// record per observable event.  Each CASE runs in a forked child, so that
// an abnormal end of one behaviour is itself an observation
// ({"ev":"exit",...}) and cannot disturb the others.
//
// Nothing here looks at the VM's internals: everything observed is what a
// hosting application can observe.

#define _GNU_SOURCE
#include "nkx.h"

#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <math.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>

#define NVM 4
#define NREG 32
#define NBUF 16
#define NTYPE 3

// ---------------------------------------------------------------- output

static char *outbuf;
static size_t outlen, outcap;
static size_t outLimit = 4u << 20;
static int mute = 0;
static int verbose = 0;     // also report native objects made by the host and by loading

static void flushOut(void)
{
    size_t off = 0;
    while(off < outlen) {
        ssize_t k = write(1, outbuf + off, outlen - off);
        if(k <= 0) break;
        off += k;
    }
    outlen = 0;
}

static size_t totalOut = 0;

static void outRaw(const char *s, size_t n)
{
    if(outlen + n + 1 > outcap) {
        outcap = (outlen + n + 1) * 2;
        outbuf = realloc(outbuf, outcap);
    }
    memcpy(outbuf + outlen, s, n);
    outlen += n;
}

static void out(const char *fmt, ...)
{
    char tmp[1024];
    va_list ap;
    int n;
    va_start(ap, fmt);
    n = vsnprintf(tmp, sizeof(tmp), fmt, ap);
    va_end(ap);
    if(n >= (int)sizeof(tmp)) n = sizeof(tmp) - 1;
    outRaw(tmp, n);
}

static void outStr(const char *s)
{
    outRaw("\"", 1);
    for(; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if(c == '"' || c == '\\') {
            char b[2] = { '\\', (char)c };
            outRaw(b, 2);
        } else if(c < 0x20 || c >= 0x7f) {
            out("\\u%04x", c);
        } else {
            outRaw((const char *)&c, 1);
        }
    }
    outRaw("\"", 1);
}

static void evEnd(void)
{
    outRaw("}\n", 2);
    totalOut += outlen;
    flushOut();
    if(totalOut > outLimit) {
        static const char msg[] = "{\"ev\":\"flood\"}\n";
        ssize_t k = write(1, msg, sizeof(msg) - 1); (void)k;
        _exit(0);
    }
}

// ------------------------------------------------------------------- VMs

struct Block
{
    unsigned long magic;
    struct Block *next, *prev;
    struct Alloc *owner;
    nkuint32_t size, id;
};

struct Alloc
{
    struct Block head;
    long live, bytes, total, bad;
    long failAt;      // countdown, 0 = off
    int failMode;     // 0: one failure, 1: fail from there on
    int failed;       // number of NULLs handed out
    int trace;
    nkuint32_t nextId;
};

struct ExtData
{
    int tag;
    int typeIdx;
    int hasRef;
    struct NKValue ref;
    struct ExtData *next, **pp;
};

struct Slot
{
    struct NKVM *vm;
    struct NKCompilerState *cs;
    struct Alloc *al;
    struct Lib *lib;
    int hasLib;
    char *libOpt;
    char swapOpt[16];
    long slices;
    nkuint32_t limMem, limStack, limFields, gcInt, gcNew;
    int loadFailed;
    int setMem, setStack, setFields, setInt, setNew;
};

struct Lib
{
    int slot;
    int alive;
    NKVMExternalDataTypeID types[NTYPE];
    int typeSet[NTYPE];
    int nextTag;
    int counter;     // subsystem data that must survive a snapshot
    int sawCleanup;
};

static struct Slot S[NVM];
static struct NKValue R[NREG];
static struct ExtData *extList = NULL;
static int extLive = 0;
static int subLive = 0;

struct Buf { unsigned char *d; size_t n, rd, cap; long failAfter; long ops; };
static struct Buf B[NBUF];

static void *hMalloc(nkuint32_t size, void *ud)
{
    struct Alloc *a = ud;
    struct Block *b;
    if(a->failAt > 0) {
        a->failAt--;
        if(!a->failAt) {
            if(a->failMode) a->failAt = 1;
            a->failed++;
            if(a->trace) { out("{\"ev\":\"allocfail\",\"size\":%u", size); evEnd(); }
            return NULL;
        }
    }
    b = malloc(sizeof(*b) + size);
    if(!b) return NULL;
    memset(b + 1, 0xA5, size);
    b->magic = 0x4e4b4e4b;
    b->owner = a;
    b->size = size;
    b->id = ++a->nextId;
    b->next = a->head.next;
    b->prev = &a->head;
    if(b->next) b->next->prev = b;
    a->head.next = b;
    a->live++;
    a->bytes += size;
    a->total++;
    if(a->trace) { out("{\"ev\":\"alloc\",\"id\":%u,\"size\":%u", b->id, size); evEnd(); }
    return b + 1;
}

static void hFree(void *p, void *ud)
{
    struct Alloc *a = ud;
    struct Block *b;
    if(!p) return;
    b = (struct Block *)p - 1;
    if(b->magic != 0x4e4b4e4b || b->owner != a) {
        out("{\"ev\":\"badfree\",\"why\":\"%s\"", b->magic != 0x4e4b4e4b ? "not a live block" : "wrong allocator or user data");
        evEnd();
        if(a) a->bad++;
        _exit(77);
    }
    if(a->trace) { out("{\"ev\":\"free\",\"id\":%u,\"size\":%u", b->id, b->size); evEnd(); }
    b->prev->next = b->next;
    if(b->next) b->next->prev = b->prev;
    b->magic = 0xdead;
    a->live--;
    a->bytes -= b->size;
    free(b);
}

// The library's own references to malloc() and friends are redirected
// here when the checks build it, so that memory it gets behind the
// host's allocation functions is seen.  It may do that for VMs created
// with the default functions, and to read a script file.
static int nativeOk = 0;
static long nativeLive = 0;

static void foreign(const char *f)
{
    if(nativeOk) return;
    out("{\"ev\":\"foreign\",\"f\":\"%s\"", f); evEnd();
}
void *nkh_malloc(size_t n) { foreign("malloc"); nativeLive++; return malloc(n); }
void *nkh_calloc(size_t n, size_t m) { foreign("calloc"); nativeLive++; return calloc(n, m); }
void *nkh_realloc(void *p, size_t n) { foreign("realloc"); if(!p) nativeLive++; return realloc(p, n); }
char *nkh_strdup(const char *t) { foreign("strdup"); nativeLive++; return strdup(t); }
void nkh_free(void *p) { if(p) { foreign("free"); nativeLive--; } free(p); }

static struct Slot *slotOf(struct NKVM *vm)
{
    int i;
    for(i = 0; i < NVM; i++) if(S[i].vm == vm) return &S[i];
    return NULL;
}

// ---------------------------------------------------------------- values

static void outInt(const char *t, long i, long e, const char *s)
{
    out("{\"t\":\"%s\",\"i\":%ld,\"e\":%ld,\"s\":", t, i, e);
    outStr(s);
    outRaw("}", 1);
}

static void outFloat(float f)
{
    double m = f;
    int e = 0;
    union { float f; nkuint32_t u; } u;
    u.f = f;
    while(e < 40 && m == m && fabs(m) < 1e9 && m != floor(m)) { m *= 2; e++; }
    if(m == m && fabs(m) < 2147483647.0 && m == floor(m)
       && !(m == 0 && signbit(f))) {
        outInt("f", (long)m, e, "");
    } else {
        // Not a small dyadic rational: give the bit pattern.
        outInt("f", (long)(int)u.u, -1, "");
    }
}

static void outVal(struct NKVM *vm, struct NKValue *v)
{
    switch(v->type) {
    case NK_VALUETYPE_INT: outInt("i", v->intData, 0, ""); break;
    case NK_VALUETYPE_FLOAT: outFloat(v->floatData); break;
    case NK_VALUETYPE_STRING: {
        const char *s = nkxValueToString(vm, v);
        outInt("s", 0, 0, s ? s : "<NULL>");
    } break;
    case NK_VALUETYPE_FUNCTIONID: outInt("fn", 0, 0, ""); break;
    case NK_VALUETYPE_NIL: outInt("n", 0, 0, ""); break;
    case NK_VALUETYPE_OBJECTID: {
        int tag = -1;
        struct Slot *s = slotOf(vm);
        struct Lib *lib = s ? s->lib : NULL;
        if(lib) {
            NKVMExternalDataTypeID t = nkxVmObjectGetExternalType(vm, v);
            int k;
            for(k = 0; k < NTYPE; k++) {
                if(lib->typeSet[k] && t.id != NK_INVALID_VALUE && t.id == lib->types[k].id) {
                    struct ExtData *d = nkxVmObjectGetExternalData(vm, v);
                    tag = d ? d->tag : -2;
                }
            }
        }
        outInt("o", tag, 0, "");
    } break;
    default: outInt("bad", v->type, 0, ""); break;
    }
}

// ------------------------------------------------------- external objects

static struct ExtData *newExt(int tag, int typeIdx)
{
    struct ExtData *d = calloc(1, sizeof(*d));
    d->tag = tag;
    d->typeIdx = typeIdx;
    d->next = extList;
    d->pp = &extList;
    if(d->next) d->next->pp = &d->next;
    extList = d;
    extLive++;
    return d;
}

static void freeExt(struct ExtData *d)
{
    *d->pp = d->next;
    if(d->next) d->next->pp = d->pp;
    free(d);
    extLive--;
}

static struct Lib *libOf(struct NKVM *vm)
{
    return nkxGetExternalSubsystemData(vm, "nkh");
}

static void extCleanup(struct NKVM *vm, struct NKValue *v, void *data)
{
    struct Lib *lib = libOf(vm);
    struct ExtData *d = data;
    if(!lib || !d) return;
    if(!mute) { out("{\"ev\":\"cleanup\",\"tag\":%d", d->tag); evEnd(); }
    freeExt(d);
}

static void extMark(struct NKVM *vm, struct NKValue *v, void *data, struct NKVMGCState *st)
{
    struct ExtData *d = data;
    if(d && d->hasRef) nkxVmGarbageCollect_markValue(vm, st, &d->ref);
}

static void extSerialize(struct NKVM *vm, struct NKValue *v, void *data)
{
    struct ExtData *d = data;
    struct Lib *lib = libOf(vm);
    int k = 0;
    if(!nkxSerializerGetWriteMode(vm)) {
        NKVMExternalDataTypeID t = nkxVmObjectGetExternalType(vm, v);
        if(lib) for(k = 0; k < NTYPE; k++) if(lib->typeSet[k] && lib->types[k].id == t.id) break;
        if(!d) {
            d = newExt(-3, k);
            nkxVmObjectSetExternalData(vm, v, d);
        }
    }
    if(!d) return;
    nkxSerializeData(vm, &d->tag, sizeof(d->tag));
    nkxSerializeData(vm, &d->hasRef, sizeof(d->hasRef));
    nkxSerializeData(vm, &d->ref, sizeof(d->ref));
    if(verbose && !nkxSerializerGetWriteMode(vm)) { out("{\"ev\":\"mk\",\"tag\":%d,\"k\":%d", d->tag, d->typeIdx); evEnd(); }
}

static void subCleanup(struct NKVM *vm, void *data)
{
    struct Lib *lib = data;
    int k;
    if(!lib) return;
    lib->sawCleanup++;
    if(!mute) { out("{\"ev\":\"subclean\",\"failed\":%d", nkxVmHasAllocationFailure(vm)); evEnd(); }
    for(k = 0; k < NTYPE; k++) {
        struct NKValue ob;
        nkuint32_t idx = 0;
        if(!lib->typeSet[k]) continue;
        while(nkxGetNextObjectOfExternalType(vm, lib->types[k], &ob, &idx)) {
            struct ExtData *d = nkxVmObjectGetExternalData(vm, &ob);
            if(d) {
                if(!mute) { out("{\"ev\":\"cleanup\",\"tag\":%d", d->tag); evEnd(); }
                /* Does nothing after an allocation failure, and nothing
                   looks at the data any more in that case. */
                nkxVmObjectSetExternalData(vm, &ob, NULL);
                freeExt(d);
            }
        }
    }
    if(slotOf(vm)) slotOf(vm)->lib = NULL;
    subLive--;
    free(lib);
}

static void subSerialize(struct NKVM *vm, void *data)
{
    struct Lib *lib = data;
    if(!lib) return;
    nkxSerializeData(vm, &lib->counter, sizeof(lib->counter));
    nkxSerializeData(vm, &lib->nextTag, sizeof(lib->nextTag));
}

// ------------------------------------------------------- script functions

static void evArgs(const char *name, struct NKVMFunctionCallbackData *d)
{
    nkuint32_t i;
    struct NKVM *vm = d->vm;
    out("{\"ev\":\"call\",\"f\":\"%s\",\"args\":[", name);
    for(i = 0; i < d->argumentCount; i++) {
        if(i) outRaw(",", 1);
        outVal(vm, &d->arguments[i]);
    }
    outRaw("]", 1);
    evEnd();
}

static void f_print(struct NKVMFunctionCallbackData *d) { evArgs("print", d); }

static void f_ii(struct NKVMFunctionCallbackData *d) { evArgs("ii", d); d->returnValue = d->arguments[0]; }
static void f_is(struct NKVMFunctionCallbackData *d) { evArgs("is", d); d->returnValue = d->arguments[1]; }
static void f_z(struct NKVMFunctionCallbackData *d) { evArgs("z", d); }
static void f_any2(struct NKVMFunctionCallbackData *d) { evArgs("any2", d); d->returnValue = d->arguments[1]; }
static void f_ob(struct NKVMFunctionCallbackData *d) { evArgs("ob", d); d->returnValue = d->arguments[0]; }
static void f_fl(struct NKVMFunctionCallbackData *d) { evArgs("fl", d); d->returnValue = d->arguments[0]; }

static void mk(struct NKVMFunctionCallbackData *d, int k)
{
    struct NKVM *vm = d->vm;
    struct Lib *lib = libOf(vm);
    struct ExtData *e;
    int tag;
    if(!lib) return;
    tag = d->argumentCount ? nkxValueToInt(vm, &d->arguments[0]) : lib->nextTag++;
    nkxCreateObject(vm, &d->returnValue);
    if(nkxVmHasErrors(vm)) return;
    e = newExt(tag, k);
    nkxVmObjectSetExternalData(vm, &d->returnValue, e);
    nkxVmObjectSetExternalType(vm, &d->returnValue, lib->types[k]);
    if(!mute) { out("{\"ev\":\"mk\",\"tag\":%d,\"k\":%d", tag, k); evEnd(); }
}
static void f_mk(struct NKVMFunctionCallbackData *d) { mk(d, 0); }
static void f_mk1(struct NKVMFunctionCallbackData *d) { mk(d, 1); }

// Typed accessor: argument 0 must be a T0 object.
static void f_tag(struct NKVMFunctionCallbackData *d)
{
    struct Lib *lib = libOf(d->vm);
    struct ExtData *e;
    if(!lib) return;
    e = nkxFunctionCallbackGetExternalDataArgument(d, "tag", 0, lib->types[0]);
    out("{\"ev\":\"tag\",\"tag\":%d", e ? e->tag : -9); evEnd();
    if(e) nkxValueSetInt(d->vm, &d->returnValue, e->tag);
}

// setref(a, b): external data of a references b (seen by the GC mark callback only).
static void f_setref(struct NKVMFunctionCallbackData *d)
{
    struct Lib *lib = libOf(d->vm);
    struct ExtData *e;
    if(!lib) return;
    e = nkxFunctionCallbackGetExternalDataArgument(d, "setref", 0, lib->types[0]);
    if(e) { e->hasRef = 1; e->ref = d->arguments[1]; }
}
static void f_getref(struct NKVMFunctionCallbackData *d)
{
    struct Lib *lib = libOf(d->vm);
    struct ExtData *e;
    if(!lib) return;
    e = nkxFunctionCallbackGetExternalDataArgument(d, "getref", 0, lib->types[0]);
    if(e && e->hasRef) d->returnValue = e->ref;
    else nkxValueSetNil(d->vm, &d->returnValue);
}

static void f_gc(struct NKVMFunctionCallbackData *d)
{
    nkxVmGarbageCollect(d->vm);
    out("{\"ev\":\"gc\""); evEnd();
}
static void f_hold(struct NKVMFunctionCallbackData *d)
{
    nkxVmObjectAcquireHandle(d->vm, &d->arguments[0]);
    d->returnValue = d->arguments[0];
}
static void f_drop(struct NKVMFunctionCallbackData *d)
{
    nkxVmObjectReleaseHandle(d->vm, &d->arguments[0]);
}
static void f_hcount(struct NKVMFunctionCallbackData *d)
{
    nkxValueSetInt(d->vm, &d->returnValue,
        nkxVmObjectGetExternalHandleCount(d->vm, &d->arguments[0]));
}
static void f_fail(struct NKVMFunctionCallbackData *d)
{
    nkxAddError(d->vm, d->argumentCount ? nkxValueToString(d->vm, &d->arguments[0]) : "fail");
}
static void f_oom(struct NKVMFunctionCallbackData *d)
{
    nkxForceCatastrophicFailure(d->vm);
}
// call(f, args...): host re-enters the VM.
static void f_call(struct NKVMFunctionCallbackData *d)
{
    struct NKValue args[8], f, ret;
    nkuint32_t i, n = d->argumentCount ? d->argumentCount - 1 : 0;
    if(!d->argumentCount) return;
    if(n > 8) n = 8;
    f = d->arguments[0];
    for(i = 0; i < n; i++) args[i] = d->arguments[i + 1];
    memset(&ret, 0, sizeof(ret));
    out("{\"ev\":\"enter\""); evEnd();
    nkxVmCallFunction(d->vm, &f, n, args, &ret);
    out("{\"ev\":\"leave\",\"err\":%d", nkxVmHasErrors(d->vm)); evEnd();
    if(!nkxVmHasErrors(d->vm)) d->returnValue = ret;
}
static void f_bump(struct NKVMFunctionCallbackData *d)
{
    struct Lib *lib = libOf(d->vm);
    if(lib) nkxValueSetInt(d->vm, &d->returnValue, ++lib->counter);
}
static void f_count(struct NKVMFunctionCallbackData *d)
{
    if(nkxFunctionCallbackCheckArgCount(d, 2, "count")) {
        evArgs("count", d);
        nkxValueSetInt(d->vm, &d->returnValue, 2);
    }
}
static void f_chk(struct NKVMFunctionCallbackData *d)
{
    if(nkxFunctionCallbackCheckArguments(d, "chk", 2, NK_VALUETYPE_INT, NK_VALUETYPE_STRING)) {
        evArgs("chk", d);
        nkxValueSetInt(d->vm, &d->returnValue, 1);
    }
}

struct FnDef { const char *name; NKVMFunctionCallback f; };

// Library setup.  `opt` is a string of letters that leaves out or changes
// parts, for registration-mismatch experiments:
//   'p' no print    'm' no mk   't' skip type T0   'u' skip type T1
//   's' no subsystem  'r' register functions in reverse order
//   'x' register one extra function first, 'y' one extra type first
static void setupLib(int slot, const char *opt)
{
    struct Slot *s = &S[slot];
    struct NKVM *vm = s->vm;
    struct NKCompilerState *cs = s->cs;
    struct Lib *lib = calloc(1, sizeof(*lib));
    int k;
    static const char *tn[NTYPE] = { "T0", "T1", "T2" };
    NKVMExternalDataTypeID any = { NK_INVALID_VALUE };

    lib->slot = slot;
    lib->nextTag = 1000;
    subLive++;
    if(!strchr(opt, 's')) {
        if(!nkxInitSubsystem(vm, cs, "nkh", lib, subCleanup, subSerialize)) {
            free(lib);
            subLive--;
            out("{\"ev\":\"libfail\""); evEnd();
            return;
        }
    } else {
        free(lib); subLive--;
        lib = NULL;
    }
    s->lib = lib;
    s->hasLib = 1;
    free(s->libOpt);
    s->libOpt = strdup(opt);
    if(strchr(opt, 'y')) nkxVmRegisterExternalType(vm, "Textra", NULL, NULL, NULL);
    for(k = 0; k < NTYPE; k++) {
        int kk = strchr(opt, 'z') ? NTYPE - 1 - k : k;
        if(lib && !(kk == 0 && strchr(opt, 't')) && !(kk == 1 && strchr(opt, 'u'))) {
            lib->types[kk] = nkxVmRegisterExternalType(vm, tn[kk], extSerialize, extCleanup, extMark);
            lib->typeSet[kk] = lib->types[kk].id != NK_INVALID_VALUE;
        }
    }
    if(!lib) return;

#define DEF(nm, fn, ...) nkxVmSetupExternalFunction(vm, cs, nm, fn, nktrue, __VA_ARGS__)
    if(strchr(opt, 'x')) DEF("extra", f_z, 0);
    {
        int pass;
        int rev = strchr(opt, 'r') != NULL;
        for(pass = 0; pass < 2; pass++) {
            if(pass == (rev ? 1 : 0)) {
                if(!strchr(opt, 'p')) DEF("print", f_print, NK_INVALID_VALUE);
                DEF("ii", f_ii, 2, NK_VALUETYPE_INT, NK_VALUETYPE_INT);
                DEF("is", f_is, 2, NK_VALUETYPE_INT, NK_VALUETYPE_STRING);
                DEF("z", f_z, 0);
                DEF("fl", f_fl, 1, NK_VALUETYPE_FLOAT);
                DEF("any2", f_any2, 2, NK_VALUETYPE_NIL, NK_VALUETYPE_NIL);
                DEF("ob", f_ob, 1, NK_VALUETYPE_OBJECTID, any);
            } else {
                if(!strchr(opt, 'm')) DEF("mk", f_mk, NK_INVALID_VALUE);
                DEF("mk1", f_mk1, NK_INVALID_VALUE);
                DEF("tag", f_tag, 1, NK_VALUETYPE_OBJECTID, lib->typeSet[0] ? lib->types[0] : any);
                DEF("setref", f_setref, 2, NK_VALUETYPE_OBJECTID, lib->typeSet[0] ? lib->types[0] : any, NK_VALUETYPE_NIL);
                DEF("getref", f_getref, 1, NK_VALUETYPE_OBJECTID, lib->typeSet[0] ? lib->types[0] : any);
                DEF("gc", f_gc, 0);
                DEF("hold", f_hold, 1, NK_VALUETYPE_NIL);
                DEF("drop", f_drop, 1, NK_VALUETYPE_NIL);
                DEF("hcount", f_hcount, 1, NK_VALUETYPE_NIL);
                DEF("fail", f_fail, NK_INVALID_VALUE);
                DEF("oom", f_oom, 0);
                DEF("call", f_call, NK_INVALID_VALUE);
                DEF("bump", f_bump, 0);
                DEF("count", f_count, NK_INVALID_VALUE);
                DEF("chk", f_chk, NK_INVALID_VALUE);
            }
        }
    }
}

// -------------------------------------------------------------- commands

static unsigned char *unhex(const char *h, size_t *n)
{
    size_t len = strlen(h) / 2, i;
    unsigned char *r;
    if(!strcmp(h, "-")) len = 0;
    r = malloc(len + 1);
    for(i = 0; i < len; i++) {
        unsigned x;
        sscanf(h + 2 * i, "%2x", &x);
        r[i] = x;
    }
    r[len] = 0;
    if(n) *n = len;
    return r;
}

static void getVal(struct NKVM *vm, const char *t, struct NKValue *v)
{
    memset(v, 0, sizeof(*v));
    switch(t[0]) {
    case 'i': nkxValueSetInt(vm, v, (nkint32_t)strtol(t + 2, NULL, 10)); break;
    case 'f': nkxValueSetFloat(vm, v, (float)strtod(t + 2, NULL)); break;
    case 's': {
        char *s = (char *)unhex(t + 2, NULL);
        nkxValueSetString(vm, v, s);
        free(s);
    } break;
    case 'n': nkxValueSetNil(vm, v); break;
    case 'r': *v = R[atoi(t + 1) % NREG]; break;
    case 'g': {
        char *s = (char *)unhex(t + 2, NULL);
        struct Slot *sl = slotOf(vm);
        struct NKValue *p = nkxVmFindGlobalVariable(vm, sl ? sl->cs : NULL, s);
        if(p) *v = *p; else nkxValueSetNil(vm, v);
        free(s);
    } break;
    }
}

static nkbool bufWriter(void *data, nkuint32_t size, void *ud, nkbool w)
{
    struct Buf *b = ud;
    b->ops++;
    if(b->failAfter > 0 && --b->failAfter == 0) { b->failAfter = 1; return nkfalse; }
    if(w) {
        if(b->n + size > b->cap) {
            b->cap = (b->n + size) * 2;
            b->d = realloc(b->d, b->cap);
        }
        if(size) memcpy(b->d + b->n, data, size);
        b->n += size;
    } else {
        if(size > b->n - b->rd) return nkfalse;
        if(size) memcpy(data, b->d + b->rd, size);
        b->rd += size;
    }
    return nktrue;
}

static void evErrors(struct Slot *s, const char *ev)
{
    struct NKVM *vm = s->vm;
    nkuint32_t n = nkxGetErrorLength(vm);
    char *t = malloc(n + 1);
    memset(t, 'Z', n + 1);
    t[n] = 0;
    if(nkxVmHasAllocationFailure(vm)) {
        t[0] = 0;
        n = 0;
    } else {
        nkxGetErrorText(vm, t);
    }
    out("{\"ev\":\"%s\",\"n\":%u,\"has\":%d,\"oom\":%d,\"ended\":%d,\"len\":%u,\"text\":", ev,
        nkxGetErrorCount(vm), nkxVmHasErrors(vm), nkxVmHasAllocationFailure(vm),
        nkxVmHasAllocationFailure(vm) ? 0 : nkxVmProgramHasEnded(vm), n);
    outStr(t);
    evEnd();
    free(t);
}

static void applyLimits(struct Slot *s)
{
    if(s->setMem) nkxSetMaxAllocatedMemory(s->vm, s->limMem);
    if(s->setStack) nkxSetMaxStackSize(s->vm, s->limStack);
    if(s->setFields) nkxSetMaxFieldsPerObject(s->vm, s->limFields);
    if(s->setInt) nkxSetGarbageCollectionInterval(s->vm, s->gcInt);
    if(s->setNew) nkxSetGarbageCollectionNewObjectInterval(s->vm, s->gcNew);
}

static struct Alloc *newAlloc(void)
{
    return calloc(1, sizeof(struct Alloc));
}

static void createVm(struct Slot *s)
{
    struct NKVMCreateParams p;
    memset(&p, 0, sizeof(p));
    if(!s->al) s->al = newAlloc();
    p.mallocReplacement = hMalloc;
    p.freeReplacement = hFree;
    p.mallocAndFreeReplacementUserData = s->al;
    s->vm = nkxVmCreateEx(&p);
    s->cs = NULL;
}

// Delete a VM; report what its allocator still holds.
static void deleteVm(struct Slot *s, int quiet)
{
    struct Alloc *al = s->al;
    if(s->vm) nkxVmDelete(s->vm);
    s->vm = NULL;
    s->cs = NULL;
    s->lib = NULL;
    s->hasLib = 0;
    s->loadFailed = 0;
    if(!quiet) {
        out("{\"ev\":\"del\",\"live\":%ld,\"bytes\":%ld", al->live, al->bytes);
        evEnd();
    } else if(al->live) {
        out("{\"ev\":\"oldleak\",\"live\":%ld,\"bytes\":%ld", al->live, al->bytes);
        evEnd();
    }
    {
        struct Block *b = al->head.next;
        while(b) { struct Block *n = b->next; b->magic = 0; free(b); b = n; }
    }
    free(al);
    s->al = NULL;
}

// Save the VM in the slot, build a fresh one, load it there, drop the old.
static int swapVm(int slot)
{
    struct Slot *s = &S[slot];
    struct Slot old = *s;
    struct Buf b;
    int ok;
    nkuint32_t il = nkxGetRemainingInstructionLimit(s->vm);
    memset(&b, 0, sizeof(b));
    if(!nkxVmSerialize(s->vm, bufWriter, &b, nktrue)) {
        free(b.d);
        out("{\"ev\":\"serfail\""); evEnd();
        return 0;
    }
    s->al = NULL;
    s->libOpt = NULL;
    createVm(s);
    applyLimits(s);
    // Registrations in another order, or more of them, must not matter.
    setupLib(slot, old.swapOpt[0] ? old.swapOpt : old.libOpt ? old.libOpt : "");
    if(old.swapOpt[0]) { free(s->libOpt); s->libOpt = strdup(old.libOpt ? old.libOpt : ""); }
    ok = nkxVmSerialize(s->vm, bufWriter, &b, nkfalse);
    if(!ok) {
        out("{\"ev\":\"loadfail\""); evEnd();
    } else if(b.rd != b.n) {
        out("{\"ev\":\"loadshort\",\"left\":%ld", (long)(b.n - b.rd)); evEnd();
    }
    applyLimits(s);
    nkxSetRemainingInstructionLimit(s->vm, il);
    free(b.d);
    {
        struct Slot tmp = *s;
        mute++;
        *s = old;
        deleteVm(s, 1);
        free(old.libOpt);
        mute--;
        *s = tmp;
    }
    return ok;
}

static void evMem(struct Slot *s)
{
    out("{\"ev\":\"mem\",\"cur\":%u,\"peak\":%u,\"bytes\":%ld,\"live\":%ld",
        nkxVmGetCurrentMemoryUsage(s->vm), nkxVmGetPeakMemoryUsage(s->vm),
        s->al->bytes, s->al->live);
    evEnd();
}

static int cmd(int argc, char **a)
{
    const char *c = a[0];
    struct Slot *s = argc > 1 ? &S[atoi(a[1]) % NVM] : &S[0];
    int si = (int)(s - S);
#define IS(x) (!strcmp(c, x))
#define NEED() do { if(!s->vm) return 1; } while(0)
    if(IS("new")) {
        if(!s->al) s->al = newAlloc();
        if(argc > 2) s->al->trace = atoi(a[2]);
        createVm(s);
        out("{\"ev\":\"new\",\"ok\":%d,\"oom\":%d", s->vm != NULL,
            s->vm ? nkxVmHasAllocationFailure(s->vm) : 1);
        evEnd();
    } else if(IS("newd")) {        // a VM with the default allocation functions
        nativeOk = 1;
        s->al = newAlloc();
        s->vm = nkxVmCreate();
        s->cs = NULL;
    } else if(IS("native")) {      // what it holds of the process's heap
        out("{\"ev\":\"native\",\"live\":%ld", nativeLive); evEnd();
    } else if(IS("compilefile")) { // compilefile V pathhex
        char *fn;
        int was = nativeOk;
        nkbool ok;
        NEED();
        if(!s->cs) return 1;
        fn = (char *)unhex(a[2], NULL);
        nativeOk = 1;
        ok = nkxCompilerCompileScriptFile(s->cs, fn);
        nativeOk = was;
        free(fn);
        out("{\"ev\":\"compiled\",\"ok\":%d,\"err\":%d", ok, nkxVmHasErrors(s->vm));
        evEnd();
    } else if(IS("prefail")) {     // fault injection to be armed before creation
        s->al = newAlloc();
        s->al->failAt = atol(a[2]);
        s->al->failMode = argc > 3 ? atoi(a[3]) : 0;
    } else if(IS("failat")) {
        NEED();
        s->al->failAt = atol(a[2]);
        s->al->failMode = argc > 3 ? atoi(a[3]) : 0;
    } else if(IS("failinfo")) {
        NEED();
        out("{\"ev\":\"failinfo\",\"total\":%ld,\"failed\":%d", s->al->total, s->al->failed);
        evEnd();
        s->al->failAt = 0;
    } else if(IS("trace")) {
        NEED();
        s->al->trace = atoi(a[2]);
    } else if(IS("del")) {
        if(s->vm || s->al) deleteVm(s, 0);
    } else if(IS("lim")) {
        nkuint32_t n = (nkuint32_t)strtoul(a[3], NULL, 10);
        NEED();
        if(!strcmp(a[2], "mem")) { s->limMem = n; s->setMem = 1; nkxSetMaxAllocatedMemory(s->vm, n); }
        else if(!strcmp(a[2], "stack")) { s->limStack = n; s->setStack = 1; nkxSetMaxStackSize(s->vm, n); }
        else if(!strcmp(a[2], "fields")) { s->limFields = n; s->setFields = 1; nkxSetMaxFieldsPerObject(s->vm, n); }
        else if(!strcmp(a[2], "gcint")) { s->gcInt = n; s->setInt = 1; nkxSetGarbageCollectionInterval(s->vm, n); }
        else if(!strcmp(a[2], "gcnew")) { s->gcNew = n; s->setNew = 1; nkxSetGarbageCollectionNewObjectInterval(s->vm, n); }
        else if(!strcmp(a[2], "instr")) { nkxSetRemainingInstructionLimit(s->vm, n); }
    } else if(IS("memrel")) {      // limit = current usage + n
        NEED();
        s->limMem = nkxVmGetCurrentMemoryUsage(s->vm) + (nkuint32_t)strtol(a[2], NULL, 10);
        s->setMem = 1;
        nkxSetMaxAllocatedMemory(s->vm, s->limMem);
    } else if(IS("getlim")) {
        NEED();
        out("{\"ev\":\"lims\",\"mem\":%d,\"stack\":%d,\"fields\":%d,\"gcint\":%d,\"gcnew\":%d,\"instr\":%d",
            (int)nkxGetMaxAllocatedMemory(s->vm), (int)nkxGetMaxStackSize(s->vm),
            (int)nkxGetMaxFieldsPerObject(s->vm), (int)nkxGetGarbageCollectionInterval(s->vm),
            (int)nkxGetGarbageCollectionNewObjectInterval(s->vm),
            (int)nkxGetRemainingInstructionLimit(s->vm));
        evEnd();
    } else if(IS("lib")) {
        NEED();
        setupLib(si, argc > 2 ? a[2] : "");
    } else if(IS("cs")) {
        NEED();
        s->cs = nkxCompilerCreate(s->vm);
    } else if(IS("compile")) {     // compile V fnamehex srchex
        char *fn, *src;
        nkbool ok;
        NEED();
        if(!s->cs) return 1;
        fn = (char *)unhex(a[2], NULL);
        src = (char *)unhex(a[3], NULL);
        ok = nkxCompilerCompileScript(s->cs, src, fn);
        free(fn); free(src);
        out("{\"ev\":\"compiled\",\"ok\":%d,\"err\":%d", ok, nkxVmHasErrors(s->vm));
        evEnd();
    } else if(IS("fin")) {
        NEED();
        if(s->cs) nkxCompilerFinalize(s->cs);
        s->cs = NULL;
    } else if(IS("pfin")) {
        NEED();
        if(s->cs) nkxCompilerPartiallyFinalize(s->cs);
    } else if(IS("repl")) {        // repl V srchex [slice] : one line of the REPL loop
        char *src;
        nkuint32_t w;
        NEED();
        if(!s->cs) return 1;
        w = nkxCompilerGetInstructionWriteIndex(s->cs);
        src = (char *)unhex(a[2], NULL);
        nkxCompilerCompileScript(s->cs, src, "<stdin>");
        free(src);
        if(!nkxVmHasErrors(s->vm)) {
            out("{\"ev\":\"rcompiled\",\"ok\":1"); evEnd();
            nkxCompilerPartiallyFinalize(s->cs);
            if(argc > 3) {     // in slices
                nkuint32_t slice = (nkuint32_t)strtoul(a[3], NULL, 10);
                do {
                    nkxVmIterate(s->vm, slice);
                } while(!nkxVmHasErrors(s->vm) && !nkxVmProgramHasEnded(s->vm));
            } else {
                nkxVmIterate(s->vm, NK_UINT_MAX);
            }
        } else {
            out("{\"ev\":\"rcompiled\",\"ok\":0"); evEnd();
        }
        evErrors(s, "rdone");
        if(nkxVmHasErrors(s->vm)) nkxCompilerClearReplErrorState(s->cs, w);
    } else if(IS("recover")) {     // recover V : what the REPL loop does after an error
        NEED();
        if(!s->cs) return 1;
        evErrors(s, "rdone");
        if(nkxVmHasErrors(s->vm)) nkxCompilerClearReplErrorState(s->cs, nkxCompilerGetInstructionWriteIndex(s->cs));
    } else if(IS("iter")) {
        NEED();
        nkxVmIterate(s->vm, (nkuint32_t)strtoul(a[2], NULL, 10));
    } else if(IS("exec")) {
        nkbool r;
        NEED();
        r = nkxVmExecuteProgram(s->vm);
        out("{\"ev\":\"exec\",\"r\":%d", r); evEnd();
    } else if(IS("run")) {         // run V slice gcEvery shrinkEvery serEvery maxslices
        nkuint32_t slice = (nkuint32_t)strtoul(a[2], NULL, 10);
        long g = atol(a[3]), sh = atol(a[4]), se = atol(a[5]), mx = atol(a[6]), k;
        NEED();
        if(s->loadFailed) mx = 0;
        for(k = 1; k <= mx; k++) {
            if(nkxVmHasErrors(s->vm) || nkxVmProgramHasEnded(s->vm)) break;
            nkxVmIterate(s->vm, slice);
            if(nkxVmHasErrors(s->vm)) break;
            if(g && k % g == 0) nkxVmGarbageCollect(s->vm);
            if(sh && k % sh == 0) nkxVmShrink(s->vm);
            if(se && k % se == 0) { if(!swapVm(si)) break; }
        }
        s->slices = k - (nkxVmHasErrors(s->vm) ? 0 : 1);
        evErrors(s, "ran");
    } else if(IS("slices")) {       // how many slices the last run took (the one that failed included)
        out("{\"ev\":\"slices\",\"k\":%ld", s->slices); evEnd();
    } else if(IS("call0")) {        // call0 V namehex
        struct NKValue f, ret;
        NEED();
        getVal(s->vm, a[2], &f);
        memset(&ret, 0, sizeof(ret));
        nkxVmCallFunction(s->vm, &f, 0, NULL, &ret);
        out("{\"ev\":\"ret\",\"err\":%d,\"v\":", nkxVmHasErrors(s->vm));
        outVal(s->vm, &ret);
        evEnd();
    } else if(IS("callr")) {        // callr V dst fn args...
        struct NKValue f, ret, args[8];
        int i, n = argc - 4;
        NEED();
        getVal(s->vm, a[3], &f);
        for(i = 0; i < n && i < 8; i++) getVal(s->vm, a[4 + i], &args[i]);
        memset(&ret, 0, sizeof(ret));
        nkxVmCallFunction(s->vm, &f, n, args, &ret);
        if(a[2][0] == 'r') R[atoi(a[2] + 1) % NREG] = ret;
        out("{\"ev\":\"ret\",\"err\":%d,\"v\":", nkxVmHasErrors(s->vm));
        outVal(s->vm, &ret);
        evEnd();
    } else if(IS("err")) {
        NEED();
        evErrors(s, "err");
    } else if(IS("mem")) {
        NEED();
        evMem(s);
    } else if(IS("gc")) {
        NEED();
        nkxVmGarbageCollect(s->vm);
        out("{\"ev\":\"gc\""); evEnd();
    } else if(IS("shrink")) {
        NEED();
        nkxVmShrink(s->vm);
    } else if(IS("swaplib")) {      // swaplib V opts : registrations of the VMs that swap makes
        NEED();
        snprintf(s->swapOpt, sizeof(s->swapOpt), "%s", a[2]);
    } else if(IS("swap")) {
        NEED();
        out("{\"ev\":\"swap\",\"ok\":%d", swapVm(si)); evEnd();
    } else if(IS("ser")) {          // ser V buf [failAfterWrites]
        struct Buf *b = &B[atoi(a[2]) % NBUF];
        nkbool ok;
        NEED();
        b->n = b->rd = 0; b->ops = 0;
        b->failAfter = argc > 3 ? atol(a[3]) : 0;
        ok = nkxVmSerialize(s->vm, bufWriter, b, nktrue);
        b->failAfter = 0;
        out("{\"ev\":\"ser\",\"ok\":%d,\"n\":%ld,\"ops\":%ld,\"err\":%d", ok, (long)b->n, b->ops, nkxVmHasErrors(s->vm));
        evEnd();
    } else if(IS("load")) {         // load V buf [cut | -1] [flipoff] [flipxor] ; reads what ser wrote
        struct Buf *b = &B[atoi(a[2]) % NBUF];
        size_t n = b->n;
        long cut = argc > 3 ? atol(a[3]) : -1;
        unsigned char keep = 0;
        long fo = -1;
        nkbool ok;
        struct NKValue *p;
        NEED();
        b->rd = 0; b->ops = 0; b->failAfter = 0;
        if(cut >= 0 && (size_t)cut < n) b->n = cut;
        if(argc > 5) {
            fo = atol(a[4]);
            if(fo >= 0 && (size_t)fo < n) { keep = b->d[fo]; b->d[fo] ^= (unsigned char)atoi(a[5]); }
        }
        ok = nkxVmSerialize(s->vm, bufWriter, b, nkfalse);
        s->loadFailed = !ok;
        out("{\"ev\":\"load\",\"ok\":%d,\"err\":%d,\"oom\":%d,\"left\":%ld", ok, nkxVmHasErrors(s->vm),
            nkxVmHasAllocationFailure(s->vm), (long)(b->n - b->rd));
        evEnd();
        b->n = n;
        if(fo >= 0 && (size_t)fo < n) b->d[fo] = keep;
        (void)p;
    } else if(IS("loadops")) {      // load V buf failing at the k-th read
        struct Buf *b = &B[atoi(a[2]) % NBUF];
        nkbool ok;
        NEED();
        b->rd = 0; b->ops = 0;
        b->failAfter = atol(a[3]);
        ok = nkxVmSerialize(s->vm, bufWriter, b, nkfalse);
        s->loadFailed = !ok;
        b->failAfter = 0;
        out("{\"ev\":\"load\",\"ok\":%d,\"err\":%d,\"oom\":%d,\"left\":%ld", ok, nkxVmHasErrors(s->vm),
            nkxVmHasAllocationFailure(s->vm), (long)(b->n - b->rd));
        evEnd();
    } else if(IS("cmpbuf")) {
        struct Buf *x = &B[atoi(a[1]) % NBUF], *y = &B[atoi(a[2]) % NBUF];
        size_t i = 0;
        while(i < x->n && i < y->n && x->d[i] == y->d[i]) i++;
        out("{\"ev\":\"cmpbuf\",\"eq\":%d,\"nx\":%ld,\"ny\":%ld,\"at\":%ld",
            x->n == y->n && i == x->n, (long)x->n, (long)y->n, (long)i);
        evEnd();
    } else if(IS("dump")) {
        FILE *f;
        NEED();
        f = fopen("/dev/null", "w");
        if(f) { nkxDbgDumpState(s->vm, NULL, f); fclose(f); }
        out("{\"ev\":\"dump\""); evEnd();
    } else if(IS("setr")) {         // setr V r val
        NEED();
        getVal(s->vm, a[3], &R[atoi(a[2] + (a[2][0] == 'r')) % NREG]);
    } else if(IS("val")) {          // val V val
        struct NKValue v;
        NEED();
        getVal(s->vm, a[2], &v);
        out("{\"ev\":\"val\",\"v\":"); outVal(s->vm, &v); evEnd();
    } else if(IS("conv")) {         // conv V val : public conversions
        struct NKValue v;
        int i; float f;
        NEED();
        getVal(s->vm, a[2], &v);
        i = nkxValueToInt(s->vm, &v);
        f = nkxValueToFloat(s->vm, &v);
        {
            const char *t = v.type == NK_VALUETYPE_FUNCTIONID || v.type == NK_VALUETYPE_OBJECTID ? "?" : nkxValueToString(s->vm, &v);
            out("{\"ev\":\"conv\",\"err\":%d,\"i\":%d,\"f\":", nkxVmHasErrors(s->vm), i);
            outFloat(f); out(",\"s\":");
            outStr(t ? t : "<NULL>");
        }
        evEnd();
    } else if(IS("obj")) {          // obj V r
        NEED();
        nkxCreateObject(s->vm, &R[atoi(a[2] + (a[2][0] == 'r')) % NREG]);
    } else if(IS("ext")) {          // ext V r typeIdx tag
        struct NKValue *v = &R[atoi(a[2] + (a[2][0] == 'r')) % NREG];
        int k = atoi(a[3]);
        NEED();
        nkxCreateObject(s->vm, v);
        if(!nkxVmHasErrors(s->vm) && s->lib) {
            struct ExtData *d = newExt(atoi(a[4]), k);
            nkxVmObjectSetExternalData(s->vm, v, d);
            nkxVmObjectSetExternalType(s->vm, v, s->lib->types[k]);
            if(verbose) { out("{\"ev\":\"mk\",\"tag\":%d,\"k\":%d", d->tag, k); evEnd(); }
        }
    } else if(IS("fset")) {         // fset V ob key val
        struct NKValue o, k, v, *p;
        NEED();
        getVal(s->vm, a[2], &o); getVal(s->vm, a[3], &k); getVal(s->vm, a[4], &v);
        p = nkxVmObjectFindOrAddEntry(s->vm, &o, &k, nkfalse);
        if(p) *p = v;
        out("{\"ev\":\"fset\",\"ok\":%d,\"err\":%d", p != NULL, nkxVmHasErrors(s->vm)); evEnd();
    } else if(IS("fget")) {         // fget V ob key [dst]
        struct NKValue o, k, *p;
        NEED();
        getVal(s->vm, a[2], &o); getVal(s->vm, a[3], &k);
        p = nkxVmObjectFindOrAddEntry(s->vm, &o, &k, nktrue);
        if(p && argc > 4) R[atoi(a[4] + 1) % NREG] = *p;
        out("{\"ev\":\"fget\",\"ok\":%d,\"err\":%d,\"v\":", p != NULL, nkxVmHasErrors(s->vm));
        if(p) outVal(s->vm, p); else outInt("none", 0, 0, "");
        evEnd();
    } else if(IS("fclr")) {
        struct NKValue o, k;
        NEED();
        getVal(s->vm, a[2], &o); getVal(s->vm, a[3], &k);
        nkxVmObjectClearEntry(s->vm, &o, &k);
        out("{\"ev\":\"fclr\",\"err\":%d", nkxVmHasErrors(s->vm)); evEnd();
    } else if(IS("size")) {
        struct NKValue o;
        NEED();
        getVal(s->vm, a[2], &o);
        out("{\"ev\":\"size\",\"n\":%u,\"err\":%d", nkxVmObjectGetSize(s->vm, &o), nkxVmHasErrors(s->vm)); evEnd();
    } else if(IS("acq")) {
        struct NKValue o;
        NEED();
        getVal(s->vm, a[2], &o);
        nkxVmObjectAcquireHandle(s->vm, &o);
        out("{\"ev\":\"acq\",\"err\":%d,\"n\":%u", nkxVmHasErrors(s->vm), nkxVmObjectGetExternalHandleCount(s->vm, &o)); evEnd();
    } else if(IS("rel")) {
        struct NKValue o;
        NEED();
        getVal(s->vm, a[2], &o);
        nkxVmObjectReleaseHandle(s->vm, &o);
        out("{\"ev\":\"rel\",\"err\":%d,\"n\":%u", nkxVmHasErrors(s->vm), nkxVmObjectGetExternalHandleCount(s->vm, &o)); evEnd();
    } else if(IS("hc")) {
        struct NKValue o;
        NEED();
        getVal(s->vm, a[2], &o);
        out("{\"ev\":\"hc\",\"n\":%u", nkxVmObjectGetExternalHandleCount(s->vm, &o)); evEnd();
    } else if(IS("sett")) {         // sett V ob typeIdx
        struct NKValue o;
        int r;
        NEED();
        getVal(s->vm, a[2], &o);
        r = s->lib ? nkxVmObjectSetExternalType(s->vm, &o, s->lib->types[atoi(a[3])]) : 0;
        out("{\"ev\":\"sett\",\"ok\":%d,\"err\":%d", r, nkxVmHasErrors(s->vm)); evEnd();
    } else if(IS("gett")) {
        struct NKValue o;
        NKVMExternalDataTypeID t;
        NEED();
        getVal(s->vm, a[2], &o);
        t = nkxVmObjectGetExternalType(s->vm, &o);
        out("{\"ev\":\"gett\",\"name\":"); outStr(nkxVmGetExternalTypeName(s->vm, t)); evEnd();
    } else if(IS("setref")) {       // setref V ob val
        struct NKValue o, v;
        struct ExtData *d;
        NEED();
        getVal(s->vm, a[2], &o); getVal(s->vm, a[3], &v);
        d = nkxVmObjectGetExternalData(s->vm, &o);
        if(d) { d->hasRef = v.type != NK_VALUETYPE_NIL; d->ref = v; }
    } else if(IS("iterx")) {        // iterx V typeIdx -> tags
        struct NKValue o;
        nkuint32_t idx = 0;
        int first = 1;
        NEED();
        out("{\"ev\":\"iterx\",\"tags\":[");
        if(s->lib) while(nkxGetNextObjectOfExternalType(s->vm, s->lib->types[atoi(a[2])], &o, &idx)) {
            struct ExtData *d = nkxVmObjectGetExternalData(s->vm, &o);
            out("%s%d", first ? "" : ",", d ? d->tag : -2);
            first = 0;
        }
        out("]"); evEnd();
    } else if(IS("xfind")) {        // xfind V typeIdx tag dst : register from iteration
        struct NKValue o;
        nkuint32_t idx = 0;
        NEED();
        if(s->lib) while(nkxGetNextObjectOfExternalType(s->vm, s->lib->types[atoi(a[2])], &o, &idx)) {
            struct ExtData *d = nkxVmObjectGetExternalData(s->vm, &o);
            if(d && d->tag == atoi(a[3])) R[atoi(a[4] + 1) % NREG] = o;
        }
    } else if(IS("find")) {         // find V typenamehex
        char *n;
        NEED();
        n = (char *)unhex(a[2], NULL);
        out("{\"ev\":\"find\",\"ok\":%d", nkxVmFindExternalType(s->vm, n).id != NK_INVALID_VALUE); evEnd();
        free(n);
    } else if(IS("regt")) {         // regt V typenamehex : register one more type
        char *n;
        NEED();
        n = (char *)unhex(a[2], NULL);
        out("{\"ev\":\"regt\",\"ok\":%d,\"err\":%d",
            nkxVmRegisterExternalType(s->vm, n, NULL, NULL, NULL).id != NK_INVALID_VALUE,
            nkxVmHasErrors(s->vm)); evEnd();
        free(n);
    } else if(IS("regf")) {         // regf V namehex which(0 print,1 z) argc : register twice etc.
        char *n;
        NKVMExternalFunctionID id;
        NEED();
        n = (char *)unhex(a[2], NULL);
        id = nkxVmSetupExternalFunction(s->vm, s->cs, n, atoi(a[3]) ? f_any2 : f_print, nktrue,
            atoi(a[4]) ? 2 : NK_INVALID_VALUE, NK_VALUETYPE_INT, NK_VALUETYPE_NIL);
        out("{\"ev\":\"regf\",\"ok\":%d,\"err\":%d", id.id != NK_INVALID_VALUE, nkxVmHasErrors(s->vm)); evEnd();
        free(n);
    } else if(IS("fnval")) {        // fnval V namehex dst : function value for an external function
        char *n;
        NKVMExternalFunctionID id;
        NKVMInternalFunctionID in;
        NEED();
        n = (char *)unhex(a[2], NULL);
        id = nkxVmRegisterExternalFunction(s->vm, n, atoi(a[4]) ? f_any2 : f_print);
        in = nkxVmGetOrCreateInternalFunctionForExternalFunction(s->vm, id);
        nkxValueSetFunction(s->vm, &R[atoi(a[3] + 1) % NREG], in);
        free(n);
    } else if(IS("eqf")) {          // eqf V a b : same function id
        struct NKValue x, y;
        NEED();
        getVal(s->vm, a[2], &x); getVal(s->vm, a[3], &y);
        out("{\"ev\":\"eqf\",\"eq\":%d", x.type == y.type && x.functionId.id == y.functionId.id); evEnd();
    } else if(IS("gmake")) {        // gmake V namehex val : host-created global (compiler present)
        char *n;
        struct NKValue v, *p;
        NEED();
        if(!s->cs) return 1;
        n = (char *)unhex(a[2], NULL);
        getVal(s->vm, a[3], &v);
        p = nkxCompilerCreateGlobalVariable(s->cs, n);
        if(p) *p = v;
        out("{\"ev\":\"gmake\",\"ok\":%d,\"err\":%d", p != NULL, nkxVmHasErrors(s->vm)); evEnd();
        free(n);
    } else if(IS("gset")) {         // gset V namehex val
        char *n;
        struct NKValue v, *p;
        NEED();
        n = (char *)unhex(a[2], NULL);
        getVal(s->vm, a[3], &v);
        p = nkxVmFindGlobalVariable(s->vm, s->cs, n);
        if(p) *p = v;
        out("{\"ev\":\"gset\",\"ok\":%d", p != NULL); evEnd();
        free(n);
    } else if(IS("gget")) {         // gget V namehex [dst]
        char *n;
        struct NKValue *p;
        NEED();
        n = (char *)unhex(a[2], NULL);
        p = nkxVmFindGlobalVariable(s->vm, s->cs, n);
        out("{\"ev\":\"gget\",\"ok\":%d,\"v\":", p != NULL);
        if(p) outVal(s->vm, p); else outInt("none", 0, 0, "");
        evEnd();
        if(p && argc > 3) R[atoi(a[3] + 1) % NREG] = *p;
        free(n);
    } else if(IS("adderr")) {
        char *n;
        NEED();
        n = (char *)unhex(a[2], NULL);
        nkxAddError(s->vm, n);
        free(n);
    } else if(IS("adderrx")) {      // adderrx V msghex filehex line
        char *n, *f;
        NEED();
        n = (char *)unhex(a[2], NULL);
        f = (char *)unhex(a[3], NULL);
        nkxAddErrorEx(s->vm, n, f, (nkuint32_t)strtoul(a[4], NULL, 10));
        free(n); free(f);
    } else if(IS("oom")) {
        NEED();
        nkxForceCatastrophicFailure(s->vm);
    } else if(IS("halloc")) {       // host allocation through the VM: halloc V id size
        NEED();
        {
            nkuint32_t z = (nkuint32_t)strtoul(a[3], NULL, 10);
            void *p = nkxMalloc(s->vm, z);
            out("{\"ev\":\"halloc\",\"ok\":%d", p != NULL); evEnd();
            if(p) { memset(p, 1, z); nkxFree(s->vm, p); }
        }
    } else if(IS("verbose")) {
        verbose = atoi(a[1]);
    } else if(IS("mark")) {
        out("{\"ev\":\"mark\",\"m\":\"%s\"", a[1]); evEnd();
    } else if(IS("ud")) {           // user data pointer round trip
        NEED();
        nkxSetUserData(s->vm, (void *)(size_t)atol(a[2]));
    } else if(IS("getud")) {
        NEED();
        out("{\"ev\":\"ud\",\"v\":%ld", (long)(size_t)nkxGetUserData(s->vm)); evEnd();
    } else {
        out("{\"ev\":\"badcmd\",\"c\":\"%s\"", c); evEnd();
        return 0;
    }
    return 1;
}

static void finish(void)
{
    int i;
    for(i = 0; i < NVM; i++) if(S[i].vm) deleteVm(&S[i], 0);
    out("{\"ev\":\"fin\",\"ext\":%d,\"sub\":%d", extLive, subLive); evEnd();
}

int main(int argc, char **argv)
{
    FILE *in = argc > 1 ? fopen(argv[1], "r") : stdin;
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    char **cmds = NULL;
    size_t nc = 0, cc = 0, i;
    char id[256] = "";
    int tmo = argc > 2 ? atoi(argv[2]) : 20;
    if(!in) return 2;
    while((n = getline(&line, &cap, in)) >= 0) {
        while(n && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
        if(!strncmp(line, "CASE ", 5)) {
            snprintf(id, sizeof(id), "%s", line + 5);
            nc = 0;
        } else if(!strcmp(line, "END")) {
            pid_t p;
            int st;
            printf("{\"ev\":\"case\",\"id\":\"%s\"}\n", id);
            fflush(stdout);
            p = fork();
            if(!p) {
                struct rlimit rl = { 0, 0 };
                struct itimerval tv;
                setrlimit(RLIMIT_CORE, &rl);
                memset(&tv, 0, sizeof(tv));
                tv.it_value.tv_sec = tmo;
                setitimer(ITIMER_REAL, &tv, NULL);
                for(i = 0; i < nc; i++) {
                    char *av[64];
                    int ac = 0;
                    char *t = strtok(cmds[i], " ");
                    while(t && ac < 63) { av[ac++] = t; t = strtok(NULL, " "); }
                    av[ac] = NULL;
                    if(ac) cmd(ac, av);
                }
                finish();
                _exit(0);
            }
            waitpid(p, &st, 0);
            printf("{\"ev\":\"exit\",\"code\":%d,\"sig\":%d}\n",
                WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
            fflush(stdout);
            for(i = 0; i < nc; i++) free(cmds[i]);
            nc = 0;
        } else if(n) {
            if(nc == cc) { cc = cc ? cc * 2 : 64; cmds = realloc(cmds, cc * sizeof(*cmds)); }
            cmds[nc++] = strdup(line);
        }
    }
    return 0;
}
