// Compiles and runs a script with "print", "fail" and "gc" functions.
// rig FILE [gcInterval [newObjectInterval [slice [mode]]]]
// mode s: saved and loaded into a fresh VM between slices; k: shrunk between slices
#include "nkx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static void show(struct NKVM *vm, struct NKValue *v)
{
    if(v->type == NK_VALUETYPE_OBJECTID) printf("object");
    else if(v->type == NK_VALUETYPE_FUNCTIONID) printf("function");
    else printf("%d:%s", (int)v->type, nkxValueToString(vm, v));
}
static void f_print(struct NKVMFunctionCallbackData *d)
{
    nkuint32_t i;
    for(i = 0; i < d->argumentCount; i++) { if(i) printf(" "); show(d->vm, &d->arguments[i]); }
    printf("\n");
}
static void f_gc(struct NKVMFunctionCallbackData *d) { nkxVmGarbageCollect(d->vm); }
static void f_fail(struct NKVMFunctionCallbackData *d) { nkxAddError(d->vm, "fail"); }
static void f_call(struct NKVMFunctionCallbackData *d)
{
    struct NKValue f = d->arguments[0], r;
    memset(&r, 0, sizeof(r));
    nkxVmCallFunction(d->vm, &f, d->argumentCount - 1, d->arguments + 1, &r);
    d->returnValue = r;
}
static void setup(struct NKVM *vm, struct NKCompilerState *cs)
{
    nkxVmSetupExternalFunction(vm, cs, "print", f_print, nktrue, NK_INVALID_VALUE);
    nkxVmSetupExternalFunction(vm, cs, "gc", f_gc, nktrue, NK_INVALID_VALUE);
    nkxVmSetupExternalFunction(vm, cs, "fail", f_fail, nktrue, NK_INVALID_VALUE);
    nkxVmSetupExternalFunction(vm, cs, "call", f_call, nktrue, NK_INVALID_VALUE);
    nkxVmSetupExternalFunction(vm, cs, "two", f_print, nktrue, 2, NK_VALUETYPE_INT, NK_VALUETYPE_STRING);
}
static unsigned char *buf; static size_t n, cap, rd;
static nkbool rw(void *p, nkuint32_t size, void *ud, nkbool w)
{
    if(w) {
        if(n + size > cap) { cap = (n + size) * 2; buf = realloc(buf, cap); }
        if(size) memcpy(buf + n, p, size);
        n += size;
        return nktrue;
    }
    if(size > n - rd) return nkfalse;
    if(size) memcpy(p, buf + rd, size);
    rd += size;
    return nktrue;
}
int main(int c, char **v)
{
    FILE *f = fopen(v[1], "rb");
    static char src[1 << 20];
    struct NKVM *vm = nkxVmCreate();
    struct NKCompilerState *cs = nkxCompilerCreate(vm);
    unsigned slice = c > 4 ? atoi(v[4]) : 100000000;
    const char *mode = c > 5 ? v[5] : "";
    src[fread(src, 1, sizeof(src) - 1, f)] = 0;
    fclose(f);
    if(c > 2 && atoi(v[2])) nkxSetGarbageCollectionInterval(vm, atoi(v[2]));
    if(c > 3 && atoi(v[3])) nkxSetGarbageCollectionNewObjectInterval(vm, atoi(v[3]));
    setup(vm, cs);
    nkxCompilerCompileScript(cs, src, "demo.nks");
    nkxCompilerFinalize(cs);
    while(!nkxVmHasErrors(vm) && !nkxVmProgramHasEnded(vm)) {
        nkxVmIterate(vm, slice);
        if(nkxVmHasErrors(vm)) break;
        if(strchr(mode, 'k')) nkxVmShrink(vm);
        if(strchr(mode, 's')) {
            struct NKVM *b = nkxVmCreate();
            n = rd = 0;
            setup(b, NULL);
            if(!nkxVmSerialize(vm, rw, NULL, nktrue) || (!nkxVmSerialize(b, rw, NULL, nkfalse))) { printf("save/load failed\n"); break; }
            nkxVmDelete(vm);
            vm = b;
        }
    }
    if(nkxVmHasErrors(vm) && !nkxVmHasAllocationFailure(vm)) {
        char *t = malloc(nkxGetErrorLength(vm) + 1);
        t[0] = 0;
        nkxGetErrorText(vm, t);
        printf("errors: %s\n", t);
    }
    nkxVmDelete(vm);
    return 0;
}
