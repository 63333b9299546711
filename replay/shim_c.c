#include "pre.h"
#include "zzzjson.h"
#define NAME c
#define QNAME "c"
#define CALL0(f,v) zj_##f((zj_Value*)(v))
#define CALL(f,v,...) zj_##f((zj_Value*)(v),__VA_ARGS__)
#define V(x) ((zj_Value*)(x))
#define NEWALLOC zj_NewAllocator()
#define RELALLOC(a) zj_ReleaseAllocator((zj_Allocator*)(a))
#define NEWVAL(a) zj_NewValue((zj_Allocator*)(a))
#define SIZEOF_(v) CALL0(SizeOf,v)
#define TYPE_ zj_JSONType
#include "shim.inc"
