#include "pre.h"
#include "zzzjson.h"
#define NAME cshort
#define QNAME "cshort"
#define CALL0(f,v) f((Value*)(v))
#define CALL(f,v,...) f((Value*)(v),__VA_ARGS__)
#define V(x) ((Value*)(x))
#define NEWALLOC NewAllocator()
#define RELALLOC(a) ReleaseAllocator((Allocator*)(a))
#define NEWVAL(a) NewValue((Allocator*)(a))
#define SIZEOF_(v) CALL0(SizeOf,v)
#define TYPE_ JSONType
#include "shim.inc"
