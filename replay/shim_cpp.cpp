#include "pre.h"
#include "zzzjson.h"
#define NAME cpp
#define QNAME "cpp"
#define CALL0(f,v) zj::zj_##f((zj::zj_Value*)(v))
#define CALL(f,v,...) zj::zj_##f((zj::zj_Value*)(v),__VA_ARGS__)
#define V(x) ((zj::zj_Value*)(x))
#define NEWALLOC zj::zj_NewAllocator()
#define RELALLOC(a) zj::zj_ReleaseAllocator((zj::zj_Allocator*)(a))
#define NEWVAL(a) zj::zj_NewValue((zj::zj_Allocator*)(a))
#define SIZEOF_(v) CALL0(SizeOf,v)
#define TYPE_ zj::zj_JSONType
#include "shim.inc"
#define NAME cppshort
#define QNAME "cppshort"
#define CALL0(f,v) zj::f((zj::Value*)(v))
#define CALL(f,v,...) zj::f((zj::Value*)(v),__VA_ARGS__)
#define V(x) ((zj::Value*)(x))
#define NEWALLOC zj::NewAllocator()
#define RELALLOC(a) zj::ReleaseAllocator((zj::Allocator*)(a))
#define NEWVAL(a) zj::NewValue((zj::Allocator*)(a))
#define SIZEOF_(v) CALL0(SizeOf,v)
#define TYPE_ zj::JSONType
#include "shim.inc"
/* C++ members, allocator object made by its constructor and destroyed by its destructor */
#define NAME member
#define QNAME "member"
#define CALL0(f,v) ((zj::Value*)(v))->f()
#define CALL(f,v,...) ((zj::Value*)(v))->f(__VA_ARGS__)
#define V(x) ((zj::Value*)(x))
#define NEWALLOC new zj::Allocator()
#define RELALLOC(a) delete (zj::Allocator*)(a)
#define NEWVAL(a) zj::Value::NewValue((zj::Allocator*)(a))
#define SIZEOF_(v) CALL0(SizeOf,v)
#define TYPE_ zj::JSONType
#include "shim.inc"
