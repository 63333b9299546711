#include "pre.h"
#include "zzzjson.hpp"
#define NAME hpp
#define QNAME "hpp"
#define CALL0(f,v) ((zzzjson::Value*)(v))->f()
#define CALL(f,v,...) ((zzzjson::Value*)(v))->f(__VA_ARGS__)
#define V(x) ((zzzjson::Value*)(x))
#define NEWALLOC new zzzjson::Allocator()
#define RELALLOC(a) delete (zzzjson::Allocator*)(a)
#define NEWVAL(a) zzzjson::Value::NewValue((zzzjson::Allocator*)(a))
#define SIZEOF_(v) CALL0(Size,v)
#define TYPE_ zzzjson::JSONType
#include "shim.inc"
/* values made by the member NewValue() of another value */
#define NAME hppnew
#define QNAME "hppnew"
#define CALL0(f,v) ((zzzjson::Value*)(v))->f()
#define CALL(f,v,...) ((zzzjson::Value*)(v))->f(__VA_ARGS__)
#define V(x) ((zzzjson::Value*)(x))
#define NEWALLOC new zzzjson::Allocator()
#define RELALLOC(a) delete (zzzjson::Allocator*)(a)
#define NEWVAL(a) zzzjson::Value::NewValue((zzzjson::Allocator*)(a))->NewValue()
#define SIZEOF_(v) CALL0(Size,v)
#define TYPE_ zzzjson::JSONType
#include "shim.inc"
