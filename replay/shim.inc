/* expects: NAME (table name), CALL0(f,v), CALL(f,v,...), V(x) value argument, NEWALLOC, RELALLOC(a), NEWVAL(a), SIZEOF_ */
#define P_(a,b) a##b
#define P(a,b) P_(a,b)
#define F(f) P(P(s_,NAME),P(_,f))
static void *F(NewAllocator)(void){ return (void*)(NEWALLOC); }
static void F(ReleaseAllocator)(void*a){ RELALLOC(a); }
static void *F(NewValue)(void*a){ return (void*)(NEWVAL(a)); }
#define STR1(f) static int F(f)(void*v,const char*s){ return CALL(f,v,s); }
#define STRL(f) static int F(f)(void*v,const char*s,unsigned n){ return CALL(f,v,s,n); }
STR1(ParseFast) STRL(ParseLen) STR1(Parse)
#define RS(f) static const char*F(f)(void*v){ return CALL0(f,v); }
#define RSL(f) static const char*F(f)(void*v,unsigned*n){ return CALL(f,v,n); }
RS(Stringify) RSL(GetStrFast) RS(GetUnEscapeStr) RS(GetStr) RSL(GetNumFast) RS(GetNumStr)
static const double*F(GetNum)(void*v){ return CALL0(GetNum,v); }
static const double*F(GetDouble)(void*v){ return CALL0(GetDouble,v); }
static const int*F(GetInt)(void*v){ return CALL0(GetInt,v); }
static const long*F(GetLong)(void*v){ return CALL0(GetLong,v); }
static const long long*F(GetLongLong)(void*v){ return CALL0(GetLongLong,v); }
static int F(GetBool)(void*v){ const bool*b=CALL0(GetBool,v); return b?(*b?1:0):-1; }
static int F(IsNull)(void*v){ return CALL0(IsNull,v); }
RS(GetKey) RS(GetUnEscapeKey) RSL(GetKeyFast)
static void*F(ObjGet)(void*v,const char*k){ return (void*)CALL(ObjGet,v,k); }
static void*F(ObjGetLen)(void*v,const char*k,unsigned n){ return (void*)CALL(ObjGetLen,v,k,n); }
static int F(Type)(void*v){ const TYPE_*t=(const TYPE_*)CALL0(Type,v); return t?(int)*t:0; }
static unsigned F(SizeOf)(void*v){ return SIZEOF_(v); }
static void*F(ArrayGet)(void*v,unsigned i){ return (void*)CALL(ArrayGet,v,i); }
static void*F(Begin)(void*v){ return (void*)CALL0(Begin,v); }
static void*F(Next)(void*v){ return (void*)CALL0(Next,v); }
static void*F(Copy)(void*v){ return (void*)CALL0(Copy,v); }
static int F(Move)(void*v){ return CALL0(Move,v); }
static void F(SetNull)(void*v){ CALL0(SetNull,v); }
static void F(SetBool)(void*v,int b){ CALL(SetBool,v,b!=0); }
STR1(SetNumStrFast) STRL(SetNumStrLenFast) STR1(SetNumStr) STRL(SetNumStrLen)
static int F(SetNum)(void*v,double d){ return CALL(SetNum,v,d); }
static int F(SetDouble)(void*v,double d){ return CALL(SetDouble,v,d); }
static int F(SetInt)(void*v,int d){ return CALL(SetInt,v,d); }
static int F(SetLong)(void*v,long d){ return CALL(SetLong,v,d); }
static int F(SetLongLong)(void*v,long long d){ return CALL(SetLongLong,v,d); }
STR1(SetStrFast) STRL(SetStrLenFast) STR1(SetStr) STRL(SetStrLen) STR1(SetStrEscape) STRL(SetStrLenEscape)
STR1(SetKeyFast) STRL(SetKeyLenFast) STR1(SetKey) STRL(SetKeyLen) STR1(SetKeyEscape) STRL(SetKeyLenEscape)
static void F(SetArray)(void*v){ CALL0(SetArray,v); }
static void F(SetObj)(void*v){ CALL0(SetObj,v); }
#define VV2(f) static int F(f)(void*v,void*w){ return CALL(f,v,V(w)); }
VV2(SetFast) VV2(Set) VV2(ObjAddFast) VV2(ObjAdd) VV2(ArrayAddFast) VV2(ArrayAdd)
static int F(ArrayDel)(void*v,unsigned i){ return CALL(ArrayDel,v,i); }
static int F(ObjDel)(void*v,const char*k){ return CALL(ObjDel,v,k); }
#ifdef __cplusplus
extern "C"
#endif
const Api P(api_,NAME)={QNAME,F(NewAllocator),F(ReleaseAllocator),F(NewValue),F(ParseFast),F(ParseLen),F(Parse),F(Stringify),
F(GetStrFast),F(GetUnEscapeStr),F(GetStr),F(GetNumFast),F(GetNumStr),F(GetNum),F(GetDouble),F(GetInt),F(GetLong),F(GetLongLong),F(GetBool),F(IsNull),
F(GetKey),F(GetUnEscapeKey),F(GetKeyFast),F(ObjGet),F(ObjGetLen),F(Type),F(SizeOf),F(ArrayGet),F(Begin),F(Next),F(Copy),F(Move),F(SetNull),F(SetBool),
F(SetNumStrFast),F(SetNumStrLenFast),F(SetNumStr),F(SetNumStrLen),F(SetNum),F(SetDouble),F(SetInt),F(SetLong),F(SetLongLong),
F(SetStrFast),F(SetStrLenFast),F(SetStr),F(SetStrLen),F(SetStrEscape),F(SetStrLenEscape),F(SetKeyFast),F(SetKeyLenFast),F(SetKey),F(SetKeyLen),F(SetKeyEscape),F(SetKeyLenEscape),
F(SetArray),F(SetObj),F(SetFast),F(Set),F(ObjAddFast),F(ObjAdd),F(ArrayAddFast),F(ArrayAdd),F(ArrayDel),F(ObjDel)};
#undef NAME
#undef QNAME
#undef CALL0
#undef CALL
#undef V
#undef NEWALLOC
#undef RELALLOC
#undef NEWVAL
#undef SIZEOF_
#undef TYPE_
#undef STR1
#undef STRL
#undef RS
#undef RSL
#undef VV2
#undef F
#undef P
#undef P_
