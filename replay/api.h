/* one function table per API spelling; the driver only talks to these tables */
#ifndef API_H
#define API_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct Api {
  const char *name;
  void *(*NewAllocator)(void); void (*ReleaseAllocator)(void *); void *(*NewValue)(void *);
  int (*ParseFast)(void *, const char *); int (*ParseLen)(void *, const char *, unsigned); int (*Parse)(void *, const char *);
  const char *(*Stringify)(void *);
  const char *(*GetStrFast)(void *, unsigned *); const char *(*GetUnEscapeStr)(void *); const char *(*GetStr)(void *);
  const char *(*GetNumFast)(void *, unsigned *); const char *(*GetNumStr)(void *);
  const double *(*GetNum)(void *); const double *(*GetDouble)(void *); const int *(*GetInt)(void *); const long *(*GetLong)(void *);
  const long long *(*GetLongLong)(void *); int (*GetBool)(void *); /* -1 null, 0, 1 */ int (*IsNull)(void *);
  const char *(*GetKey)(void *); const char *(*GetUnEscapeKey)(void *); const char *(*GetKeyFast)(void *, unsigned *);
  void *(*ObjGet)(void *, const char *); void *(*ObjGetLen)(void *, const char *, unsigned);
  int (*Type)(void *); /* 0 null */ unsigned (*SizeOf)(void *); void *(*ArrayGet)(void *, unsigned);
  void *(*Begin)(void *); void *(*Next)(void *); void *(*Copy)(void *); int (*Move)(void *);
  void (*SetNull)(void *); void (*SetBool)(void *, int);
  int (*SetNumStrFast)(void *, const char *); int (*SetNumStrLenFast)(void *, const char *, unsigned);
  int (*SetNumStr)(void *, const char *); int (*SetNumStrLen)(void *, const char *, unsigned);
  int (*SetNum)(void *, double); int (*SetDouble)(void *, double); int (*SetInt)(void *, int); int (*SetLong)(void *, long);
  int (*SetLongLong)(void *, long long);
  int (*SetStrFast)(void *, const char *); int (*SetStrLenFast)(void *, const char *, unsigned);
  int (*SetStr)(void *, const char *); int (*SetStrLen)(void *, const char *, unsigned);
  int (*SetStrEscape)(void *, const char *); int (*SetStrLenEscape)(void *, const char *, unsigned);
  int (*SetKeyFast)(void *, const char *); int (*SetKeyLenFast)(void *, const char *, unsigned);
  int (*SetKey)(void *, const char *); int (*SetKeyLen)(void *, const char *, unsigned);
  int (*SetKeyEscape)(void *, const char *); int (*SetKeyLenEscape)(void *, const char *, unsigned);
  void (*SetArray)(void *); void (*SetObj)(void *);
  int (*SetFast)(void *, void *); int (*Set)(void *, void *);
  int (*ObjAddFast)(void *, void *); int (*ObjAdd)(void *, void *); int (*ArrayAddFast)(void *, void *); int (*ArrayAdd)(void *, void *);
  int (*ArrayDel)(void *, unsigned); int (*ObjDel)(void *, const char *);
} Api;
extern const Api api_c, api_cshort, api_cpp, api_cppshort, api_member, api_hpp, api_hppnew;
void *v_malloc(size_t n); void v_free(void *p); void *v_realloc(void *p, size_t n); void *v_calloc(size_t a, size_t b);
#ifdef __cplusplus
}
#endif
#endif
