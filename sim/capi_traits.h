// The three families of C functions behind one set of names.
#pragma once
#include <new>
#include <dart/abi.h>

#define CAPI_READ(N, PRE, T, S) struct N { \
  static int has(S const* s, char const* k) { return PRE##obj_has_key(s, k); } static int has(S const* s, char const* k, size_t n) { return PRE##obj_has_key_len(s, k, n); } \
  static T get(S const* s, char const* k) { return PRE##obj_get(s, k); } static T get(S const* s, char const* k, size_t n) { return PRE##obj_get_len(s, k, n); } \
  static dart_err_t get(T* d, S const* s, char const* k) { return PRE##obj_get_err(d, s, k); } static dart_err_t get(T* d, S const* s, char const* k, size_t n) { return PRE##obj_get_len_err(d, s, k, n); } \
  static T at(S const* s, size_t i) { return PRE##arr_get(s, i); } static dart_err_t at(T* d, S const* s, size_t i) { return PRE##arr_get_err(d, s, i); } \
  static char const* str(S const* s) { return PRE##str_get(s); } static char const* str(S const* s, size_t* n) { return PRE##str_get_len(s, n); } \
  static int64_t num(S const* s) { return PRE##int_get(s); } static dart_err_t num(S const* s, int64_t* v) { return PRE##int_get_err(s, v); } \
  static double dcm(S const* s) { return PRE##dcm_get(s); } static dart_err_t dcm(S const* s, double* v) { return PRE##dcm_get_err(s, v); } \
  static int boo(S const* s) { return PRE##bool_get(s); } static dart_err_t boo(S const* s, int* v) { return PRE##bool_get_err(s, v); } \
  static size_t size(S const* s) { return PRE##size(s); } static int equal(S const* a, S const* b) { return PRE##equal(a, b); } \
  static int is(S const* s, int t) { switch (t) { case 1: return PRE##is_obj(s); case 2: return PRE##is_arr(s); case 3: return PRE##is_str(s); case 4: return PRE##is_int(s); case 5: return PRE##is_dcm(s); case 6: return PRE##is_bool(s); default: return PRE##is_null(s); } } \
  static int type(S const* s) { return (int) PRE##get_type(s); } static char* json(S const* s, size_t* n) { return PRE##to_json(s, n); } \
  static T parse(char const* s) { return PRE##from_json(s); } static dart_err_t parse(T* d, char const* s) { return PRE##from_json_err(d, s); } \
  static T parse(dart_rc_type_t r, char const* s) { return PRE##from_json_rc(r, s); } static dart_err_t parse(T* d, dart_rc_type_t r, char const* s) { return PRE##from_json_rc_err(d, r, s); } \
  static T parse(char const* s, size_t n) { return PRE##from_json_len(s, n); } static dart_err_t parse(T* d, char const* s, size_t n) { return PRE##from_json_len_err(d, s, n); } \
  static T parse(dart_rc_type_t r, char const* s, size_t n) { return PRE##from_json_len_rc(r, s, n); } static dart_err_t parse(T* d, dart_rc_type_t r, char const* s, size_t n) { return PRE##from_json_len_rc_err(d, r, s, n); } \
  static T init() { return PRE##init(); } static dart_err_t init(T* d) { return PRE##init_err(d); } static T init(dart_rc_type_t r) { return PRE##init_rc(r); } static dart_err_t init(T* d, dart_rc_type_t r) { return PRE##init_rc_err(d, r); } };

#define CAPI_BYTES(N, PRE, T, S) struct N { \
  static void const* get(S const* s, size_t* n) { return PRE##get_bytes(s, n); } static void* dup(S const* s, size_t* n) { return PRE##dup_bytes(s, n); } \
  static T from(void const* b, size_t n) { return PRE##from_bytes(b, n); } static dart_err_t from(T* d, void const* b, size_t n) { return PRE##from_bytes_err(d, b, n); } \
  static T from(void const* b, dart_rc_type_t r, size_t n) { return PRE##from_bytes_rc(b, r, n); } static dart_err_t from(T* d, dart_rc_type_t r, void const* b, size_t n) { return PRE##from_bytes_rc_err(d, r, b, n); } \
  static T take(void* b) { return PRE##take_bytes(b); } static dart_err_t take(T* d, void* b) { return PRE##take_bytes_err(d, b); } \
  static T take(void* b, dart_rc_type_t r) { return PRE##take_bytes_rc(b, r); } static dart_err_t take(T* d, dart_rc_type_t r, void* b) { return PRE##take_bytes_rc_err(d, r, b); } };

// every initializer of one type, by (variant): 0 value, 1 value_err, 2 value_rc, 3 value_rc_err
#define CAPI_INIT4(PRE, W, T, v, d, r, ...) switch (v) { case 0: new (d) T(PRE##W##_init(__VA_ARGS__)); return DART_NO_ERROR; case 1: return PRE##W##_init_err(d , ##__VA_ARGS__); \
  case 2: new (d) T(PRE##W##_init_rc(r , ##__VA_ARGS__)); return DART_NO_ERROR; default: return PRE##W##_init_rc_err(d, r , ##__VA_ARGS__); }
#define CAPI_GP(g) g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15], g[16], g[17], g[18], g[19], g[20], g[21], g[22], g[23], g[24], g[25], g[26], g[27], g[28], g[29], g[30], g[31], g[32], g[33], g[34], g[35]
#define CAPI_FP(x) x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]
#define CAPI_MAKE(N, PRE, T) struct N { \
  static dart_err_t obj(int v, T* d, dart_rc_type_t r) { CAPI_INIT4(PRE, obj, T, v, d, r) } static dart_err_t arr(int v, T* d, dart_rc_type_t r) { CAPI_INIT4(PRE, arr, T, v, d, r) } \
  static dart_err_t nul(int v, T* d, dart_rc_type_t r) { CAPI_INIT4(PRE, null, T, v, d, r) } static dart_err_t num(int v, T* d, dart_rc_type_t r, int64_t x) { CAPI_INIT4(PRE, int, T, v, d, r, x) } \
  static dart_err_t dcm(int v, T* d, dart_rc_type_t r, double x) { CAPI_INIT4(PRE, dcm, T, v, d, r, x) } static dart_err_t boo(int v, T* d, dart_rc_type_t r, int x) { CAPI_INIT4(PRE, bool, T, v, d, r, x) } \
  static dart_err_t str(int v, T* d, dart_rc_type_t r, char const* s) { CAPI_INIT4(PRE, str, T, v, d, r, s) } \
  static dart_err_t str(int v, T* d, dart_rc_type_t r, char const* s, size_t n) { switch (v) { case 0: new (d) T(PRE##str_init_len(s, n)); return DART_NO_ERROR; case 1: return PRE##str_init_len_err(d, s, n); \
    case 2: new (d) T(PRE##str_init_rc_len(r, s, n)); return DART_NO_ERROR; default: return PRE##str_init_rc_len_err(d, r, s, n); } } \
  static dart_err_t va(int v, bool o, T* d, dart_rc_type_t r, char const* f, unsigned long long const* g, double const* x) { \
    if (o) switch (v) { case 0: new (d) T(PRE##obj_init_va(f, CAPI_GP(g), CAPI_FP(x))); return DART_NO_ERROR; case 1: return PRE##obj_init_va_err(d, f, CAPI_GP(g), CAPI_FP(x)); \
      case 2: new (d) T(PRE##obj_init_va_rc(r, f, CAPI_GP(g), CAPI_FP(x))); return DART_NO_ERROR; default: return PRE##obj_init_va_rc_err(d, r, f, CAPI_GP(g), CAPI_FP(x)); } \
    switch (v) { case 0: new (d) T(PRE##arr_init_va(f, CAPI_GP(g), CAPI_FP(x))); return DART_NO_ERROR; case 1: return PRE##arr_init_va_err(d, f, CAPI_GP(g), CAPI_FP(x)); \
      case 2: new (d) T(PRE##arr_init_va_rc(r, f, CAPI_GP(g), CAPI_FP(x))); return DART_NO_ERROR; default: return PRE##arr_init_va_rc_err(d, r, f, CAPI_GP(g), CAPI_FP(x)); } } \
  };

namespace sim {
  CAPI_READ(RH, dart_heap_, dart_heap_t, dart_heap_t)
  CAPI_READ(RB, dart_buffer_, dart_buffer_t, dart_buffer_t)
  CAPI_READ(RG, dart_, dart_packet_t, void)
  CAPI_BYTES(YB, dart_buffer_, dart_buffer_t, dart_buffer_t)
  CAPI_BYTES(YG, dart_, dart_packet_t, void)
  CAPI_MAKE(MH, dart_heap_, dart_heap_t)
  CAPI_MAKE(MG, dart_, dart_packet_t)
struct WH {
  using T = dart_heap_t; using S = dart_heap_t; using X = dart_heap_t;
  static dart_err_t oins(S* d, char const* k, X const* v) { return dart_heap_obj_insert_heap(d, k, v); }
  static dart_err_t oins(S* d, char const* k, size_t n, X const* v) { return dart_heap_obj_insert_heap_len(d, k, n, v); }
  static dart_err_t oins_take(S* d, char const* k, X* v) { return dart_heap_obj_insert_take_heap(d, k, v); }
  static dart_err_t oins_take(S* d, char const* k, size_t n, X* v) { return dart_heap_obj_insert_take_heap_len(d, k, n, v); }
  static dart_err_t ains(S* d, size_t i, X const* v) { return dart_heap_arr_insert_heap(d, i, v); }
  static dart_err_t ains_take(S* d, size_t i, X* v) { return dart_heap_arr_insert_take_heap(d, i, v); }
  static dart_err_t oins_int(S* d, char const* k, int64_t v) { return dart_heap_obj_insert_int(d, k, v); }
  static dart_err_t oins_int(S* d, char const* k, size_t n, int64_t v) { return dart_heap_obj_insert_int_len(d, k, n, v); }
  static dart_err_t ains_int(S* d, size_t i, int64_t v) { return dart_heap_arr_insert_int(d, i, v); }
  static dart_err_t oins_dcm(S* d, char const* k, double v) { return dart_heap_obj_insert_dcm(d, k, v); }
  static dart_err_t oins_dcm(S* d, char const* k, size_t n, double v) { return dart_heap_obj_insert_dcm_len(d, k, n, v); }
  static dart_err_t ains_dcm(S* d, size_t i, double v) { return dart_heap_arr_insert_dcm(d, i, v); }
  static dart_err_t oins_bool(S* d, char const* k, int v) { return dart_heap_obj_insert_bool(d, k, v); }
  static dart_err_t oins_bool(S* d, char const* k, size_t n, int v) { return dart_heap_obj_insert_bool_len(d, k, n, v); }
  static dart_err_t ains_bool(S* d, size_t i, int v) { return dart_heap_arr_insert_bool(d, i, v); }
  static dart_err_t oins_str(S* d, char const* k, char const* v) { return dart_heap_obj_insert_str(d, k, v); }
  static dart_err_t oins_str(S* d, char const* k, size_t n, char const* v, size_t m) { return dart_heap_obj_insert_str_len(d, k, n, v, m); }
  static dart_err_t ains_str(S* d, size_t i, char const* v) { return dart_heap_arr_insert_str(d, i, v); }
  static dart_err_t ains_str(S* d, size_t i, char const* v, size_t m) { return dart_heap_arr_insert_str_len(d, i, v, m); }
  static dart_err_t oins_null(S* d, char const* k) { return dart_heap_obj_insert_null(d, k); }
  static dart_err_t oins_null(S* d, char const* k, size_t n) { return dart_heap_obj_insert_null_len(d, k, n); }
  static dart_err_t ains_null(S* d, size_t i) { return dart_heap_arr_insert_null(d, i); }
  static dart_err_t oset(S* d, char const* k, X const* v) { return dart_heap_obj_set_heap(d, k, v); }
  static dart_err_t oset(S* d, char const* k, size_t n, X const* v) { return dart_heap_obj_set_heap_len(d, k, n, v); }
  static dart_err_t oset_take(S* d, char const* k, X* v) { return dart_heap_obj_set_take_heap(d, k, v); }
  static dart_err_t oset_take(S* d, char const* k, size_t n, X* v) { return dart_heap_obj_set_take_heap_len(d, k, n, v); }
  static dart_err_t aset(S* d, size_t i, X const* v) { return dart_heap_arr_set_heap(d, i, v); }
  static dart_err_t aset_take(S* d, size_t i, X* v) { return dart_heap_arr_set_take_heap(d, i, v); }
  static dart_err_t oset_int(S* d, char const* k, int64_t v) { return dart_heap_obj_set_int(d, k, v); }
  static dart_err_t oset_int(S* d, char const* k, size_t n, int64_t v) { return dart_heap_obj_set_int_len(d, k, n, v); }
  static dart_err_t aset_int(S* d, size_t i, int64_t v) { return dart_heap_arr_set_int(d, i, v); }
  static dart_err_t oset_dcm(S* d, char const* k, double v) { return dart_heap_obj_set_dcm(d, k, v); }
  static dart_err_t oset_dcm(S* d, char const* k, size_t n, double v) { return dart_heap_obj_set_dcm_len(d, k, n, v); }
  static dart_err_t aset_dcm(S* d, size_t i, double v) { return dart_heap_arr_set_dcm(d, i, v); }
  static dart_err_t oset_bool(S* d, char const* k, int v) { return dart_heap_obj_set_bool(d, k, v); }
  static dart_err_t oset_bool(S* d, char const* k, size_t n, int v) { return dart_heap_obj_set_bool_len(d, k, n, v); }
  static dart_err_t aset_bool(S* d, size_t i, int v) { return dart_heap_arr_set_bool(d, i, v); }
  static dart_err_t oset_str(S* d, char const* k, char const* v) { return dart_heap_obj_set_str(d, k, v); }
  static dart_err_t oset_str(S* d, char const* k, size_t n, char const* v, size_t m) { return dart_heap_obj_set_str_len(d, k, n, v, m); }
  static dart_err_t aset_str(S* d, size_t i, char const* v) { return dart_heap_arr_set_str(d, i, v); }
  static dart_err_t aset_str(S* d, size_t i, char const* v, size_t m) { return dart_heap_arr_set_str_len(d, i, v, m); }
  static dart_err_t oset_null(S* d, char const* k) { return dart_heap_obj_set_null(d, k); }
  static dart_err_t oset_null(S* d, char const* k, size_t n) { return dart_heap_obj_set_null_len(d, k, n); }
  static dart_err_t aset_null(S* d, size_t i) { return dart_heap_arr_set_null(d, i); }
  static dart_err_t oclear(S* d) { return dart_heap_obj_clear(d); }  static dart_err_t aclear(S* d) { return dart_heap_arr_clear(d); }
  static dart_err_t oerase(S* d, char const* k) { return dart_heap_obj_erase(d, k); }  static dart_err_t oerase(S* d, char const* k, size_t n) { return dart_heap_obj_erase_len(d, k, n); }
  static dart_err_t aerase(S* d, size_t i) { return dart_heap_arr_erase(d, i); }  static dart_err_t aresize(S* d, size_t n) { return dart_heap_arr_resize(d, n); }  static dart_err_t areserve(S* d, size_t n) { return dart_heap_arr_reserve(d, n); }
};
struct WG {
  using T = dart_packet_t; using S = void; using X = void;
  static dart_err_t oins(S* d, char const* k, X const* v) { return dart_obj_insert_dart(d, k, v); }
  static dart_err_t oins(S* d, char const* k, size_t n, X const* v) { return dart_obj_insert_dart_len(d, k, n, v); }
  static dart_err_t oins_take(S* d, char const* k, X* v) { return dart_obj_insert_take_dart(d, k, v); }
  static dart_err_t oins_take(S* d, char const* k, size_t n, X* v) { return dart_obj_insert_take_dart_len(d, k, n, v); }
  static dart_err_t ains(S* d, size_t i, X const* v) { return dart_arr_insert_dart(d, i, v); }
  static dart_err_t ains_take(S* d, size_t i, X* v) { return dart_arr_insert_take_dart(d, i, v); }
  static dart_err_t oins_int(S* d, char const* k, int64_t v) { return dart_obj_insert_int(d, k, v); }
  static dart_err_t oins_int(S* d, char const* k, size_t n, int64_t v) { return dart_obj_insert_int_len(d, k, n, v); }
  static dart_err_t ains_int(S* d, size_t i, int64_t v) { return dart_arr_insert_int(d, i, v); }
  static dart_err_t oins_dcm(S* d, char const* k, double v) { return dart_obj_insert_dcm(d, k, v); }
  static dart_err_t oins_dcm(S* d, char const* k, size_t n, double v) { return dart_obj_insert_dcm_len(d, k, n, v); }
  static dart_err_t ains_dcm(S* d, size_t i, double v) { return dart_arr_insert_dcm(d, i, v); }
  static dart_err_t oins_bool(S* d, char const* k, int v) { return dart_obj_insert_bool(d, k, v); }
  static dart_err_t oins_bool(S* d, char const* k, size_t n, int v) { return dart_obj_insert_bool_len(d, k, n, v); }
  static dart_err_t ains_bool(S* d, size_t i, int v) { return dart_arr_insert_bool(d, i, v); }
  static dart_err_t oins_str(S* d, char const* k, char const* v) { return dart_obj_insert_str(d, k, v); }
  static dart_err_t oins_str(S* d, char const* k, size_t n, char const* v, size_t m) { return dart_obj_insert_str_len(d, k, n, v, m); }
  static dart_err_t ains_str(S* d, size_t i, char const* v) { return dart_arr_insert_str(d, i, v); }
  static dart_err_t ains_str(S* d, size_t i, char const* v, size_t m) { return dart_arr_insert_str_len(d, i, v, m); }
  static dart_err_t oins_null(S* d, char const* k) { return dart_obj_insert_null(d, k); }
  static dart_err_t oins_null(S* d, char const* k, size_t n) { return dart_obj_insert_null_len(d, k, n); }
  static dart_err_t ains_null(S* d, size_t i) { return dart_arr_insert_null(d, i); }
  static dart_err_t oset(S* d, char const* k, X const* v) { return dart_obj_set_dart(d, k, v); }
  static dart_err_t oset(S* d, char const* k, size_t n, X const* v) { return dart_obj_set_dart_len(d, k, n, v); }
  static dart_err_t oset_take(S* d, char const* k, X* v) { return dart_obj_set_take_dart(d, k, v); }
  static dart_err_t oset_take(S* d, char const* k, size_t n, X* v) { return dart_obj_set_take_dart_len(d, k, n, v); }
  static dart_err_t aset(S* d, size_t i, X const* v) { return dart_arr_set_dart(d, i, v); }
  static dart_err_t aset_take(S* d, size_t i, X* v) { return dart_arr_set_take_dart(d, i, v); }
  static dart_err_t oset_int(S* d, char const* k, int64_t v) { return dart_obj_set_int(d, k, v); }
  static dart_err_t oset_int(S* d, char const* k, size_t n, int64_t v) { return dart_obj_set_int_len(d, k, n, v); }
  static dart_err_t aset_int(S* d, size_t i, int64_t v) { return dart_arr_set_int(d, i, v); }
  static dart_err_t oset_dcm(S* d, char const* k, double v) { return dart_obj_set_dcm(d, k, v); }
  static dart_err_t oset_dcm(S* d, char const* k, size_t n, double v) { return dart_obj_set_dcm_len(d, k, n, v); }
  static dart_err_t aset_dcm(S* d, size_t i, double v) { return dart_arr_set_dcm(d, i, v); }
  static dart_err_t oset_bool(S* d, char const* k, int v) { return dart_obj_set_bool(d, k, v); }
  static dart_err_t oset_bool(S* d, char const* k, size_t n, int v) { return dart_obj_set_bool_len(d, k, n, v); }
  static dart_err_t aset_bool(S* d, size_t i, int v) { return dart_arr_set_bool(d, i, v); }
  static dart_err_t oset_str(S* d, char const* k, char const* v) { return dart_obj_set_str(d, k, v); }
  static dart_err_t oset_str(S* d, char const* k, size_t n, char const* v, size_t m) { return dart_obj_set_str_len(d, k, n, v, m); }
  static dart_err_t aset_str(S* d, size_t i, char const* v) { return dart_arr_set_str(d, i, v); }
  static dart_err_t aset_str(S* d, size_t i, char const* v, size_t m) { return dart_arr_set_str_len(d, i, v, m); }
  static dart_err_t oset_null(S* d, char const* k) { return dart_obj_set_null(d, k); }
  static dart_err_t oset_null(S* d, char const* k, size_t n) { return dart_obj_set_null_len(d, k, n); }
  static dart_err_t aset_null(S* d, size_t i) { return dart_arr_set_null(d, i); }
  static dart_err_t oclear(S* d) { return dart_obj_clear(d); }  static dart_err_t aclear(S* d) { return dart_arr_clear(d); }
  static dart_err_t oerase(S* d, char const* k) { return dart_obj_erase(d, k); }  static dart_err_t oerase(S* d, char const* k, size_t n) { return dart_obj_erase_len(d, k, n); }
  static dart_err_t aerase(S* d, size_t i) { return dart_arr_erase(d, i); }  static dart_err_t aresize(S* d, size_t n) { return dart_arr_resize(d, n); }  static dart_err_t areserve(S* d, size_t n) { return dart_arr_reserve(d, n); }
};
}
