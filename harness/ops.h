/* Library's operations on one type, through its public macros. */
#ifndef OPS_H
#define OPS_H
#include <metaresc.h>
#include <string.h>
#define MODEL_OPS(T, MT, ID)						\
  static mbuf_t ops_save_##ID (mfmt_t f, void * vp) {			\
    T * p = vp; mbuf_t b = { NULL, 0, 0 };				\
    switch (f) {							\
    case F_XDR: { mr_rarray_t ra = MR_SAVE_XDR_RA (T, p); b.ptr = ra.data.ptr; b.size = ra.MR_SIZE; b.alloc = ra.alloc_size; return b; } \
    case F_CINIT: b.ptr = MR_SAVE_CINIT (T, p); break;			\
    case F_JSON: b.ptr = MR_SAVE_JSON (T, p); break;			\
    case F_YAML: b.ptr = MR_SAVE_YAML (T, p); break;			\
    case F_XML1: b.ptr = MR_SAVE_XML1 (T, p); break;			\
    case F_XML2: b.ptr = MR_SAVE_XML2 (T, p); break;			\
    case F_SCM: b.ptr = MR_SAVE_SCM (T, p); break;			\
    default: break; }							\
    if (b.ptr) b.size = strlen (b.ptr);					\
    return b; }								\
  static int ops_load_##ID (mfmt_t f, const mbuf_t * b, void * vp) {	\
    T * p = vp;								\
    switch (f) {							\
    case F_XDR: { mr_rarray_t ra = { .data = { b->ptr }, .MR_SIZE = b->size, .alloc_size = b->size, .type = "uint8_t" }; return MR_SUCCESS == MR_LOAD_XDR_RA (T, &ra, p); } \
    case F_CINIT: return MR_SUCCESS == MR_LOAD_CINIT (T, b->ptr, p);	\
    case F_JSON: return MR_SUCCESS == MR_LOAD_JSON (T, b->ptr, p);	\
    case F_YAML: return MR_SUCCESS == MR_LOAD_YAML (T, b->ptr, p);	\
    case F_XML1: return MR_SUCCESS == MR_LOAD_XML1 (T, b->ptr, p);	\
    case F_XML2: return MR_SUCCESS == MR_LOAD_XML2 (T, b->ptr, p);	\
    case F_SCM: return MR_SUCCESS == MR_LOAD_SCM (T, b->ptr, p);	\
    default: return 0; } }						\
  static int ops_copy_##ID (void * s, void * d) { T * sp = s, * dp = d; return MR_SUCCESS == MR_COPY_RECURSIVELY (T, sp, dp); } \
  static int ops_free_##ID (void * s) { T * sp = s; return MR_SUCCESS == MR_FREE_RECURSIVELY (T, sp); } \
  static uint64_t ops_hash_##ID (void * s) { T * sp = s; return MR_HASH_STRUCT (T, sp); } \
  static int ops_cmp_##ID (void * a, void * b) { T * ap = a, * bp = b; return MR_CMP_STRUCTS (T, ap, bp); } \
  static long ops_print_##ID (FILE * f, int lvl, void * a) { T * ap = a; return MR_FPRINT (f, (T, ap)); } \
  static int ops_xsave_##ID (void * x, void * a) { T * ap = a; XDR * xdrs = x; return MR_SUCCESS == MR_SAVE_XDR (xdrs, T, ap); } \
  static int ops_xload_##ID (void * x, void * a) { T * ap = a; XDR * xdrs = x; return MR_SUCCESS == MR_LOAD_XDR (T, xdrs, ap); } \
  static const mops_t ops_##ID = { #T, MT, ops_save_##ID, ops_load_##ID, ops_copy_##ID, ops_free_##ID, ops_hash_##ID, ops_cmp_##ID, ops_print_##ID, ops_xsave_##ID, ops_xload_##ID };
#endif
