/* The oracle's view of declared types for the check of reflection: facts are computed by the compiler from plain C expressions. */
#ifndef REFLECT_H
#define REFLECT_H
#include <metaresc.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

enum {
  RF_VOID = 1,      /* declared as VOID */
  RF_NO_OFFSET = 2, /* a VOID bit-field: C has no expression for its place */
  RF_NO_SIZE = 4,   /* a VOID field with a suffix */
  RF_ANON = 8, RF_NAMED = 16,
};

typedef struct rf_t rf_t;
struct rf_t {
  const char * name;
  int mr_type, aux;          /* mr_type_t; AUX -1 - no expectation */
  const char * tdp;          /* name of the type descriptor; NULL - no expectation; "" - no descriptor */
  long tdp_size;             /* 0 - no expectation */
  long offset, size;
  int nd; unsigned dim[8];
  int bits;
  void (*set) (void *, uint64_t);
  const char * meta;
  const char * res_type; const void * res; const char * res_str; long res_size; /* RES_STR - resource is a string; RES_SIZE -1 - no expectation */
  const int * args; int nargs;     /* mr_types of functions: result, arguments */
  const rf_t * sub; int nsub;
  unsigned flags;
};
typedef struct re_t { const char * name; uint64_t value; const char * meta; void (*put) (void *); } re_t;
typedef struct rt_t {
  const char * name;
  int mr_type;
  long size;
  const char * meta;
  const rf_t * f; int nf;
  const re_t * e; int ne;
  const int * args; int nargs;
  int eff_size;               /* of enumerations, 0 - no expectation */
  int is_signed;
} rt_t;
#endif
