/* The oracle's view of types and objects, independent of the library's descriptors. */
#ifndef MODEL_H
#define MODEL_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

typedef enum mk_t {
  MK_NONE, MK_BOOL, MK_CHAR, MK_INT, MK_ENUM, MK_FLOAT, MK_DOUBLE, MK_LDOUBLE, MK_CFLOAT, MK_CDOUBLE, MK_CLDOUBLE,
  MK_STRING, MK_CHARARR, MK_FUNC, MK_VOIDPTR, MK_TPTR, MK_STRUCT, MK_UNION, MK_ARRAY, MK_PTR, MK_BITF,
} mk_t;

enum { MF_ANON = 1, MF_VOID = 2, MF_SIZE = 4, MF_DISCR = 8 };

typedef struct me_t { const char * name; int64_t value; const char * meta; } me_t;
typedef struct mo_t { int64_t value; const char * branch; } mo_t;
typedef struct mf_t mf_t;
typedef struct mt_t mt_t;
struct mf_t {
  const char * name;
  const mt_t * type;
  size_t offset;
  int size_field; /* index + 1 */
  const char * discr;
  const mo_t * overrides;
  unsigned flags;
};
struct mt_t {
  mk_t kind;
  const char * name;
  size_t size;
  size_t align;
  bool is_signed;
  int bits;
  const me_t * ev;
  int nev;
  const mt_t * elem;
  size_t count;
  const mf_t * f;
  int nf;
  int context; /* has unions whose discriminator is outside of the type */
  u128 (*get) (const void *);
  void (*set) (void *, u128);
};

extern const mt_t mt_bool, mt_char, mt_string, mt_charptr, mt_int8_t, mt_uint8_t, mt_int16_t, mt_uint16_t, mt_int32_t, mt_uint32_t,
  mt_int64_t, mt_uint64_t, mt_int128, mt_uint128, mt_schar, mt_uchar, mt_short, mt_ushort, mt_int, mt_unsigned, mt_uint, mt_long,
  mt_ulong, mt_llong, mt_ullong, mt_size_t, mt_ssize_t, mt_float, mt_double, mt_ldouble, mt_cfloat, mt_cdouble, mt_cldouble,
  mt_func, mt_voidptr, mt_tptr;

/* formats */
typedef enum mfmt_t { F_XDR, F_CINIT, F_JSON, F_YAML, F_XML1, F_XML2, F_SCM, F_LAST } mfmt_t;
extern const char * const fmt_name[F_LAST];

typedef struct mbuf_t { char * ptr; size_t size; size_t alloc; } mbuf_t;

typedef struct mops_t {
  const char * name;
  const mt_t * mt;
  mbuf_t (*save) (mfmt_t, void *);
  int (*load) (mfmt_t, const mbuf_t *, void *); /* 1 - success */
  int (*copy) (void * src, void * dst);         /* 1 - success */
  int (*free) (void *);
  uint64_t (*hash) (void *);
  int (*cmp) (void *, void *);
  long (*print) (FILE *, int level, void *);
  int (*xsave) (void * xdrs, void *);           /* 1 - success */
  int (*xload) (void * xdrs, void *);           /* 1 - success */
} mops_t;

/* arena of generated objects */
typedef struct mblock_t { char * ptr; size_t size; char * copy; } mblock_t;
typedef struct marena_t { mblock_t * b; int n, alloc; } marena_t;
void * arena_alloc (marena_t * a, size_t size);
void arena_free (marena_t * a);
void arena_snapshot (marena_t * a);
/* returns first changed block or -1 */
int arena_changed (const marena_t * a);
mblock_t * arena_find (const marena_t * a, const void * p);

/* generator's options */
typedef struct gopt_t {
  int budget;         /* objects to allocate at most */
  int depth;
  unsigned alias;     /* percent of pointers that alias */
  unsigned null;      /* percent of NULL pointers */
  int max_count;      /* of dynamic arrays */
  int str_mode;       /* STR_ flags */
  int str_max;
  bool no_nan;
  bool no_inf;
  bool no_wide; /* integers of 128 bits have values of 64 */
  bool no_funcs;      /* only NULL function pointers */
  bool no_voidptr;
  bool no_full_chararr; /* character arrays always have terminating zero */
  bool enum_known;    /* only named enum values */
  bool small;         /* small values */
  bool no_tptr;
  bool no_str_alias;
  bool no_interior;   /* pointers address heads of heap objects only */
  bool no_overlap;
} gopt_t;
enum { STR_ASCII = 1, STR_SPECIAL = 2, STR_UTF8 = 4, STR_CTRL = 8, STR_BYTES = 16 };
gopt_t gopt_default (void);

typedef struct mgraph_t {
  const mt_t * mt;
  char * root;
  marena_t arena;
  /* what was generated */
  int objects, aliases, interior, cycles, strings, str_aliases, nulls, unions, dyn, dyn_elems, overlaps, voidptrs, specials, cells;
} mgraph_t;

void graph_gen (mgraph_t * g, const mt_t * mt, const gopt_t * opt);
void graph_free (mgraph_t * g);
/* isomorphic copy in other storage; bytes that are not serializable are filled with GARBAGE */
void graph_clone (const mgraph_t * g, mgraph_t * dst, int garbage);
uint64_t graph_shape (const mgraph_t * g); /* hash of content, independent of addresses */
void graph_note (const mgraph_t * g);      /* adds a description to the case */
void graph_labels (const mgraph_t * g);
bool graph_nontrivial (const mgraph_t * g);
/* a part of an object is addressed by a pointer and the enclosing object is reachable from this part */
bool graph_inside_out (const mgraph_t * g);
int graph_bad_utf8 (const mgraph_t * g);        /* strings that are not UTF-8 */
int graph_high_bytes (const mgraph_t * g);
int graph_ctrl_chars (const mgraph_t * g);      /* characters that XML 1.0 has no representation for */
/* dynamic arrays overlap, and one that starts first ends before the last element of the overlap; ANY - this applies to any pair of them */
bool graph_prefix_overlap (const mgraph_t * g, bool any);

/* equality */
typedef struct meq_t { bool text; bool nosharing;
  bool no_sizes; /* B has no values in members that are not serialized */
  bool dup_ok; /* one object of A may be represented by several in B, but not the other way round */
  bool numeric; /* values as numbers: zeros are equal, NaNs are equal */ char why[512]; } meq_t;
bool model_eq (const mt_t * mt, const void * a, const void * b, meq_t * eq);

/* visitor */
typedef struct mcell_t { const mt_t * mt; char * addr; char * base; const mf_t * mf; size_t count; /* elements under a pointer */ bool discr_or_size; const mt_t * container;
  const mt_t * tmt; char * target; size_t tsize; /* what a pointer addresses */ bool resizable; } mcell_t;
typedef void (*mvisit_t) (const mcell_t *, void *);
void model_walk (const mt_t * mt, void * obj, mvisit_t fn, void * ctx);
typedef struct mcells_t { mcell_t * c; int n, alloc; } mcells_t;
void model_cells (const mt_t * mt, void * obj, mcells_t * out);
void cells_free (mcells_t * c);
bool kind_is_leaf (mk_t k);
/* an object without sharing as a tree of members, elements and values */
typedef enum dk_t { D_LEAF, D_REC, D_LIST, D_NULL, D_STR } dk_t;
typedef struct dn_t dn_t;
struct dn_t { dk_t kind; const mt_t * mt; const mf_t * mf; char * addr, * base; const mf_t * size; /* member that holds size of a resizable array */
  bool ptr, fixed /* decides about other parts */, inlist; int n; dn_t * k; };
dn_t * model_tree (const mt_t * mt, void * obj);
void tree_free (dn_t * t);
/* changes value of leaf cell to a different value; false if impossible. New memory comes from ARENA */
bool cell_mutate (const mcell_t * c, marena_t * arena, const gopt_t * opt, char * what, size_t what_size);
bool cells_mutate (const mcells_t * cells, int i, marena_t * arena, const gopt_t * opt, char * what, size_t what_size);
u128 cell_int (const mt_t * mt, const void * addr, const void * base);
i128 size_value (const mt_t * st, const void * base, int size_field);
size_t msize (const mt_t * mt);
const char * u128_str (u128 x, bool is_signed);
const mf_t * model_branch_simple (const mt_t * ut, const char * name);

/* value generators */
u128 gen_int (int bits, bool is_signed);
double gen_double (const gopt_t * opt);
char * gen_str (marena_t * a, const gopt_t * opt, size_t max_len);
size_t gen_chars (char * dst, size_t max_len, const gopt_t * opt);
int gen_char (const gopt_t * opt);
void gen_value (const mt_t * mt, void * addr, const gopt_t * opt); /* scalars only */

/* tracked memory */
void mem_install (void);
void mem_reset (void);          /* forget all live blocks (does not free) */
size_t mem_live (void);         /* number of live blocks */
size_t mem_live_bytes (void);
bool mem_is_live (const void * p);              /* P is inside of a live block */
const void * mem_block_of (const void * p, size_t * size);
void mem_fail_at (long n, bool persistent);     /* n-th allocation from now fails; -1 never */
long mem_allocs (void);         /* allocations since mem_fail_at */
long mem_failed (void);         /* failures injected since mem_fail_at */
extern char mem_failed_at[100]; /* function and line of the first of them */
const char * mem_describe_live (void);
void mem_free_all (void);       /* release all live blocks (after a detected leak which is not of interest) */
extern bool mem_quarantine;
extern size_t mem_cap;          /* a single allocation over the cap fails (0 - no cap) */
extern size_t mem_max_request;
extern size_t mem_total, mem_peak;
#endif
