/* P03-stream: the resizable-array stream is a standard XDR stream; P17-functions: cached resolution of functions;
   P24-void: fields that become non-serializable at run time. */
#define _GNU_SOURCE
#include "common.h"
#include <rpc/types.h>
#include <rpc/xdr.h>
#include <math.h>
#include <ctype.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <malloc.h>
#include <stdio.h>

/* ------------------------------------------------------------------ P03-stream */
typedef struct item_t { int kind; uint64_t v; double d; unsigned len; char * p; } item_t;
enum { X_INT, X_UINT, X_SHORT, X_CHAR, X_HYPER, X_BOOL, X_FLOAT, X_DOUBLE, X_OPAQUE, X_BYTES, X_STRING, X_LAST };
static const char * const item_name[] = { "int", "unsigned", "short", "char", "hyper", "bool", "float", "double", "opaque", "bytes", "string" };

static bool
item_xdr (XDR * x, const item_t * i, item_t * out)
{ /* one item in either direction; decoded value is left in OUT */
  memset (out, 0, sizeof (*out));
  out->kind = i->kind;
  out->len = i->len;
  bool decode = x->x_op == XDR_DECODE, rv = false;
  int n = i->v;
  unsigned u = i->v;
  short s = i->v;
  char c = i->v;
  int64_t h = i->v;
  bool_t b = i->v & 1;
  float f = i->d;
  double d = i->d;
  unsigned len = i->len;
  char * p = i->p;
  if (decode)
    {
      n = u = s = c = h = b = f = d = len = 0;
      p = NULL;
    }
  switch (i->kind)
    {
    case X_INT: rv = xdr_int (x, &n); out->v = (unsigned)n; break;
    case X_UINT: rv = xdr_u_int (x, &u); out->v = u; break;
    case X_SHORT: rv = xdr_short (x, &s); out->v = (unsigned short)s; break;
    case X_CHAR: rv = xdr_char (x, &c); out->v = (unsigned char)c; break;
    case X_HYPER: rv = xdr_int64_t (x, &h); out->v = h; break;
    case X_BOOL: rv = xdr_bool (x, &b); out->v = b != 0; break;
    case X_FLOAT: rv = xdr_float (x, &f); out->d = f; break;
    case X_DOUBLE: rv = xdr_double (x, &d); out->d = d; break;
    case X_OPAQUE:
      if (decode)
	p = malloc (i->len + 1);
      rv = xdr_opaque (x, p, i->len);
      out->p = p;
      break;
    case X_BYTES: rv = xdr_bytes (x, &p, &len, 5000); out->p = p; out->len = len; break;
    default:
      rv = xdr_string (x, &p, 5000);
      out->p = p;
      out->len = (rv && p) ? strlen (p) : 0;
    }
  if (!decode)
    out->p = NULL;
  return (rv);
}

static bool
item_same (const item_t * a, const item_t * b)
{
  switch (a->kind)
    {
    case X_INT: case X_UINT: return ((uint32_t)a->v == (uint32_t)b->v);
    case X_SHORT: return ((uint16_t)a->v == (uint16_t)b->v);
    case X_CHAR: return ((uint8_t)a->v == (uint8_t)b->v);
    case X_HYPER: return (a->v == b->v);
    case X_BOOL: return ((a->v & 1) == b->v);
    case X_FLOAT: return ((float)a->d == (float)b->d);
    case X_DOUBLE: return (a->d == b->d);
    default: return (a->len == b->len && (a->len == 0 || (b->p && 0 == memcmp (a->p, b->p, a->len))));
    }
}

void
p_xdr_stream (void)
{
  case_begin ();
  int n = 1 + pbt_geom (40, 9, 10);
  static item_t it[64];
  static unsigned pos[64];
  size_t cap = 0;
  for (int i = 0; i < n; ++i)
    {
      memset (&it[i], 0, sizeof (it[i]));
      it[i].kind = pbt_draw (X_LAST);
      it[i].v = pbt_draw (3) ? pbt_draw (0) : pbt_draw (300);
      it[i].d = (int64_t)pbt_draw (0) / 1024.0;
      it[i].d = (float)it[i].d;
      it[i].len = pbt_draw (4) ? pbt_draw (20) : pbt_draw (600);
      it[i].p = malloc (it[i].len + 1);
      for (unsigned j = 0; j < it[i].len; ++j)
	it[i].p[j] = 1 + pbt_draw (255);
      it[i].p[it[i].len] = 0;
      cap += it[i].len + 16;
    }
  char * mem = malloc (cap);
  XDR xm, xr;
  mr_rarray_t ra;
  item_t out;
  memset (&ra, 0, sizeof (ra));
  xdrmem_create (&xm, mem, cap, XDR_ENCODE);
  mr_xdrra_create (&xr, &ra, XDR_ENCODE);
  for (int i = 0; i < n; ++i)
    {
      pos[i] = xdr_getpos (&xm);
      pbt_note ("%s, %u bytes at %u\n", item_name[it[i].kind], it[i].len, pos[i]);
      PBT_CHECK (item_xdr (&xm, &it[i], &out), "reference", "the memory stream refuses item %d", i);
      PBT_CHECK (item_xdr (&xr, &it[i], &out), "put", "%s (item %d) can not be put", item_name[it[i].kind], i);
      PBT_CHECK (xdr_getpos (&xr) == xdr_getpos (&xm), "put-position", "position after item %d is %u instead of %u", i, (unsigned)xdr_getpos (&xr), (unsigned)xdr_getpos (&xm));
    }
  size_t size = xdr_getpos (&xm);
  PBT_CHECK (ra.MR_SIZE == (ssize_t)size && ra.alloc_size >= ra.MR_SIZE, "size", "size of the array is %zd instead of %zu", ra.MR_SIZE, size);
  PBT_CHECK (0 == memcmp (ra.data.ptr, mem, size), "bytes", "bytes differ from those of the memory stream");
  /* a put without memory is refused and leaves what was put before */
  mem_fail_at (0, true);
  mr_rarray_t before = ra;
  int k = -1, puts = 0;
  for (; k < 0 && puts < 2000; ++puts)
    if (!item_xdr (&xr, &it[puts % n], &out))
      k = puts;
  mem_fail_at (-1, false);
  PBT_CHECK (ra.MR_SIZE >= before.MR_SIZE && 0 == memcmp (ra.data.ptr, mem, size), "no-memory", "a put without memory spoils the array");
  mr_xdrra_create (&xr, &ra, XDR_DECODE);
  xdr_destroy (&xr);
  PBT_CHECK (NULL == ra.data.ptr && 0 == ra.MR_SIZE && 0 == mem_live (), "destroy", "destruction leaves the array");
  /* the same bytes in a place of exact size, whole or cut */
  size_t cut = pbt_draw (2) ? size : pbt_draw (size + 1);
  char * exact = malloc (cut ? cut : 1);
  memcpy (exact, mem, cut);
  ra.data.ptr = exact;
  ra.MR_SIZE = ra.alloc_size = cut;
  xdrmem_create (&xm, exact, cut, XDR_DECODE);
  mr_xdrra_create (&xr, &ra, XDR_DECODE);
  int steps = n + pbt_draw (n + 1), at = 0, moves = 0, ends = 0;
  for (int i = 0; i < steps; ++i)
    {
      if (pbt_chance (1, 5))
	{
	  unsigned to = pbt_draw (3) ? pos[at = pbt_draw (n)] : cut + 1 + pbt_draw (20);
	  bool a = xdr_setpos (&xm, to), b = xdr_setpos (&xr, to);
	  pbt_note ("move to %u of %zu\n", to, cut);
	  if (!a)
	    PBT_CHECK (!b, "setpos", "position %u behind the end at %zu is accepted", to, cut);
	  else
	    PBT_CHECK (b, "setpos", "position %u of %zu is refused", to, cut);
	  if (!a)
	    break;
	  PBT_CHECK (xdr_getpos (&xr) == to, "getpos", "position after a move to %u is %u", to, (unsigned)xdr_getpos (&xr));
	  ++moves;
	}
      if (at >= n)
	break;
      if (pbt_chance (1, 8))
	{ /* direct access to the buffer */
	  int j = at + 1 + pbt_draw (n - at);
	  unsigned len = (j < n ? pos[j] : size) - pos[at];
	  void * a = xdr_inline (&xm, len), * b = xdr_inline (&xr, len);
	  pbt_note ("inline %u bytes\n", len);
	  if (!a)
	    {
	      PBT_CHECK (pos[at] + len <= cut || !b, "inline", "%u bytes at %u of %zu are given", len, pos[at], cut);
	      break; /* place is not aligned */
	    }
	  PBT_CHECK (b && 0 == memcmp (b, mem + pos[at], len), "inline", "%u bytes at %u are not given", len, pos[at]);
	  PBT_CHECK (xdr_getpos (&xr) == xdr_getpos (&xm), "inline-position", "position after %u bytes at %u is %u instead of %u", len, pos[at], (unsigned)xdr_getpos (&xr), (unsigned)xdr_getpos (&xm));
	  at = j;
	  continue;
	}
      item_t o1, o2;
      bool a = item_xdr (&xm, &it[at], &o1), b = item_xdr (&xr, &it[at], &o2);
      PBT_CHECK (a == b, "get", "item %d (%s) at %u of %zu is %s", at, item_name[it[at].kind], pos[at], cut, b ? "read behind the end" : "refused");
      if (a)
	{
	  PBT_CHECK (item_same (&it[at], &o2), "value", "item %d (%s) at %u is read wrong", at, item_name[it[at].kind], pos[at]);
	  PBT_CHECK (xdr_getpos (&xr) == xdr_getpos (&xm), "get-position", "position after item %d is %u instead of %u", at, (unsigned)xdr_getpos (&xr), (unsigned)xdr_getpos (&xm));
	}
      free (o1.p);
      free (o2.p);
      if (!a)
	{
	  ++ends;
	  break;
	}
      ++at;
    }
  PBT_CHECK (ra.data.ptr == exact && ra.MR_SIZE == (ssize_t)cut, "get-alters", "reading alters the array");
  PBT_CHECK (0 == memcmp (exact, mem, cut), "get-alters", "reading alters the bytes");
  pbt_label ("%s, %s", cut < size ? "cut" : "whole", moves ? "moves" : "in order");
  if (n >= 3)
    pbt_nontrivial (pbt_hash (cut * 64 + moves, mem, size));
  free (exact);
  free (mem);
  for (int i = 0; i < n; ++i)
    free (it[i].p);
}

/* ------------------------------------------------------------------ P17-functions */
TYPEDEF_STRUCT (fns_t, (int, a, (const char *)), int x, (void, b, (void)), (void *, c, (size_t)))

static int calls, fail_from;
static void *
plain_calloc (const char * file, const char * func, int line, size_t n, size_t size)
{
  if (fail_from >= 0 && calls++ >= fail_from)
    return (NULL);
  return (calloc (n, size));
}
static void *
plain_realloc (const char * file, const char * func, int line, void * p, size_t size)
{
  if (fail_from >= 0 && calls++ >= fail_from)
    return (NULL);
  char * q = malloc (size);
  if (q && p)
    {
      size_t old = malloc_usable_size (p);
      memcpy (q, p, old < size ? old : size);
      free (p);
    }
  return (q);
}
static void
plain_free (const char * file, const char * func, int line, void * p)
{
  free (p);
}

void pbt_cached_a (void) { }
void pbt_cached_b (void) { }
int pbt_cached_c (int x) { return (x); }
static void hidden_a (void) { }
static void hidden_b (void) { }

typedef struct fstep_t { int fn[3]; int x, fmt, fail; } fstep_t;
typedef struct fshare_t { volatile bool bad; char sig[40], msg[600]; } fshare_t;
#define CHILD_CHECK(COND, SIG, ...) do { if (!(COND)) { sh->bad = true; strcpy (sh->sig, SIG); snprintf (sh->msg, sizeof (sh->msg), __VA_ARGS__); _exit (0); } } while (0)

static char *
fns_save (fns_t * o, int fmt, size_t * size)
{
  char * s = NULL;
  switch (fmt)
    {
    case 0: s = MR_SAVE_CINIT (fns_t, o); break;
    case 1: s = MR_SAVE_JSON (fns_t, o); break;
    case 2: s = MR_SAVE_YAML (fns_t, o); break;
    case 3: s = MR_SAVE_XML1 (fns_t, o); break;
    case 4: s = MR_SAVE_XML2 (fns_t, o); break;
    case 5: s = MR_SAVE_SCM (fns_t, o); break;
    default:
      {
	mr_rarray_t ra = MR_SAVE_XDR_RA (fns_t, o);
	*size = ra.MR_SIZE;
	return (ra.data.ptr);
      }
    }
  *size = s ? strlen (s) : 0;
  return (s);
}

static mr_status_t
fns_load (fns_t * o, int fmt, char * s, size_t size)
{
  memset (o, 0xa5, sizeof (*o));
  switch (fmt)
    {
    case 0: return (MR_LOAD_CINIT (fns_t, s, o));
    case 1: return (MR_LOAD_JSON (fns_t, s, o));
    case 2: return (MR_LOAD_YAML (fns_t, s, o));
    case 3: return (MR_LOAD_XML1 (fns_t, s, o));
    case 4: return (MR_LOAD_XML2 (fns_t, s, o));
    case 5: return (MR_LOAD_SCM (fns_t, s, o));
    default:
      {
	mr_rarray_t ra = { .data = { s }, .MR_SIZE = size, .alloc_size = size };
	return (MR_LOAD_XDR_RA (fns_t, &ra, o));
      }
    }
}

static void
functions_child (fstep_t * st, int n, void ** pool, fshare_t * sh)
{
  fail_from = -1;
  mr_conf.mr_mem.calloc = plain_calloc;
  mr_conf.mr_mem.realloc = plain_realloc;
  mr_conf.mr_mem.free = plain_free;
  for (int i = 0; i < n; ++i)
    {
      fns_t o, o1, o2;
      memset (&o, 0, sizeof (o));
      memcpy (&o.a, &pool[st[i].fn[0]], sizeof (void*));
      memcpy (&o.b, &pool[st[i].fn[1]], sizeof (void*));
      memcpy (&o.c, &pool[st[i].fn[2]], sizeof (void*));
      o.x = st[i].x;
      size_t plain_size = 0, size = 0;
      mr_conf.cache_func_resolve = false;
      char * plain = fns_save (&o, st[i].fmt, &plain_size);
      CHILD_CHECK (plain, "save", "step %d: saving without cache fails", i);
      mr_conf.cache_func_resolve = true;
      fail_from = st[i].fail;
      calls = 0;
      char * s = fns_save (&o, st[i].fmt, &size);
      bool failed = fail_from >= 0 && calls > fail_from;
      fail_from = -1;
      CHILD_CHECK (s || failed, "cached-save", "step %d: saving with cache fails", i);
      if (s)
	{
	  CHILD_CHECK (size == plain_size && 0 == memcmp (s, plain, size), "cached-text", "step %d: text with cache is %.200s instead of %.200s", i, s, plain);
	  mr_status_t r1 = fns_load (&o1, st[i].fmt, s, size);
	  mr_conf.cache_func_resolve = false;
	  mr_status_t r2 = fns_load (&o2, st[i].fmt, plain, plain_size);
	  CHILD_CHECK (r1 == r2, "cached-load", "step %d: loading with cache gives %d, without %d", i, r1, r2);
	  if (r1 == MR_SUCCESS)
	    CHILD_CHECK (o1.x == o.x && o2.x == o.x && memcmp (&o1.a, &o2.a, sizeof (o1.a)) == 0 && memcmp (&o1.b, &o2.b, sizeof (o1.b)) == 0 && memcmp (&o1.c, &o2.c, sizeof (o1.c)) == 0,
			 "cached-value", "step %d: loaded objects differ", i);
	  for (int k = 0; k < 3 && r1 == MR_SUCCESS; ++k)
	    if (1)
	      { /* functions of known names come back */
		void * f = k == 0 ? *(void**)&o1.a : k == 1 ? *(void**)&o1.b : *(void**)&o1.c;
		CHILD_CHECK (f == pool[st[i].fn[k]], "function", "step %d: function %d comes back as %p instead of %p (%.300s)", i, k, f, pool[st[i].fn[k]], st[i].fmt < 6 ? s : "");
	      }
	  free (s);
	}
      free (plain);
    }
  _exit (0);
}

void
p_functions (void)
{
  case_begin ();
  int n = 1 + pbt_geom (60, 12, 13);
  void * pool[] = { NULL, pbt_cached_a, pbt_cached_b, pbt_cached_c, mr_strdup, mr_ra_printf, /* known up to here */
    hidden_a, hidden_b, (char*)hidden_a + 1, (char*)pbt_cached_a + 1, (void*)1, (void*)-1L, qsort, getenv, malloc, strlen, &n, NULL, NULL, NULL, NULL, NULL };
  enum { POOL = sizeof (pool) / sizeof (pool[0]) };
  char * heap = malloc (100);
  for (int i = 17; i < POOL; ++i)
    pool[i] = heap + i;
  fstep_t st[64];
  uint64_t h = 0;
  int wide = pbt_draw (2) ? POOL : 8;
  for (int i = 0; i < n; ++i)
    {
      for (int k = 0; k < 3; ++k)
	h = pbt_mix (h, st[i].fn[k] = pbt_draw (wide));
      st[i].x = pbt_draw (1000);
      h = pbt_mix (h, st[i].fmt = pbt_draw (7));
      st[i].fail = pbt_chance (1, 8) ? pbt_draw (12) : -1;
      pbt_note ("save functions %d %d %d in format %d%s\n", st[i].fn[0], st[i].fn[1], st[i].fn[2], st[i].fmt, st[i].fail >= 0 ? ", no memory" : "");
    }
  fshare_t * sh = mmap (NULL, sizeof (*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork ();
  if (pid == 0)
    functions_child (st, n, pool, sh);
  int status = 0;
  waitpid (pid, &status, 0);
  free (heap);
  fshare_t r = *sh;
  munmap (sh, sizeof (*sh));
  if (r.bad)
    pbt_fail (r.sig, "%s", r.msg);
  PBT_CHECK (WIFEXITED (status) && WEXITSTATUS (status) == 0, "crash", "the process ends with status %x", status);
  pbt_label ("%d..%d steps", n / 10 * 10, n / 10 * 10 + 9);
  if (n >= 3)
    pbt_nontrivial (h);
}

/* ------------------------------------------------------------------ P24-void */
TYPEDEF_ENUM (vf_enum_t, VF_ZERO, VF_ONE, (VF_SEVEN, = 7), (VF_NEG, = -2))
TYPEDEF_STRUCT (vf_inner_t, int in_a, (string_t, in_s))
TYPEDEF_STRUCT (vf_t,
		(int, vfint),
		(string_t, vfstr),
		(double, vfdouble),
		BITFIELD (unsigned, vfbits, : 5),
		BITFIELD (int, vfbits2, : 9),
		(vf_enum_t, vfenum),
		(vf_inner_t, vfstruct),
		(int, vfarr, [3]),
		(char, vfchars, [8]),
		(int *, vfptr),
		(short *, vfdyn, , , { .offset = offsetof (vf_t, vfn) }, "offset"),
		(ssize_t, vfn),
		ANON_UNION (), (int, vfu1), (float, vfu2), END_ANON_UNION ("vfdisc"),
		(bool, vfdisc),
		(uint64_t, vflast))
enum { VF_FIELDS = 12 };
static const char * const vf_name[VF_FIELDS] = { "vfint", "vfstr", "vfdouble", "vfbits", "vfbits2", "vfenum", "vfstruct", "vfarr", "vfchars", "vfptr", "vfdyn", "vflast" };

/* which of the fields differ: bit by index in vf_name, higher bits for the others */
static unsigned
vf_diff (const vf_t * a, const vf_t * b)
{
  unsigned d = 0;
  int k = 0;
#define VF_D(COND) d |= (COND) ? 0 : 1u << k; ++k
#define STR_EQ(A, B) (((A) == NULL) == ((B) == NULL) && (!(A) || !(B) || 0 == strcmp (A, B)))
  VF_D (a->vfint == b->vfint);
  VF_D (STR_EQ (a->vfstr, b->vfstr));
  VF_D (a->vfdouble == b->vfdouble);
  VF_D (a->vfbits == b->vfbits);
  VF_D (a->vfbits2 == b->vfbits2);
  VF_D (a->vfenum == b->vfenum);
  VF_D (a->vfstruct.in_a == b->vfstruct.in_a && STR_EQ (a->vfstruct.in_s, b->vfstruct.in_s));
  VF_D (0 == memcmp (a->vfarr, b->vfarr, sizeof (a->vfarr)));
  VF_D (0 == strncmp (a->vfchars, b->vfchars, 8));
  VF_D ((a->vfptr == NULL) == (b->vfptr == NULL) && (!a->vfptr || !b->vfptr || *a->vfptr == *b->vfptr));
  VF_D ((a->vfdyn == NULL) == (b->vfdyn == NULL) && (!a->vfdyn || !b->vfdyn || (a->vfn == b->vfn && 0 == memcmp (a->vfdyn, b->vfdyn, a->vfn))));
  VF_D (a->vflast == b->vflast);
  VF_D (a->vfdisc == b->vfdisc && (a->vfdisc ? a->vfu2 == b->vfu2 : a->vfu1 == b->vfu1));
  return (d);
}

static mr_stype_t vf_stype[VF_FIELDS];
static mr_fd_t * vf_fd[VF_FIELDS];

static void
vf_set (unsigned set)
{ /* fields of SET are made non-serializable in some order and grouping */
  char type[] = "vf_t", names[4][20];
  if (pbt_chance (1, 10))
    {
      mr_type_void_fields_impl (NULL, "vfint", NULL);
      mr_type_void_fields_impl ("vf_no_such_type", "vfint", NULL);
    }
  for (int k = 0; k < VF_FIELDS; ++k)
    if ((set >> k) & 1)
      {
	strcpy (names[0], vf_name[k]);
	strcpy (names[1], "nosuchfield");
	strcpy (names[2], vf_name[k]);
	int next = k + 1;
	while (next < VF_FIELDS && !((set >> next) & 1))
	  ++next;
	switch (pbt_draw (4))
	  {
	  case 0: mr_type_void_fields_impl (type, names[0], NULL); break;
	  case 1: mr_type_void_fields_impl (type, names[1], names[0], NULL); break;
	  case 2: mr_type_void_fields_impl (type, names[0], names[2], NULL); break;
	  default:
	    if (next < VF_FIELDS)
	      {
		strcpy (names[3], vf_name[next]);
		mr_type_void_fields_impl (type, names[0], names[3], NULL);
		k = next;
	      }
	    else
	      mr_type_void_fields_impl (type, names[0], NULL);
	  }
      }
}

static void
vf_reset (void)
{
  for (int k = 0; k < VF_FIELDS; ++k)
    vf_fd[k]->stype = vf_stype[k];
}

static bool
has_word (const char * s, const char * w)
{
  size_t n = strlen (w);
  for (const char * p = s; (p = strstr (p, w)); p += n)
    if ((p == s || !isalnum ((unsigned char)p[-1])) && !isalnum ((unsigned char)p[n]))
      return (true);
  return (false);
}

static void
vf_random (vf_t * v, char * str, char * in, int * target, short * dyn)
{
  memset (v, 0, sizeof (*v));
  v->vfint = pbt_draw (0);
  strcpy (str, PBT_PICK (((const char *[]){ "", "abc", "text", "x y" })));
  v->vfstr = pbt_draw (3) ? str : NULL;
  v->vfdouble = (int)pbt_draw (0) / 16.0;
  v->vfbits = pbt_draw (32);
  v->vfbits2 = (int)pbt_draw (512) - 256;
  v->vfenum = PBT_PICK (((int[]){ VF_ZERO, VF_ONE, VF_SEVEN, VF_NEG }));
  v->vfstruct.in_a = pbt_draw (100);
  strcpy (in, "inner");
  in[pbt_draw (6)] = 0;
  v->vfstruct.in_s = pbt_draw (2) ? in : NULL;
  for (int i = 0; i < 3; ++i)
    v->vfarr[i] = pbt_draw (1000);
  strcpy (v->vfchars, "letters");
  v->vfchars[pbt_draw (8)] = 0;
  *target = pbt_draw (1000);
  v->vfptr = pbt_draw (3) ? target : NULL;
  int n = pbt_draw (5);
  for (int i = 0; i < n; ++i)
    dyn[i] = pbt_draw (1000);
  v->vfdyn = n ? dyn : NULL;
  v->vfn = n * sizeof (dyn[0]);
  v->vfdisc = pbt_draw (2);
  if (v->vfdisc)
    v->vfu2 = pbt_draw (1000) / 8.0;
  else
    v->vfu1 = pbt_draw (0);
  v->vflast = pbt_draw (0);
}

void
p_void (void)
{
  case_begin ();
  mr_td_t * td = mr_get_td_by_name ("vf_t");
  PBT_CHECK (td, "type", "no type");
  if (!vf_fd[0])
    for (int k = 0; k < VF_FIELDS; ++k)
      {
	char name[20];
	strcpy (name, vf_name[k]);
	vf_fd[k] = mr_get_fd_by_name (td, name);
	PBT_CHECK (vf_fd[k], "field", "no field %s", name);
	vf_stype[k] = vf_fd[k]->stype;
      }
  vf_reset ();
  vf_t v, w, dst, zero;
  char str[20], in[20], str2[20], in2[20];
  int target, target2;
  short dyn[8], dyn2[8];
  memset (&zero, 0, sizeof (zero));
  vf_random (&v, str, in, &target, dyn);
  unsigned set = 0;
  for (int k = 0; k < VF_FIELDS; ++k)
    set |= (unsigned)pbt_draw (2) << k;
  vf_set (set);
  for (int k = 0; k < VF_FIELDS; ++k)
    if ((set >> k) & 1)
      pbt_note ("%s is made non-serializable\n", vf_name[k]);
  int fmt = pbt_draw (7);
  char * text = NULL;
  mr_rarray_t ra;
  memset (&ra, 0, sizeof (ra));
  switch (fmt)
    {
    case 0: text = MR_SAVE_CINIT (vf_t, &v); break;
    case 1: text = MR_SAVE_JSON (vf_t, &v); break;
    case 2: text = MR_SAVE_YAML (vf_t, &v); break;
    case 3: text = MR_SAVE_XML1 (vf_t, &v); break;
    case 4: text = MR_SAVE_XML2 (vf_t, &v); break;
    case 5: text = MR_SAVE_SCM (vf_t, &v); break;
    default: ra = MR_SAVE_XDR_RA (vf_t, &v);
    }
  PBT_CHECK (fmt == 6 ? ra.data.ptr != NULL : text != NULL, "save", "saving fails");
  pbt_note ("text: %s\n", text ? text : "");
  if (text)
    for (int k = 0; k < VF_FIELDS; ++k)
      if ((set >> k) & 1)
	PBT_CHECK (!has_word (text, vf_name[k]), "saved", "non-serializable field %s is saved: %s", vf_name[k], text);
  /* hash and comparison do not see the fields of the set, and see the others */
  w = v;
  vf_random (&w, str2, in2, &target2, dyn2);
  vf_t mixed = v;
#define MIX(K, F) if ((set >> K) & 1) memcpy (&mixed.F, &w.F, sizeof (mixed.F))
  MIX (0, vfint); MIX (1, vfstr); MIX (2, vfdouble); MIX (5, vfenum); MIX (6, vfstruct); MIX (7, vfarr); MIX (8, vfchars); MIX (9, vfptr); MIX (11, vflast);
  if ((set >> 3) & 1)
    mixed.vfbits = w.vfbits;
  if ((set >> 4) & 1)
    mixed.vfbits2 = w.vfbits2;
  PBT_CHECK (MR_CMP_STRUCTS (vf_t, &v, &mixed) == 0, "compare", "comparison sees a non-serializable field (difference %x, set %x)", vf_diff (&v, &mixed), set);
  PBT_CHECK (MR_HASH_STRUCT (vf_t, &v) == MR_HASH_STRUCT (vf_t, &mixed), "hash", "hash sees a non-serializable field (difference %x, set %x)", vf_diff (&v, &mixed), set);
  unsigned diff = vf_diff (&v, &w) & ~set;
  if (diff)
    PBT_CHECK (MR_CMP_STRUCTS (vf_t, &v, &w) != 0, "compare-blind", "comparison does not see difference %x (set %x)", diff, set);
  /* restoring by the full type: fields of the set are absent */
  memset (&dst, 0x5a, sizeof (dst));
  mr_status_t rv;
  if (fmt != 6)
    vf_reset ();
  switch (fmt)
    {
    case 0: rv = MR_LOAD_CINIT (vf_t, text, &dst); break;
    case 1: rv = MR_LOAD_JSON (vf_t, text, &dst); break;
    case 2: rv = MR_LOAD_YAML (vf_t, text, &dst); break;
    case 3: rv = MR_LOAD_XML1 (vf_t, text, &dst); break;
    case 4: rv = MR_LOAD_XML2 (vf_t, text, &dst); break;
    case 5: rv = MR_LOAD_SCM (vf_t, text, &dst); break;
    default: rv = MR_LOAD_XDR_RA (vf_t, &ra, &dst);
    }
  PBT_CHECK (rv == MR_SUCCESS, "load", "loading fails: %s", text ? text : "");
  unsigned dv = vf_diff (&v, &dst), dz = vf_diff (&zero, &dst);
  PBT_CHECK ((dv & ~set) == 0, "value", "fields %x are restored wrong (set %x): %s", dv & ~set, set, text ? text : "");
  PBT_CHECK ((dz & set) == 0, "not-zero", "non-serializable fields %x are not zero", dz & set);
  if (pbt_draw (2))
    { /* a copy by the restricted type leaves its source and copies the rest */
      vf_reset ();
      vf_set (set);
      vf_t copy, keep = v;
      memset (&copy, 0x33, sizeof (copy));
      rv = MR_COPY_RECURSIVELY (vf_t, &v, &copy);
      PBT_CHECK (rv == MR_SUCCESS, "copy", "copy fails");
      PBT_CHECK (0 == memcmp (&keep, &v, sizeof (v)), "copy-source", "copy alters the source");
      PBT_CHECK ((vf_diff (&v, &copy) & ~set) == 0, "copy-value", "fields %x are copied wrong (set %x)", vf_diff (&v, &copy) & ~set, set);
      if (!((set >> 1) & 1) && v.vfstr)
	PBT_CHECK (copy.vfstr != v.vfstr, "copy-shared", "string is shared");
      MR_FREE_RECURSIVELY (vf_t, &copy);
    }
  vf_reset ();
  MR_FREE_RECURSIVELY (vf_t, &dst);
  if (text)
    MR_FREE (text);
  if (ra.data.ptr)
    MR_FREE (ra.data.ptr);
  pbt_label ("%d fields, format %d", __builtin_popcount (set), fmt);
  if (set)
    pbt_nontrivial (pbt_hash (set * 8 + fmt, &v.vfint, sizeof (v.vfint)));
  check_no_leak ("leak", "the case");
}

/* ------------------------------------------------------------------ P03-opaque */
TYPEDEF_STRUCT (opq_t, (int, a), (int8_t *, MR_OPAQUE_DATA, , , { "size" }, "string"), (ssize_t, size), (int, z))
TYPEDEF_STRUCT (opq_list_t, (opq_t, in), (opq_list_t *, next), (string_t, s))

void
p_opaque (void)
{
  case_begin ();
  enum { MAX = 6 };
  int n = 1 + pbt_geom (MAX - 1, 2, 3);
  opq_list_t l[MAX], out;
  memset (l, 0, sizeof (l));
  uint64_t h = n;
  int full = 0;
  for (int i = 0; i < n; ++i)
    {
      int size = pbt_draw (3) ? pbt_draw (12) : pbt_draw (200);
      l[i].in.a = pbt_draw (0);
      l[i].in.z = pbt_draw (0);
      l[i].in.size = size;
      l[i].in.MR_OPAQUE_DATA = size ? malloc (size) : NULL;
      for (int j = 0; j < size; ++j)
	l[i].in.MR_OPAQUE_DATA[j] = pbt_draw (256);
      h = pbt_hash (h, l[i].in.MR_OPAQUE_DATA, size);
      full += size > 0;
      l[i].s = pbt_draw (2) ? "text" : NULL;
      l[i].next = i + 1 < n ? &l[i + 1] : NULL;
    }
  if (pbt_draw (2))
    l[n - 1].next = &l[pbt_draw (n)];
  pbt_note ("%d objects, %d with opaque data\n", n, full);
  mr_rarray_t x = MR_SAVE_XDR_RA (opq_list_t, &l[0]);
  PBT_CHECK (x.data.ptr, "save", "saving fails");
  char * exact = malloc (x.MR_SIZE);
  memcpy (exact, x.data.ptr, x.MR_SIZE);
  mr_rarray_t y = { .data = { exact }, .MR_SIZE = x.MR_SIZE, .alloc_size = x.MR_SIZE };
  memset (&out, 0x77, sizeof (out));
  PBT_CHECK (MR_SUCCESS == MR_LOAD_XDR_RA (opq_list_t, &y, &out), "load", "loading fails");
  opq_list_t * a = l, * b = &out;
  for (int i = 0; i < n; ++i)
    {
      PBT_CHECK (a->in.a == b->in.a && a->in.z == b->in.z, "value", "numbers of object %d differ", i);
      PBT_CHECK (a->in.size == 0 || (a->in.size == b->in.size && b->in.MR_OPAQUE_DATA && 0 == memcmp (a->in.MR_OPAQUE_DATA, b->in.MR_OPAQUE_DATA, a->in.size)), "opaque", "%zd opaque bytes of object %d differ", a->in.size, i);
      PBT_CHECK (a->in.size || b->in.MR_OPAQUE_DATA == NULL, "opaque", "opaque bytes of object %d appear", i);
      if (a->in.size)
	{
	  size_t size;
	  PBT_CHECK (mem_block_of (b->in.MR_OPAQUE_DATA, &size) == b->in.MR_OPAQUE_DATA && size >= (size_t)a->in.size, "block", "block of %zu bytes for %zd", size, a->in.size);
	}
      PBT_CHECK ((a->s == NULL) == (b->s == NULL) && (!a->s || 0 == strcmp (a->s, b->s)), "string", "string %d differs", i);
      PBT_CHECK ((a->next == NULL) == (b->next == NULL), "next", "end of the list is lost");
      if (!a->next)
	break;
      a = a->next;
      b = b->next;
    }
  mr_rarray_t again = MR_SAVE_XDR_RA (opq_list_t, &out);
  PBT_CHECK (again.data.ptr && again.MR_SIZE == x.MR_SIZE && 0 == memcmp (again.data.ptr, x.data.ptr, x.MR_SIZE), "again", "restored object is saved to other bytes");
  /* a shorter stream is refused, whatever it was cut from */
  size_t cut = pbt_draw (x.MR_SIZE);
  char * part = malloc (cut ? cut : 1);
  memcpy (part, exact, cut);
  mr_rarray_t p = { .data = { part }, .MR_SIZE = cut, .alloc_size = cut };
  opq_list_t t;
  mem_free_all ();
  PBT_CHECK (MR_SUCCESS != MR_LOAD_XDR_RA (opq_list_t, &p, &t), "truncated", "a stream cut at %zu of %zd is accepted", cut, (ssize_t)y.MR_SIZE);
  check_no_leak ("leak", "refused load");
  free (part);
  free (exact);
  for (int i = 0; i < n; ++i)
    free (l[i].in.MR_OPAQUE_DATA);
  if (full)
    pbt_nontrivial (h);
}

/* known finding: opaque data exist for XDR only */
void
p_known_opaque (void)
{
  case_begin ();
  opq_t o = { .a = 1, .MR_OPAQUE_DATA = (int8_t[]){ 1, 2, 3, 4 }, .size = 4, .z = 2 }, d;
  char * s = MR_SAVE_JSON (opq_t, &o);
  PBT_CHECK (s && MR_SUCCESS == MR_LOAD_JSON (opq_t, s, &d), "load", "load failed");
  PBT_CHECK (d.MR_OPAQUE_DATA && d.MR_OPAQUE_DATA[3] == 4, "content", "opaque data are not restored from JSON");
}

void
p_known_opaque_copy (void)
{
  case_begin ();
  opq_t o = { .a = 1, .MR_OPAQUE_DATA = (int8_t[]){ 1, 2, 3, 4 }, .size = 4, .z = 2 }, d;
  PBT_CHECK (MR_SUCCESS == MR_COPY_RECURSIVELY (opq_t, &o, &d), "copy", "an object with opaque data can not be copied");
}

void
p_known_opaque_cmp (void)
{
  case_begin ();
  opq_t o = { .a = 1, .MR_OPAQUE_DATA = (int8_t[]){ 1, 2, 3, 4 }, .size = 4, .z = 2 }, d = { .a = 1, .MR_OPAQUE_DATA = (int8_t[]){ 1, 2, 3, 9 }, .size = 4, .z = 2 };
  PBT_CHECK (MR_CMP_STRUCTS (opq_t, &o, &d) != 0, "compare", "comparison does not see opaque data");
}
