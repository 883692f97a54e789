/* P18: growable buffers, printing, messages; P21: XML documents of a stream. */
#define _GNU_SOURCE
#include "common.h"
#include <mr_stringify.h>
#include <complex.h>
#include <math.h>

void p_xdr_stream (void);
void p_context (void);
void p_functions (void);
void p_void (void);
void p_opaque (void);
void p_known_opaque (void);
void p_known_opaque_copy (void);
void p_known_opaque_cmp (void);

/* ---------------------------------------------------------------- growable buffers */
typedef struct model_buf_t { char * p; size_t n, a; } model_buf_t;

static void
mb_add (model_buf_t * b, const void * p, size_t n)
{
  if (b->n + n > b->a)
    b->p = realloc (b->p, b->a = 2 * (b->n + n));
  memcpy (b->p + b->n, p, n);
  b->n += n;
}

static size_t
gen_size (void)
{
  switch (pbt_draw (6))
    {
    case 0: return (pbt_draw (3));
    case 1: return (pbt_draw (20));
    case 2: return (1ULL << pbt_draw (13));
    case 3: return ((1ULL << pbt_range (1, 13)) - 1);
    case 4: return (pbt_draw (300));
    default: return (pbt_draw (3000));
    }
}

static void
buf_check (mr_rarray_t * ra, model_buf_t * m, bool text, const char * what)
{
  PBT_CHECK (ra->MR_SIZE == (ssize_t)(m->n + text), "size", "after %s size is %zd instead of %zu", what, ra->MR_SIZE, m->n + text);
  size_t size;
  if (ra->MR_SIZE == 0)
    return;
  PBT_CHECK (ra->data.ptr != NULL, "data", "after %s there is no data", what);
  PBT_CHECK (mem_block_of (ra->data.ptr, &size) == ra->data.ptr, "block", "after %s data is not a block of the library", what);
  PBT_CHECK (ra->alloc_size >= ra->MR_SIZE && (size_t)ra->alloc_size <= size, "alloc-size", "after %s allocated size is %zd, the block has %zu bytes, %zd are used", what, ra->alloc_size, size, ra->MR_SIZE);
  if (memcmp (ra->data.ptr, m->p, m->n))
    {
      size_t i = 0;
      while (ra->data.string[i] == m->p[i])
	++i;
      pbt_fail ("content", "after %s byte %zu of %zu is %02x instead of %02x", what, i, m->n, (unsigned char)ra->data.string[i], (unsigned char)m->p[i]);
    }
  if (text)
    PBT_CHECK (0 == ra->data.string[m->n], "terminator", "after %s the text is not terminated", what);
}

static void
buf_gone (mr_rarray_t * ra, const char * what)
{
  PBT_CHECK (NULL == ra->data.ptr && 0 == ra->MR_SIZE && 0 == ra->alloc_size, "not-released", "after failed %s the buffer is not empty", what);
}

static char *
gen_text (size_t n, bool ascii)
{
  char * s = malloc (n + 1);
  for (size_t i = 0; i < n; ++i)
    s[i] = ascii ? "abc xyz%s\\\"'09"[pbt_draw (14)] : 1 + pbt_draw (255);
  s[n] = 0;
  return (s);
}

static long
ceil_log2 (size_t n)
{
  long l = 0;
  while (((size_t)1 << l) < n)
    ++l;
  return (l);
}

static void
p_buffer (void)
{
  case_begin ();
  bool text = pbt_draw (2);
  bool faults = pbt_chance (1, 4);
  size_t elem = text ? 1 : PBT_PICK (((size_t[]){ 1, 2, 4, 8, 16, 24, 100 }));
  mr_rarray_t ra;
  memset (&ra, 0, sizeof (ra));
  model_buf_t m = { 0 };
  if (text)
    {
      size_t start = gen_size () / 4;
      ra.data.string = MR_CALLOC (start + 1, 1);
      memset (ra.data.string, 'i', start);
      ra.MR_SIZE = ra.alloc_size = start + 1;
      ra.type = "string";
      for (size_t i = 0; i < start; ++i)
	mb_add (&m, "i", 1);
    }
  int n = 1 + pbt_geom (60, 14, 15), muts = 0, fails = 0, grown = 0;
  uint64_t h = text * 1000 + elem;
  char what[200];
  size_t start = m.n;
  bool plain = true;
  mem_fail_at (-1, false);
  for (int i = 0; i < n; ++i)
    {
      bool dead = text && NULL == ra.data.ptr;
      int fail = faults && pbt_chance (1, 5);
      mr_rarray_t old = ra;
      size_t old_n = m.n;
      int op = pbt_draw (text ? 5 : 3);
      if (fail)
	{
	  mem_fail_at (0, true);
	  plain = false;
	}
      if (!text)
	{
	  size_t size = op == 1 ? elem * pbt_draw (20) : op == 2 ? elem * gen_size () : elem;
	  char * p;
	  bool huge = pbt_chance (1, 25);
	  if (huge)
	    size = PBT_PICK (((size_t[]){ SSIZE_MAX, SSIZE_MAX - 1, SSIZE_MAX / 2 + 1, (size_t)1 << 62, -1, -8, (size_t)1 << 63 }));
	  snprintf (what, sizeof (what), "step %d: append of %zd bytes to %zu%s", i, size, m.n, fail ? ", no memory" : "");
	  if (pbt_draw (2))
	    p = mr_rarray_append (&ra, size);
	  else
	    p = mr_rarray_allocate_element (&ra.data.ptr, &ra.MR_SIZE, &ra.alloc_size, size);
	  if (huge)
	    PBT_CHECK (p == NULL, "huge", "%s succeeds", what);
	  if (p == NULL && m.n + size > 0)
	    {
	      PBT_CHECK (huge || mem_failed (), "refused", "%s fails without a reason", what);
	      PBT_CHECK (0 == memcmp (&old, &ra, sizeof (ra)), "failed-altered", "failed %s alters the array", what);
	      ++fails;
	    }
	  else if (p)
	    {
	      PBT_CHECK (p == ra.data.string + m.n, "address", "%s gives address %zd", what, p - ra.data.string);
	      char * t = gen_text (size > 40 ? 40 : size, false);
	      for (size_t j = 0; j < size; ++j)
		p[j] = t[j % 40];
	      for (size_t j = 0; j < size; ++j)
		mb_add (&m, t + j % 40, 1);
	      free (t);
	      ++muts;
	      h = pbt_mix (h, size);
	    }
	}
      else
	{
	  int rv;
	  size_t len = gen_size ();
	  char * s = NULL, * add = NULL;
	  size_t alen = 0;
	  if (op == 0)
	    {
	      char c = pbt_draw (8) ? 'a' + pbt_draw (26) : pbt_draw (256);
	      snprintf (what, sizeof (what), "step %d: append of character %d to %zu", i, c, m.n);
	      add = malloc (1);
	      *add = c;
	      alen = 1;
	      rv = mr_ra_append_char (&ra, c);
	    }
	  else if (op == 1)
	    {
	      s = gen_text (len, false);
	      snprintf (what, sizeof (what), "step %d: append of string of %zu to %zu", i, len, m.n);
	      rv = mr_ra_append_string (&ra, s);
	      add = strdup (s);
	      alen = len;
	    }
	  else if (op == 2)
	    { /* quoted */
	      s = gen_text (len / 8, false);
	      snprintf (what, sizeof (what), "step %d: append of quoted string of %zu to %zu", i, len / 8, m.n);
	      rv = mr_ra_printf_quote_string (&ra, s, "\\%03o");
	      /* value of the literal is checked by P02 and P15, here only its extent */
	      if (rv >= 0)
		{
		  PBT_CHECK (rv >= (int)(len / 8) + 2 && ra.MR_SIZE == (ssize_t)m.n + 1 + rv, "quote-count", "%s returns %d, size becomes %zd", what, rv, ra.MR_SIZE);
		  PBT_CHECK (ra.data.string[m.n] == '"' && ra.data.string[m.n + rv - 1] == '"', "quote-marks", "%s: no quotes", what);
		  alen = rv;
		  add = malloc (alen);
		  memcpy (add, ra.data.string + m.n, alen);
		}
	    }
	  else
	    {
	      s = gen_text (pbt_draw (3) ? len / 4 : len, pbt_draw (2));
	      int a = gen_int (32, true), w = pbt_range (-200, 200), pr = pbt_range (-1, 40);
	      long long ll = gen_int (64, true);
	      double d = gen_int (20, true) / 8.0;
	      char c = pbt_draw (20) ? 'a' + pbt_draw (26) : 0;
	      snprintf (what, sizeof (what), "step %d: print to %zu", i, m.n);
#define FORMS(F, ...)							\
	      F (0, "%s", s) F (1, "%d", a) F (2, "%*d|%s", w, a, s) F (3, "%.*s", pr, s) F (4, "%c", c) F (5, "%lld %llx", ll, ll) \
	      F (6, "%f %g", d, d) F (7, "%s", "") F (8, "%d%%%s%c%s%lld%s", a, s, c, s, ll, s) F (9, "plain text") F (10, "%*s", w < 0 ? -w : w, "") \
	      F (11, "%p%s", (void*)ra.data.ptr, s) F (12, "%s%s%s%s%s%s%s%s", s, "a", s, "", s, "bc", s, "d")
#define FORM(N, ...) case N: alen = snprintf (NULL, 0, __VA_ARGS__); add = malloc (alen + 1); snprintf (add, alen + 1, __VA_ARGS__); rv = mr_ra_printf (&ra, __VA_ARGS__); break;
	      switch (pbt_draw (13))
		{
		  FORMS (FORM)
		default: rv = -2;
		}
	    }
	  if (fail)
	    strcat (what, ", no memory");
	  if (dead)
	    PBT_CHECK (rv < 0, "dead", "%s: the buffer is gone after a failure, but %d is returned", what, rv);
	  else if (rv < 0)
	    {
	      PBT_CHECK (mem_failed (), "refused", "%s fails without a reason", what);
	      ++fails;
	    }
	  if (rv < 0)
	    {
	      buf_gone (&ra, what);
	      m.n = 0;
	    }
	  else
	    {
	      PBT_CHECK (rv == (int)alen, "count", "%s returns %d instead of %zu", what, rv, alen);
	      mb_add (&m, add, alen);
	      ++muts;
	      h = pbt_mix (h, alen * 8 + op);
	    }
	  free (add);
	  free (s);
	}
      if (fail)
	mem_fail_at (-1, false);
      if (ra.data.ptr != old.data.ptr)
	++grown;
      buf_check (&ra, &m, text && ra.data.ptr, what);
      (void)old_n;
    }
  pbt_note ("%s of elements of %zu: %d steps, %zu bytes at the end, %d failed\n", text ? "text" : "array", elem, n, m.n, fails);
  /* growth is geometric: every reallocation doubles the size at least */
  if (plain)
    PBT_CHECK (mem_allocs () <= ceil_log2 (m.n + 2) - (start > 1 ? ceil_log2 (start) - 1 : 0) + 1, "growth", "%ld allocations for growth from %zu to %zu", mem_allocs (), start, m.n);
  pbt_label ("%s, %s", text ? "text" : "array", grown == 0 ? "did not move" : grown < 4 ? "moved 1-3 times" : "moved over 3 times");
  if (fails)
    pbt_label ("with failures");
  if (muts >= 3 && grown)
    pbt_nontrivial (h);
  if (ra.data.ptr)
    MR_FREE (ra.data.ptr);
  free (m.p);
  check_no_leak ("leak", "the case");
}

/* ---------------------------------------------------------------- duplicates of strings */
static void
p_dup (void)
{
  case_begin ();
  size_t n = gen_size (), lim = 0;
  char * s = gen_text (n, false);
  /* exact size: reading behind the terminator or the limit is seen by the sanitizer */
  bool part = pbt_draw (2), fail = pbt_chance (1, 6), open = false;
  size_t want = n;
  if (part)
    {
      lim = PBT_PICK (((size_t[]){ 0, 1, n, n + 1, n / 2, (size_t)-1, n ? n - 1 : 0, SSIZE_MAX, n + pbt_draw (100) }));
      want = lim < n ? lim : n;
      if (lim <= n && pbt_draw (2))
	{ /* text need not be terminated within the limit */
	  char * t = malloc (lim ? lim : 1);
	  memcpy (t, s, lim);
	  free (s);
	  s = t;
	  open = true;
	}
    }
  char * copy = malloc (want + 1);
  memcpy (copy, s, want);
  mem_fail_at (fail ? 0 : -1, false);
  char * d = part ? mr_strndup (s, lim) : mr_strdup (s);
  mem_fail_at (-1, false);
  pbt_note ("%s of text of %zu, limit %zd%s%s\n", part ? "part" : "copy", n, lim, open ? ", not terminated" : "", fail ? ", no memory" : "");
  PBT_CHECK ((d == NULL) == fail, "result", "gives %s", d ? "a copy without memory" : "no copy");
  if (d)
    {
      size_t size = 0;
      PBT_CHECK (mem_block_of (d, &size) == d && size >= want + 1, "block", "block of %zu bytes for %zu characters", size, want);
      PBT_CHECK (0 == memcmp (d, copy, want) && 0 == d[want], "content", "content of the copy differs or is not terminated");
      PBT_CHECK (0 == memcmp (s, copy, want), "source", "source is altered");
      MR_FREE (d);
    }
  pbt_label ("%s%s", part ? lim < n ? "shorter" : "limit beyond the end" : "whole", fail ? ", no memory" : "");
  if (!fail)
    pbt_nontrivial (pbt_hash (lim + part * 7, copy, want));
  free (s);
  free (copy);
  check_no_leak ("leak", "duplication");
}

/* ---------------------------------------------------------------- printing */
TYPEDEF_ENUM (pr_enum_t, PR_ZERO, (PR_FIVE, = 5), (PR_MINUS, = -3), (PR_BIG, = 70000))
TYPEDEF_STRUCT (pr_struct_t, int a, (string_t, s), double d, (pr_enum_t, e), (pr_struct_t *, next))

typedef struct pt_t {
  const char * name;
  const mt_t * mt;
  mk_t kind;
  size_t size;
  int (*val) (FILE *, void *);
  int (*ptr) (FILE *, void *);
  int (*arr) (FILE *, void *);
  int (*mix) (FILE *, void *, void *);
  int (*tup[6]) (FILE *, void *);
  char * (*save[6]) (void *);
  char * (*save_arr) (void *);
} pt_t;

#define PT_METHODS(F, ID, T) F (ID, T, CINIT, 0) F (ID, T, JSON, 1) F (ID, T, YAML, 2) F (ID, T, XML1, 3) F (ID, T, XML2, 4) F (ID, T, SCM, 5)
#define PT_TUP(ID, T, M, N) static int ptup_ ## ID ## N (FILE * f, void * p) { T * x = p; return (MR_FPRINT (f, (T, x, M))); } \
  static char * psave_ ## ID ## N (void * p) { T * x = p; return (MR_SAVE_ ## M (T, x)); }
#define PT_DEF(ID, T, MT, KIND)						\
  static int pval_ ## ID (FILE * f, void * p) { T x = *(T*)p; return (MR_FPRINT (f, x)); } \
  static int pptr_ ## ID (FILE * f, void * p) { T * x = p; return (MR_FPRINT (f, x)); } \
  static int parr_ ## ID (FILE * f, void * p) { T x[3]; memcpy (x, p, sizeof (x)); T (*y)[3] = p; (void)y; return (MR_FPRINT (f, *y)); } \
  static int pmix_ ## ID (FILE * f, void * p, void * q) { T x = *(T*)p; T * y = q; int i = 17; return (MR_FPRINT (f, "x = ", x, ", y = ", (T, y), i, "\n", (T, y, JSON), x)); } \
  static char * psavea_ ## ID (void * p) { T (*y)[3] = p; return (MR_SAVE_CINIT (T, *y)); } \
  PT_METHODS (PT_TUP, ID, T)						\
  static const pt_t pt_ ## ID = { #T, MT, KIND, sizeof (T), pval_ ## ID, pptr_ ## ID, parr_ ## ID, pmix_ ## ID, \
    { ptup_ ## ID ## 0, ptup_ ## ID ## 1, ptup_ ## ID ## 2, ptup_ ## ID ## 3, ptup_ ## ID ## 4, ptup_ ## ID ## 5 }, \
    { psave_ ## ID ## 0, psave_ ## ID ## 1, psave_ ## ID ## 2, psave_ ## ID ## 3, psave_ ## ID ## 4, psave_ ## ID ## 5 }, psavea_ ## ID };

PT_DEF (boolean, bool, &mt_bool, MK_BOOL)
PT_DEF (char, char, &mt_char, MK_CHAR)
PT_DEF (int8, int8_t, &mt_int8_t, MK_INT)
PT_DEF (uint8, uint8_t, &mt_uint8_t, MK_INT)
PT_DEF (short, short, &mt_short, MK_INT)
PT_DEF (ushort, unsigned short, &mt_ushort, MK_INT)
PT_DEF (int, int, &mt_int, MK_INT)
PT_DEF (uint, unsigned, &mt_unsigned, MK_INT)
PT_DEF (long, long, &mt_long, MK_INT)
PT_DEF (ulong, unsigned long, &mt_ulong, MK_INT)
PT_DEF (llong, long long, &mt_llong, MK_INT)
PT_DEF (ullong, unsigned long long, &mt_ullong, MK_INT)
PT_DEF (i128, mr_int128_t, &mt_int128, MK_INT)
PT_DEF (u128, mr_uint128_t, &mt_uint128, MK_INT)
PT_DEF (float, float, &mt_float, MK_FLOAT)
PT_DEF (double, double, &mt_double, MK_DOUBLE)
PT_DEF (ldouble, long double, &mt_ldouble, MK_LDOUBLE)
PT_DEF (cfloat, complex float, &mt_cfloat, MK_CFLOAT)
PT_DEF (cdouble, complex double, &mt_cdouble, MK_CDOUBLE)
PT_DEF (cldouble, complex long double, &mt_cldouble, MK_CLDOUBLE)
PT_DEF (string, string_t, &mt_string, MK_STRING)

static const pt_t * const pt[] = { &pt_int, &pt_boolean, &pt_char, &pt_int8, &pt_uint8, &pt_short, &pt_ushort, &pt_uint, &pt_long, &pt_ulong, &pt_llong, &pt_ullong,
  &pt_i128, &pt_u128, &pt_float, &pt_double, &pt_ldouble, &pt_cfloat, &pt_cdouble, &pt_cldouble, &pt_string };

/* expected text of a value */
static void
value_text (const pt_t * t, void * p, model_buf_t * m)
{
  char s[200];
  int n = 0;
  switch (t->kind)
    {
    case MK_BOOL: n = snprintf (s, sizeof (s), "%s", *(bool*)p ? "true" : "false"); break;
    case MK_CHAR: s[0] = *(char*)p; n = 1; break;
    case MK_INT: n = snprintf (s, sizeof (s), "%s", u128_str (cell_int (t->mt, p, p), t->mt->is_signed)); break;
    case MK_FLOAT: n = snprintf (s, sizeof (s), "%g", *(float*)p); break;
    case MK_DOUBLE: n = snprintf (s, sizeof (s), "%g", *(double*)p); break;
    case MK_LDOUBLE: n = snprintf (s, sizeof (s), "%Lg", *(long double*)p); break;
    case MK_CFLOAT: n = snprintf (s, sizeof (s), "%g%+gI", ((float*)p)[0], ((float*)p)[1]); break;
    case MK_CDOUBLE: n = snprintf (s, sizeof (s), "%g%+gI", ((double*)p)[0], ((double*)p)[1]); break;
    case MK_CLDOUBLE: n = snprintf (s, sizeof (s), "%Lg%+LgI", ((long double*)p)[0], ((long double*)p)[1]); break;
    default:
      if (*(char**)p)
	mb_add (m, *(char**)p, strlen (*(char**)p));
      else
	mb_add (m, "(null)", 6);
    }
  mb_add (m, s, n);
}

static void
saved_text (char * s, model_buf_t * m, int cut)
{
  PBT_CHECK (s && strlen (s) >= (size_t)cut, "save", "save fails");
  if (cut)
    PBT_CHECK (s[strlen (s) - 1] == '\n', "newline", "serialized text does not end with a new line: %s", s);
  mb_add (m, s, strlen (s) - cut);
  MR_FREE (s);
}

static void
p_print (void)
{
  case_begin ();
  gopt_t opt = gopt_default ();
  opt.no_nan = true;
  opt.str_mode = PBT_PICK (((int[]){ STR_ASCII, STR_ASCII | STR_SPECIAL, STR_UTF8 | STR_ASCII }));
  opt.str_max = 40;
  model_buf_t m = { 0 };
  char * out = NULL;
  size_t out_n = 0;
  FILE * f = open_memstream (&out, &out_n);
  int n = 1 + pbt_geom (12, 3, 4);
  marena_t arena = { 0 };
  uint64_t h = 0;
  for (int i = 0; i < n; ++i)
    {
      size_t before = m.n;
      int form = pbt_draw (11), rv;
      char what[100];
      const pt_t * t = PBT_PICK (pt);
      char * v = arena_alloc (&arena, 3 * t->size);
      for (int j = 0; j < 3; ++j)
	if (t->kind == MK_STRING)
	  *(char**)(v + j * t->size) = pbt_draw (8) ? gen_str (&arena, &opt, 40) : NULL;
	else
	  gen_value (t->mt, v + j * t->size, &opt);
      char head[100];
      switch (form)
	{
	default:
	  snprintf (what, sizeof (what), "value of type %s", t->name);
	  rv = t->val (f, v);
	  value_text (t, v, &m);
	  break;
	case 2:
	  if (t->kind == MK_CHAR)
	    continue; /* is a string */
	  snprintf (what, sizeof (what), "pointer to %s", t->name);
	  rv = t->ptr (f, v);
	  sprintf (head, "%p (", (void*)v);
	  mb_add (&m, head, strlen (head));
	  /* name of the type is up to the library, but it has to be a right one */
	  fflush (f);
	  char * name = out + m.n, * end = m.n < out_n ? strchr (name, ')') : NULL;
	  PBT_CHECK (end && end < out + out_n, "pointer-type", "%s: no type in %.100s", what, out + before);
	  mr_td_t * td;
	  *end = 0;
	  td = mr_get_td_by_name (name);
	  PBT_CHECK (td && td->size == t->size, "pointer-type", "%s is printed as a pointer to %s", what, name);
	  *end = ')';
	  mb_add (&m, name, end - name);
	  mb_add (&m, ")", 1);
	  saved_text (t->save[0] (v), &m, 1);
	  break;
	case 3:
	  if (t->kind == MK_CHAR)
	    continue;
	  snprintf (what, sizeof (what), "array of %s", t->name);
	  rv = t->arr (f, v);
	  sprintf (head, "%p (", (void*)v);
	  mb_add (&m, head, strlen (head));
	  fflush (f);
	  name = out + m.n, end = m.n < out_n ? strchr (name, ')') : NULL;
	  PBT_CHECK (end && end < out + out_n && end > name + 2 && end[-1] == ']', "array-type", "%s: no type in %.100s", what, out + before);
	  end[-2] = 0;
	  td = mr_get_td_by_name (name);
	  PBT_CHECK (td && td->size == t->size, "array-type", "%s is printed as an array of %s", what, name);
	  end[-2] = '[';
	  mb_add (&m, name, end - name);
	  mb_add (&m, ")", 1);
	  saved_text (t->save_arr (v), &m, 1);
	  break;
	case 4:
	  snprintf (what, sizeof (what), "several arguments of type %s", t->name);
	  rv = t->mix (f, v, v + t->size);
	  mb_add (&m, "x = ", 4);
	  value_text (t, v, &m);
	  mb_add (&m, ", y = ", 6);
	  saved_text (t->save[0] (v + t->size), &m, 0);
	  mb_add (&m, "17\n", 3);
	  saved_text (t->save[1] (v + t->size), &m, 0);
	  value_text (t, v, &m);
	  break;
	case 5:
	  {
	    int fmt = pbt_draw (6);
	    snprintf (what, sizeof (what), "serialized %s, format %d", t->name, fmt);
	    rv = t->tup[fmt] (f, v);
	    saved_text (t->save[fmt] (v), &m, 0);
	    break;
	  }
	case 6:
	  { /* void pointers, NULLs */
	    void * x = pbt_draw (3) ? v : NULL;
	    int * np = NULL;
	    const void * cx = x;
	    snprintf (what, sizeof (what), "untyped pointers");
	    rv = MR_FPRINT (f, x, " ", np, " ", cx);
	    if (x)
	      sprintf (head, "%p (null) %p", x, x);
	    else
	      sprintf (head, "(null) (null) (null)");
	    mb_add (&m, head, strlen (head));
	    break;
	  }
	case 7:
	  { /* values of enumerations by their type */
	    int e = PBT_PICK (((int[]){ PR_ZERO, PR_FIVE, PR_MINUS, PR_BIG, 1, -1, 4464, 65536 + 5 }));
	    snprintf (what, sizeof (what), "enumeration value %d", e);
	    rv = mr_print_value (f, MR_TYPE_INT32, MR_TYPE_NONE, MR_INTEGER_TYPE_CLASS, -1, "pr_enum_t", "CINIT", e);
	    switch (e)
	      {
	      case PR_ZERO: strcpy (head, "PR_ZERO"); break;
	      case PR_FIVE: strcpy (head, "PR_FIVE"); break;
	      case PR_MINUS: strcpy (head, "PR_MINUS"); break;
	      case PR_BIG: strcpy (head, "PR_BIG"); break;
	      default: sprintf (head, "%d", e);
	      }
	    mb_add (&m, head, strlen (head));
	    break;
	  }
	case 9:
	  { /* objects by address, any method */
	    static const struct { const char * name; int fmt; } meth[] = {
	      { "CINIT", 0 }, { "JSON", 1 }, { "YAML", 2 }, { "XML1", 3 }, { "XML2", 4 }, { "XML", 4 }, { "SCM", 5 }, { "UNKNOWN", -1 }, { "cinit", -1 }, { "XML3", -1 } };
	    int k = pbt_draw (10);
	    bool typed = pbt_draw (2), null = pbt_chance (1, 8), no_type = pbt_chance (1, 8);
	    char type[40], method[20];
	    strcpy (type, t->name);
	    strcpy (method, meth[k].name);
	    snprintf (what, sizeof (what), "%s at an address, method %s", t->name, method);
	    mr_td_t * td0 = mr_get_td_by_name (type);
	    if (!td0)
	      continue; /* C has no type name for it in one word */
	    rv = mr_print_value (f, MR_TYPE_NONE, pbt_draw (2) ? td0->mr_type : MR_TYPE_NONE, typed ? MR_POINTER_TYPE_CLASS : MR_RECORD_TYPE_CLASS, -1, no_type && meth[k].fmt < 0 ? NULL : type, method, null ? NULL : v);
	    if (null)
	      mb_add (&m, "(null)", 6);
	    else if (meth[k].fmt < 0)
	      {
		sprintf (head, "%p", (void*)v);
		mb_add (&m, head, strlen (head));
	      }
	    else
	      {
		if (typed)
		  {
		    sprintf (head, meth[k].fmt ? "%p " : "%p (%s)", (void*)v, type);
		    mb_add (&m, head, strlen (head));
		  }
		char * s = t->save[meth[k].fmt] (v);
		size_t l = s ? strlen (s) : 0;
		PBT_CHECK (l > 0, "save", "saving of %s fails", what);
		mb_add (&m, s, l - 1);
		MR_FREE (s);
	      }
	    break;
	  }
	case 10:
	  { /* words and numbers of the language */
	    static const char fixed[] = "a literal";
	    char arr[12] = "in array";
	    arr[pbt_draw (8)] = 0;
	    bool b = pbt_draw (2);
	    size_t z = gen_int (64, false);
	    snprintf (what, sizeof (what), "literals and arrays of characters");
	    rv = MR_FPRINT (f, "100%", fixed, arr, b, z, 3, -4L, 2.5, 'c' + 0, "%d%s");
	    size_t l = snprintf (NULL, 0, "100%%%s%s%s%zu3-42.5%d%%d%%s", fixed, arr, b ? "true" : "false", z, 'c' + 0);
	    char * x = malloc (l + 1);
	    snprintf (x, l + 1, "100%%%s%s%s%zu3-42.5%d%%d%%s", fixed, arr, b ? "true" : "false", z, 'c' + 0);
	    mb_add (&m, x, l);
	    free (x);
	    break;
	  }
	case 8:
	  { /* structures */
	    pr_struct_t s[2];
	    memset (s, 0, sizeof (s));
	    s[0].a = gen_int (32, true);
	    s[0].s = gen_str (&arena, &opt, 20);
	    s[0].d = gen_double (&opt);
	    s[0].e = PR_FIVE;
	    if (pbt_draw (2))
	      s[0].next = &s[pbt_draw (2)];
	    snprintf (what, sizeof (what), "structures");
	    pr_struct_t * ps = s;
	    rv = MR_FPRINT (f, "s = ", (pr_struct_t, ps), (pr_struct_t, &s[1], YAML), (pr_struct_t, ps, XML));
	    mb_add (&m, "s = ", 4);
	    saved_text (MR_SAVE_CINIT (pr_struct_t, ps), &m, 0);
	    saved_text (MR_SAVE_YAML (pr_struct_t, &s[1]), &m, 0);
	    saved_text (MR_SAVE_XML2 (pr_struct_t, ps), &m, 0);
	    break;
	  }
	}
      fflush (f);
      pbt_note ("%s\n", what);
      if (out_n != m.n || memcmp (out, m.p, m.n))
	pbt_fail ("text", "%s is printed as %.*s instead of %.*s", what, (int)(out_n - before), out + before, (int)(m.n - before), m.p + before);
      PBT_CHECK (rv == (int)(m.n - before), "count", "printing of %s returns %d instead of %zd", what, rv, m.n - before);
      h = pbt_hash (h + form, v, t->kind == MK_STRING ? 0 : t->size);
      pbt_label ("form %d", form);
    }
  fclose (f);
  free (out);
  if (n >= 2)
    pbt_nontrivial (pbt_hash (h, NULL, 0));
  free (m.p);
  check_no_leak ("leak", "printing");
  arena_free (&arena);
}

/* ---------------------------------------------------------------- messages */
static char *
format_by (mr_message_id_t id, ...)
{
  va_list args;
  va_start (args, id);
  char * s = mr_message_format (id, args);
  va_end (args);
  return (s);
}

static struct { int n, line, level, id; const char * file, * func; char text[4000]; bool bad; } handled;
static void
handler (const char * file, const char * func, int line, mr_log_level_t level, mr_message_id_t id, va_list args)
{
  ++handled.n;
  handled.file = file;
  handled.func = func;
  handled.line = line;
  handled.level = level;
  handled.id = id;
  char * s = mr_message_format (id, args);
  snprintf (handled.text, sizeof (handled.text), "%s", s ? s : "");
  if (s)
    MR_FREE (s);
}

static void
p_message (void)
{
  case_begin ();
  mr_td_t * td = mr_get_td_by_name ("mr_message_id_t");
  PBT_CHECK (td != NULL, "no-type", "messages have no type");
  long id = pbt_chance (1, 4) ? PBT_PICK (((long[]){ MR_MESSAGE_LAST, MR_MESSAGE_LAST + 1, MR_MESSAGE_LAST + 2, 1000, 0x7fffffff })) : (long)pbt_draw (MR_MESSAGE_LAST);
  const char * format = NULL;
  for (int i = 0; td->param.enum_param.enums[i]; ++i)
    if (td->param.enum_param.enums[i]->value._unsigned == (uint64_t)id)
      format = td->param.enum_param.enums[i]->meta;
  if (!format)
    format = "Unknown MR_MESSAGE_ID.";
  /* every argument is good both as a number and as a string */
  char * a[6];
  size_t total = 0;
  for (int i = 0; i < 6; ++i)
    {
      size_t n = pbt_draw (4) ? pbt_draw (30) : gen_size ();
      a[i] = gen_text (n, pbt_draw (2));
      total += n;
    }
  char * want;
  PBT_CHECK (0 <= asprintf (&want, format, a[0], a[1], a[2], a[3], a[4], a[5]), "harness", "asprintf");
  char * got = format_by (id, a[0], a[1], a[2], a[3], a[4], a[5]);
  pbt_note ("message %ld: %.200s\n", id, want);
  PBT_CHECK (got && 0 == strcmp (got, want), "message", "message %ld is %.300s instead of %.300s", id, got ? got : "NULL", want);
  if (got)
    MR_FREE (got);
  check_no_leak ("message-leak", "format of a message");
  /* a message goes to the handler, or to standard error if its level is high enough */
  static const char * const ln[] = { "ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL" };
  int level = pbt_chance (1, 12) ? PBT_PICK (((int[]){ MR_LL_OFF, MR_LL_OFF + 1, MR_LL_OFF + 2, 50 })) : (int)pbt_range (MR_LL_INFO, MR_LL_FATAL), limit = pbt_range (MR_LL_ALL, MR_LL_OFF), line = pbt_draw (100000);
  char * err = NULL;
  size_t err_n = 0;
  FILE * real = stderr, * f = open_memstream (&err, &err_n);
  mr_log_level_t old = mr_conf.log_level;
  typeof (mr_conf.msg_handler) old_h = mr_conf.msg_handler;
  bool h = pbt_draw (3) == 2;
  memset (&handled, 0, sizeof (handled));
  mr_conf.msg_handler = h ? handler : NULL;
  mr_conf.log_level = limit;
  stderr = f;
  mr_message ("some/file.c", "some_func", line, level, id, a[0], a[1], a[2], a[3], a[4], a[5]);
  stderr = real;
  mr_conf.log_level = old;
  mr_conf.msg_handler = old_h;
  fclose (f);
  if (h)
    {
      PBT_CHECK (handled.n == 1 && handled.line == line && handled.level == level && handled.id == id && !strcmp (handled.file, "some/file.c") && !strcmp (handled.func, "some_func"), "handler", "handler is called %d times with line %d, level %d, message %d instead of %d, %d, %ld", handled.n, handled.line, handled.level, handled.id, line, level, id);
      PBT_CHECK (0 == strncmp (handled.text, want, sizeof (handled.text) - 1), "handler-text", "handler gets %.300s instead of %.300s", handled.text, want);
      PBT_CHECK (err_n == 0, "handler-stderr", "message is printed despite of the handler: %.200s", err);
    }
  else if (level < limit)
    PBT_CHECK (err_n == 0, "filtered", "message of level %d is printed with limit %d: %.200s", level, limit, err);
  else
    {
      char loc[100];
      PBT_CHECK (err_n > 0 && err[err_n - 1] == '\n', "no-message", "message of level %d is not printed with limit %d", level, limit);
      snprintf (loc, sizeof (loc), "%d", line);
      PBT_CHECK (strstr (err, want) && strstr (err, "some/file.c") && strstr (err, "some_func") && strstr (err, loc) && (level >= MR_LL_OFF || strstr (err, ln[level])), "message-text", "message of level %d is printed as %.300s instead of %.300s", level, err, want);
    }
  pbt_label ("%s", h ? "handler" : level < limit ? "filtered" : "printed");
  free (err);
  free (want);
  uint64_t hash = id * 7 + h * 3 + (level < limit);
  for (int i = 0; i < 6; ++i)
    {
      hash = pbt_hash (hash, a[i], strlen (a[i]));
      free (a[i]);
    }
  if (total >= 6)
    pbt_nontrivial (hash);
  check_no_leak ("message-leak", "a message");
}

/* ---------------------------------------------------------------- documents of a stream */
static void
put (model_buf_t * m, const char * s)
{
  mb_add (m, s, strlen (s));
}

static void
put_space (model_buf_t * m, int max)
{
  for (int n = pbt_draw (4) ? 0 : pbt_draw (pbt_draw (10) ? 4 : max); n > 0; --n)
    mb_add (m, &" \n\t\r"[pbt_draw (4)], 1);
}

static void
put_chars (model_buf_t * m, size_t max)
{
  static const char * const c[] = { "a", "/", "?", "!", "-", "=", "&lt;", "&gt;", "&amp;", "&#x1;", " ", "\n", "0", "xml", "'", ";", "\xc3\xa9", "]]", "/ ", "?", ":" };
  size_t n = pbt_draw (max + 1);
  if (n > 200)
    { /* long ones repeat */
      const char * s = PBT_PICK (c);
      size_t end = m->n + n;
      while (m->n < end)
	put (m, s);
    }
  else
    for (; n > 0; --n)
      put (m, PBT_PICK (c));
}

static void
put_name (model_buf_t * m)
{
  static const char * const c[] = { "a", "root", "int", "x-1", "_b", "tree_node_t", "a.b" };
  put (m, PBT_PICK (c));
}

static int
put_element (model_buf_t * m, int depth, int * budget, size_t text_max)
{
  char name[40];
  size_t at;
  int nodes = 1;
  --*budget;
  put (m, "<");
  at = m->n;
  put_name (m);
  snprintf (name, sizeof (name), "%.*s", (int)(m->n - at), m->p + at);
  for (int n = pbt_geom (3, 1, 3); n > 0; --n)
    {
      put (m, pbt_draw (3) ? " " : "\n  ");
      put_name (m);
      put (m, "=\"");
      put_chars (m, 8);
      put (m, "\"");
    }
  put_space (m, 10);
  if (pbt_chance (1, 4))
    {
      put (m, "/>");
      return (nodes);
    }
  put (m, ">");
  do
    {
      if (pbt_draw (2))
	put_chars (m, pbt_draw (8) ? 10 : text_max);
      if (depth > 0 && *budget > 0 && pbt_draw (2))
	nodes += put_element (m, depth - 1, budget, text_max);
    }
  while (*budget > 0 && pbt_chance (1, 2));
  put (m, "</");
  put (m, name);
  if (pbt_chance (1, 8))
    put_space (m, 10);
  put (m, ">");
  return (nodes);
}

static void
p_stream (void)
{
  case_begin ();
  model_buf_t m = { 0 };
  int docs = 1 + pbt_geom (5, 2, 3);
  size_t end[8], start[8];
  int nodes = 0;
  size_t text_max = pbt_draw (3) ? 60 : 5000;
  const mops_t * own[8] = { NULL };
  mgraph_t g[8];
  gopt_t opt = pick_opt ();
  opt.str_mode = STR_ASCII | STR_SPECIAL;
  opt.no_nan = opt.no_funcs = true;
  for (int i = 0; i < docs; ++i)
    {
      start[i] = m.n;
      put_space (&m, 5000);
      if (pbt_chance (1, 3))
	{ /* as the library writes them */
	  const mops_t * o = own[i] = pick_root ();
	  graph_gen (&g[i], o->mt, &opt);
	  mbuf_t b = o->save (pbt_draw (2) ? F_XML1 : F_XML2, g[i].root);
	  if (!b.ptr)
	    pbt_reject ();
	  size_t n = b.size;
	  while (n > 0 && b.ptr[n - 1] != '>')
	    --n; /* a new line at the end belongs to what follows */
	  mb_add (&m, b.ptr, n);
	  end[i] = m.n;
	  mb_add (&m, b.ptr + n, b.size - n);
	  buf_free (&b);
	  ++nodes;
	}
      else
	{
	  put (&m, pbt_draw (2) ? "<?xml version=\"1.0\"?>" : "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>");
	  put_space (&m, 60);
	  int budget = 1 + pbt_draw (15);
	  nodes += put_element (&m, 6, &budget, text_max);
	  end[i] = m.n;
	}
    }
  int broken = pbt_chance (1, 3) ? 1 + pbt_draw (5) : 0;
  size_t cut = 0;
  if (broken == 1 || broken == 2)
    { /* ends inside of the last document */
      cut = start[docs - 1] + pbt_draw (end[docs - 1] - start[docs - 1]);
      m.n = cut;
    }
  else if (broken == 3)
    { /* something else follows */
      m.n = end[docs - 1];
      put_space (&m, 50);
      put (&m, PBT_PICK (((const char *[]){ "x", "</a>", "/>", ">", "&", "<a/></b>", "</a><b/>" })));
      put_chars (&m, 10);
    }
  else if (broken == 4)
    { /* zero byte */
      cut = start[docs - 1] + pbt_draw (end[docs - 1] - start[docs - 1]);
      m.p[cut] = 0;
    }
  else if (broken == 5)
    { /* any damage */
      int k = 1 + pbt_draw (4);
      for (int i = 0; i < k; ++i)
	m.p[pbt_draw (m.n)] = "<>/?&\"a \0\xff"[pbt_draw (10)];
    }
  pbt_note_bytes ("stream", m.p, m.n);
  /* different kinds of streams */
  char * copy = malloc (m.n + 1);
  memcpy (copy, m.p, m.n);
  FILE * f;
  if (m.n == 0)
    f = fopen ("/dev/null", "r");
  else
    f = fmemopen (copy, m.n, "r");
  if (!f)
    pbt_fail ("harness", "fmemopen");
  if (pbt_draw (2))
    setvbuf (f, NULL, pbt_draw (2) ? _IONBF : _IOFBF, PBT_PICK (((size_t[]){ 1, 7, 64, 4096 })));
  int got = 0;
  size_t pos = 0;
  for (int i = 0; i < docs + 3; ++i)
    {
      char * s = mr_read_xml_doc (f);
      if (!s)
	{
	  PBT_CHECK (mem_live () == 0, "leak", "%zu blocks are left after a failed read: %s", mem_live (), mem_describe_live ());
	  break;
	}
      size_t n = strlen (s), size = 0;
      PBT_CHECK (mem_block_of (s, &size) == s && size > n, "block", "document is not a block of the library");
      PBT_CHECK (pos + n <= m.n && 0 == memcmp (s, m.p + pos, n), "content", "document %d of %zu bytes is not a part of the stream at %zu: %.300s", i, n, pos, s);
      if (broken != 5)
	{
	  PBT_CHECK (i < docs, "extra", "stream of %d documents gives one more: %.200s", docs, s);
	  PBT_CHECK (pos + n == end[i], "extent", "document %d ends at %zu instead of %zu", i, pos + n, end[i]);
	}
      if (broken != 5 && own[i])
	{ /* the text gives the object back */
	  void * d = obj_alloc (own[i]->mt, 0x5a);
	  mbuf_t b = { s, n, n + 1 };
	  mfmt_t l = F_XML2;
	  if (own[i]->load (l, &b, d))
	    {
	      meq_t eq = { .text = true, .dup_ok = true };
	      if (!graph_ctrl_chars (&g[i]) && !graph_high_bytes (&g[i]) && !graph_inside_out (&g[i]) && !graph_prefix_overlap (&g[i], true))
		PBT_CHECK (model_eq (own[i]->mt, g[i].root, d, &eq), "object", "object %d differs: %s", i, eq.why);
	      own[i]->free (d);
	    }
	  free (d);
	}
      MR_FREE (s);
      PBT_CHECK (mem_live () == 0, "leak", "%zu blocks are left after a read: %s", mem_live (), mem_describe_live ());
      pos += n;
      ++got;
      /* nothing behind the document is taken */
      if (pos < m.n)
	{
	  int c = fgetc (f);
	  PBT_CHECK (c == (unsigned char)m.p[pos], "next", "character %d follows document %d instead of %d", c, i, (unsigned char)m.p[pos]);
	  ungetc (c, f);
	}
      else
	PBT_CHECK (fgetc (f) == EOF, "next", "document %d does not take the end", i);
    }
  if (broken != 5)
    PBT_CHECK (got == docs - (broken == 1 || broken == 2 || broken == 4), "lost", "%d documents of %d are read", got, docs);
  fclose (f);
  free (copy);
  for (int i = 0; i < docs; ++i)
    if (own[i])
      graph_free (&g[i]);
  pbt_label ("%s", broken == 0 ? "documents" : broken < 3 ? "truncated" : broken == 3 ? "followed by other data" : broken == 4 ? "zero byte" : "damaged");
  pbt_label ("%s", m.n < 2000 ? "under 2000 bytes" : m.n < 10000 ? "2000-10000 bytes" : "over 10000 bytes");
  if (nodes >= 3)
    pbt_nontrivial (pbt_hash (broken, m.p, m.n));
  free (m.p);
}

static const pbt_prop_t props[] = {
  { "P18-buffers", p_buffer },
  { "P18-dup", p_dup },
  { "P24-void", p_void },
  { "P05-context", p_context },
  { "P03-stream", p_xdr_stream },
  { "P03-opaque", p_opaque },
  { "known-opaque", p_known_opaque },
  { "known-opaque-copy", p_known_opaque_copy },
  { "known-opaque-cmp", p_known_opaque_cmp },
  { "P17-functions", p_functions },
  { "P18-print", p_print },
  { "P18-messages", p_message },
  { "P21", p_stream },
  { NULL, NULL },
};

int
main (int argc, char * argv[])
{
  return (pbt_main (argc, argv, props));
}
