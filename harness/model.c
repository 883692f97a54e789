#define _GNU_SOURCE
#include "model.h"
#include "pbt.h"
#include <metaresc.h>
#include <complex.h>
#include <float.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

const char * const fmt_name[F_LAST] = { "XDR", "CINIT", "JSON", "YAML", "XML1", "XML2", "SCM" };

#define BASIC(ID, KIND, TYPE, ...) const mt_t mt_##ID = { .kind = KIND, .name = #ID, .size = sizeof (TYPE), .bits = 8 * sizeof (TYPE), __VA_ARGS__ }
#define INTEGER(ID, TYPE) BASIC (ID, MK_INT, TYPE, .is_signed = ((TYPE)-1 < 0))
BASIC (bool, MK_BOOL, bool);
BASIC (char, MK_CHAR, char, .is_signed = true);
BASIC (string, MK_STRING, char *);
BASIC (charptr, MK_STRING, char *);
INTEGER (int8_t, int8_t); INTEGER (uint8_t, uint8_t); INTEGER (int16_t, int16_t); INTEGER (uint16_t, uint16_t);
INTEGER (int32_t, int32_t); INTEGER (uint32_t, uint32_t); INTEGER (int64_t, int64_t); INTEGER (uint64_t, uint64_t);
INTEGER (int128, i128); INTEGER (uint128, u128); INTEGER (schar, signed char); INTEGER (uchar, unsigned char);
INTEGER (short, short); INTEGER (ushort, unsigned short); INTEGER (int, int); INTEGER (unsigned, unsigned); INTEGER (uint, unsigned int);
INTEGER (long, long); INTEGER (ulong, unsigned long); INTEGER (llong, long long); INTEGER (ullong, unsigned long long);
INTEGER (size_t, size_t); INTEGER (ssize_t, ssize_t);
BASIC (float, MK_FLOAT, float); BASIC (double, MK_DOUBLE, double); BASIC (ldouble, MK_LDOUBLE, long double);
BASIC (cfloat, MK_CFLOAT, complex float); BASIC (cdouble, MK_CDOUBLE, complex double); BASIC (cldouble, MK_CLDOUBLE, complex long double);
BASIC (func, MK_FUNC, void *); BASIC (voidptr, MK_VOIDPTR, void *); BASIC (tptr, MK_TPTR, void *);

/* types for typed pointers */
#include "schema_names.h"

/* functions for function pointers */
int pbt_fn_a (int x) { return (x); }
int pbt_fn_b (int x) { return (x + 1); }
void pbt_function_with_a_long_name_0123456789 (void) { }
static void * const funcs[] = { pbt_fn_a, pbt_fn_b, pbt_function_with_a_long_name_0123456789, arena_alloc };

size_t
msize (const mt_t * mt)
{
  return (mt->kind == MK_ARRAY ? mt->count * msize (mt->elem) : mt->size);
}

bool
kind_is_leaf (mk_t k)
{
  return (k != MK_STRUCT && k != MK_UNION && k != MK_ARRAY && k != MK_PTR && k != MK_TPTR && k != MK_VOIDPTR);
}

/* ------------------------------------------------------------------ arena */
void *
arena_alloc (marena_t * a, size_t size)
{
  if (a->n == a->alloc)
    {
      a->alloc = a->alloc ? 2 * a->alloc : 64;
      a->b = realloc (a->b, a->alloc * sizeof (a->b[0]));
    }
  char * p = malloc (size);
  if (size)
    memset (p, 0, size);
  a->b[a->n++] = (mblock_t){ p, size, NULL };
  return (p);
}

void
arena_free (marena_t * a)
{
  for (int i = 0; i < a->n; ++i)
    {
      free (a->b[i].ptr);
      free (a->b[i].copy);
    }
  free (a->b);
  memset (a, 0, sizeof (*a));
}

void
arena_snapshot (marena_t * a)
{
  for (int i = 0; i < a->n; ++i)
    {
      free (a->b[i].copy);
      a->b[i].copy = malloc (a->b[i].size + 1);
      memcpy (a->b[i].copy, a->b[i].ptr, a->b[i].size);
    }
}

int
arena_changed (const marena_t * a)
{
  for (int i = 0; i < a->n; ++i)
    if (a->b[i].copy && memcmp (a->b[i].copy, a->b[i].ptr, a->b[i].size))
      return (i);
  return (-1);
}

mblock_t *
arena_find (const marena_t * a, const void * p)
{
  for (int i = a->n - 1; i >= 0; --i)
    if ((const char *)p >= a->b[i].ptr && (const char *)p < a->b[i].ptr + a->b[i].size)
      return (&a->b[i]);
  for (int i = a->n - 1; i >= 0; --i)
    if (p == a->b[i].ptr)
      return (&a->b[i]);
  return (NULL);
}

/* ------------------------------------------------------------------ reading integers */
u128
cell_int (const mt_t * mt, const void * addr, const void * base)
{
  if (mt->kind == MK_BITF)
    return (mt->get (base));
  u128 x = 0;
  memcpy (&x, addr, mt->size);
  if (mt->kind == MK_BOOL)
    return (!!*(const uint8_t *)addr);
  if (mt->is_signed && mt->size < sizeof (x) && ((x >> (8 * mt->size - 1)) & 1))
    x |= ~(u128)0 << (8 * mt->size);
  return (x);
}

static void
cell_set_int (const mt_t * mt, void * addr, void * base, u128 x)
{
  if (mt->kind == MK_BITF)
    mt->set (base, x);
  else if (mt->kind == MK_BOOL)
    *(bool *)addr = !!x;
  else
    memcpy (addr, &x, mt->size);
}

const char *
u128_str (u128 x, bool is_signed)
{
  static char bufs[4][64];
  static int k;
  char * buf = bufs[k++ & 3], * p = &buf[63];
  bool neg = is_signed && ((i128)x < 0);
  if (neg)
    x = -x;
  *p = 0;
  do
    *--p = '0' + (int)(x % 10);
  while (x /= 10);
  if (neg)
    *--p = '-';
  return (p);
}

i128
size_value (const mt_t * st, const void * base, int size_field)
{
  const mf_t * f = &st->f[size_field - 1];
  const mt_t * t = f->type;
  const void * addr = (const char *)base + f->offset;
  if (t->kind == MK_PTR)
    {
      addr = *(void * const *)addr;
      t = t->elem;
      if (!addr)
	return (0);
    }
  return ((i128)cell_int (t, addr, base));
}

/* ------------------------------------------------------------------ union branches */
typedef struct frame_t { const mt_t * st; char * base; const struct frame_t * up; } frame_t;

const mf_t *
model_branch_simple (const mt_t * ut, const char * name)
{
  for (int i = 0; i < ut->nf; ++i)
    if (name && name[0] && !strcmp (ut->f[i].name, name))
      return (&ut->f[i]);
  return (&ut->f[0]);
}

static const mf_t *
branch_by_int (const mt_t * ut, const mo_t * ov, u128 v)
{
  for (const mo_t * o = ov; o && o->branch; ++o)
    if ((uint64_t)o->value == (uint64_t)v && ((uint64_t)v == v || (u128)(i128)(int64_t)v == v))
      return (model_branch_simple (ut, o->branch));
  return (v < (u128)ut->nf ? &ut->f[v] : &ut->f[0]);
}

static const mf_t *
branch_by_enum (const mt_t * ut, const mo_t * ov, const mt_t * et, u128 v)
{
  for (const mo_t * o = ov; o && o->branch; ++o)
    if ((uint64_t)o->value == (uint64_t)v && ((uint64_t)v == v || (u128)(i128)(int64_t)v == v))
      return (model_branch_simple (ut, o->branch));
  for (int i = 0; i < et->nev; ++i)
    {
      u128 e = (u128)(i128)et->ev[i].value;
      if (!et->is_signed)
	e = (uint64_t)e;
      if (e == v)
	return (model_branch_simple (ut, et->ev[i].meta));
    }
  return (&ut->f[0]);
}

static const mf_t *
branch_by_cell (const mt_t * ut, const mo_t * ov, const mt_t * t, char * addr, char * base)
{
  switch (t->kind)
    {
    case MK_BOOL: case MK_INT:
      return (branch_by_int (ut, ov, cell_int (t, addr, base)));
    case MK_BITF:
      if (t->elem->kind == MK_ENUM)
	return (branch_by_enum (ut, ov, t->elem, t->get (base)));
      return (branch_by_int (ut, ov, t->get (base)));
    case MK_ENUM:
      return (branch_by_enum (ut, ov, t, cell_int (t, addr, base)));
    case MK_STRING:
      return (model_branch_simple (ut, *(char **)addr));
    case MK_CHARARR:
      {
	char buf[t->count + 1];
	memcpy (buf, addr, t->count);
	buf[t->count] = 0;
	return (model_branch_simple (ut, buf));
      }
    case MK_STRUCT: case MK_UNION:
      return (t->nf ? branch_by_cell (ut, ov, t->f[0].type, addr + t->f[0].offset, addr) : &ut->f[0]);
    case MK_ARRAY:
      return (t->count ? branch_by_cell (ut, ov, t->elem, addr, base) : &ut->f[0]);
    case MK_PTR:
      return (*(char **)addr ? branch_by_cell (ut, ov, t->elem, *(char **)addr, *(char **)addr) : &ut->f[0]);
    default:
      return (&ut->f[0]);
    }
}

static const mf_t *
union_branch (const mf_t * mf, const mt_t * ut, const frame_t * fr)
{
  if (mf && mf->discr && mf->discr[0])
    for (; fr; fr = fr->up)
      for (int i = 0; i < fr->st->nf; ++i)
	if (!(fr->st->f[i].flags & MF_VOID) && !strcmp (fr->st->f[i].name, mf->discr))
	  return (branch_by_cell (ut, mf->overrides, fr->st->f[i].type, fr->base + fr->st->f[i].offset, fr->base));
  return (&ut->f[0]);
}

static const mt_t *
tptr_type (const mf_t * mf, const frame_t * fr)
{
  if (mf && mf->discr && mf->discr[0])
    for (; fr; fr = fr->up)
      for (int i = 0; i < fr->st->nf; ++i)
	if (!strcmp (fr->st->f[i].name, mf->discr) && fr->st->f[i].type->kind == MK_STRING)
	  {
	    const char * name = *(char **)(fr->base + fr->st->f[i].offset);
	    for (int j = 0; name && tptr_types[j]; ++j)
	      if (!strcmp (tptr_types[j]->name, name))
		return (tptr_types[j]);
	    return (NULL);
	  }
  return (NULL);
}

/* ------------------------------------------------------------------ value generators */
u128
gen_int (int bits, bool is_signed)
{
  u128 mask = bits >= 128 ? ~(u128)0 : (((u128)1 << bits) - 1), x;
  switch (pbt_draw (8))
    {
    case 0: x = pbt_draw (4); break;
    case 1: x = pbt_draw (256); break;
    case 2: x = -(u128)(1 + pbt_draw (3)); break;
    case 3: x = mask >> 1; x += pbt_draw (3) - 1; break;           /* max signed, min signed */
    case 4: { int s = pbt_draw (bits); x = (u128)1 << s; x += pbt_draw (3) - 1; break; }
    case 5: x = ((u128)pbt_draw (0) << 64) | pbt_draw (0); break;
    case 6: { x = ((u128)pbt_draw (0) << 64) | pbt_draw (0); int s = pbt_draw (128); x >>= s; break; }
    default: x = 1; { int n = pbt_draw (39); while (n--) x *= 10; } x += pbt_draw (3) - 1; break; /* around powers of ten */
    }
  x &= mask;
  if (is_signed && bits < 128 && (x >> (bits - 1)))
    x |= ~mask;
  return (x);
}

static u128
narrow (const gopt_t * opt, const mt_t * it, u128 x)
{ /* within 64 bits if only those are wanted */
  if (!opt->no_wide || it->bits != 128)
    return (x);
  return (it->is_signed ? (u128)(i128)(int64_t)x : (u128)(uint64_t)x);
}

static u128
gen_enum (const mt_t * et, const gopt_t * opt, int bits)
{
  u128 x = 0, mask = bits >= 128 ? ~(u128)0 : (((u128)1 << bits) - 1);
  unsigned how = pbt_draw (opt->enum_known ? 1 : 6);
  if (how <= 2)
    x = (u128)(i128)et->ev[pbt_draw (et->nev)].value;
  else if (how <= 4)
    {
      int n = 1 + pbt_draw (4);
      while (n--)
	x |= (u128)(i128)et->ev[pbt_draw (et->nev)].value;
    }
  else
    x = gen_int (bits, et->is_signed);
  x &= mask;
  if (et->is_signed && bits < 128 && (x >> (bits - 1)))
    x |= ~mask;
  return (x);
}

double
gen_double (const gopt_t * opt)
{
  static const double special[] = { 0, 1, -1, 0.5, 0.1, -0.0, 1e10, 1e-10, 1e100, 1e308, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324,
    3.4028234663852886e38, 1.17549435e-38, 1.4e-45, 1e15, 1e16, 1e17, 123456789012345678.0, 1.0000000000000002, 0.3333333333333333, 3.141592653589793, 1e22, 1e23 };
  union { double d; uint64_t u; } x;
  switch (pbt_draw (6))
    {
    case 0: return ((double)pbt_range (0, 20));
    case 1: return (special[pbt_draw (sizeof (special) / sizeof (special[0]))]);
    case 2: return (-special[pbt_draw (sizeof (special) / sizeof (special[0]))]);
    case 3:
      switch (pbt_draw (4))
	{
	case 0: if (!opt->no_inf) return (INFINITY); break;
	case 1: if (!opt->no_inf) return (-INFINITY); break;
	case 2: if (!opt->no_nan) return (NAN); break;
	}
      return (-1.5);
    case 4: return ((double)pbt_range (-1000000, 1000000) / 1000);
    default:
      x.u = pbt_draw (0);
      if (isnan (x.d))
	return (opt->no_nan ? 2.5 : NAN);
      if (isinf (x.d))
	return (opt->no_inf ? 3.5 : x.d);
      return (x.d);
    }
}

static long double
gen_ldouble (const gopt_t * opt)
{
  long double x = gen_double (opt);
  switch (pbt_draw (4))
    {
    case 1: return (x * (1 + LDBL_EPSILON * (long double)pbt_draw (1 << 20)));
    case 2: { long double y = pbt_draw (0); return (ldexpl (y, pbt_range (-200, 200))); }
    case 3: { static const long double sp[] = { LDBL_MAX, LDBL_MIN, LDBL_EPSILON, -LDBL_MAX, 1.0L / 3, 1e4000L, 1e-4000L }; return (PBT_PICK (sp)); }
    default: return (x);
    }
}

int
gen_char (const gopt_t * opt)
{
  static const char special[] = "\"'\\<>&?%:#-{}[](),;=|!*@`~ \t.0123456789x_/+";
  static const unsigned char ctrl[] = { '\n', '\t', '\r', 1, 2, 7, 8, 0x0b, 0x0c, 0x1b, 0x1f, 0x7f };
  unsigned modes[5], n = 0;
  for (unsigned m = STR_ASCII; m <= STR_BYTES; m <<= 1)
    if (opt->str_mode & m)
      modes[n++] = m;
  switch (n ? modes[pbt_draw (n)] : STR_ASCII)
    {
    case STR_SPECIAL: return (special[pbt_draw (sizeof (special) - 1)]);
    case STR_UTF8: return (0x100);
    case STR_CTRL: return (ctrl[pbt_draw (sizeof (ctrl))]);
    case STR_BYTES: return (1 + pbt_draw (255));
    default: return (pbt_chance (1, 4) ? 0x20 + (int)pbt_draw (0x5f) : 'a' + (int)pbt_draw (26));
    }
}

static int
put_utf8 (char * dst, size_t room)
{
  static const uint32_t cps[] = { 0xe9, 0x80, 0xa0, 0x7ff, 0x800, 0x20ac, 0x3042, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff, 0x85, 0x2028, 0xfeff };
  uint32_t c = pbt_chance (1, 3) ? 0xa1 + (uint32_t)pbt_draw (0x10000) : PBT_PICK (cps);
  char b[4];
  int n;
  if ((c & 0xfffe) == 0xfffe || (c >= 0xd800 && c < 0xe000))
    c = 0xe9;
  if (c < 0x800) { b[0] = 0xc0 | (c >> 6); b[1] = 0x80 | (c & 0x3f); n = 2; }
  else if (c < 0x10000) { b[0] = 0xe0 | (c >> 12); b[1] = 0x80 | ((c >> 6) & 0x3f); b[2] = 0x80 | (c & 0x3f); n = 3; }
  else { b[0] = 0xf0 | (c >> 18); b[1] = 0x80 | ((c >> 12) & 0x3f); b[2] = 0x80 | ((c >> 6) & 0x3f); b[3] = 0x80 | (c & 0x3f); n = 4; }
  if ((size_t)n > room)
    {
      if (room)
	dst[0] = 'u';
      return (room ? 1 : 0);
    }
  memcpy (dst, b, n);
  return (n);
}

size_t
gen_chars (char * dst, size_t max_len, const gopt_t * opt)
{
  static const char * const words[] = { "", "a", "null", "~", "true", "false", "yes", "NULL", "nan", "0", "0x1F", "-1", "1.5", " lead", "trail ", "- item", "key: value", "# comment",
    "&amp;", "&lt;", "]]>", "<![CDATA[", "<!-- c -->", "\\n", "\\", "\\\\", "\"", "''", "\"quoted\"", "{", "}", "[", "]", "%s%d", "%%", "? q", "? ", "!tag", "*ref", "&ref",
    "|", ">", "@", "`", "a\nb", "a\n", "\n", "\n\n", " ", "  ", "\t", "---", "...", "\\x41", "\\101", "\\u0041", "&#65;", "&#x41;", "#f", "#t", "nil", "(", ")", ";c", "#\\a", "/*c*/", "//c",
    "{a: 1}", "[1, 2]", "key:", ": v", "a #b", "%YAML", "=", "<<", "ref=\"1\"", "</a>", "<a/>", "1e5", "1_000", "0b1", "0o7", "2020-01-01", "abc\\", "a\\\nb", "a'b", "a\"b", "\r\n", "\r", "  x", "x  ", "a  b", "\ta", "a\t", "true ", "0." };
  size_t len = 0;
  if (pbt_chance (1, 4) && (opt->str_mode & STR_SPECIAL))
    {
      const char * w = PBT_PICK (words);
      len = strlen (w);
      bool ok = len <= max_len;
      for (size_t i = 0; i < len; ++i)
	if ((unsigned char)w[i] < ' ' && !(opt->str_mode & STR_CTRL))
	  ok = false;
      if (!ok)
	len = 0;
      memcpy (dst, w, len);
      if (pbt_chance (3, 4))
	return (len);
    }
  size_t n = pbt_chance (1, 12) ? pbt_draw (max_len + 1) : pbt_draw ((max_len < 12 ? max_len : 12) + 1);
  while (n-- && len < max_len)
    {
      int c = gen_char (opt);
      if (c == 0x100)
	len += put_utf8 (&dst[len], max_len - len);
      else
	dst[len++] = c;
    }
  return (len);
}

char *
gen_str (marena_t * a, const gopt_t * opt, size_t max_len)
{
  char buf[max_len + 1];
  size_t len = gen_chars (buf, max_len, opt);
  char * s = arena_alloc (a, len + 1);
  memcpy (s, buf, len);
  s[len] = 0;
  return (s);
}

void
gen_value (const mt_t * mt, void * addr, const gopt_t * opt)
{
  switch (mt->kind)
    {
    case MK_BOOL: *(bool *)addr = pbt_draw (2); break;
    case MK_CHAR:
      {
	int c = pbt_chance (1, 6) ? 0 : gen_char (opt);
	*(char *)addr = c == 0x100 ? 'u' : c;
	break;
      }
    case MK_INT: { u128 x = opt->small ? pbt_draw (4) : narrow (opt, mt, gen_int (mt->bits, mt->is_signed)); memcpy (addr, &x, mt->size); break; }
    case MK_ENUM: { u128 x = gen_enum (mt, opt, mt->bits); memcpy (addr, &x, mt->size); break; }
    case MK_FLOAT: { float x = gen_double (opt); if (isinf (x) && opt->no_inf) x = 1; *(float *)addr = x; break; }
    case MK_DOUBLE: { double x = gen_double (opt); memcpy (addr, &x, sizeof (x)); break; }
    case MK_LDOUBLE: { long double x = gen_ldouble (opt); memset (addr, 0, sizeof (x)); memcpy (addr, &x, 10); break; }
    case MK_CFLOAT: { float x = gen_double (opt), y = gen_double (opt); if (isinf (x) && opt->no_inf) x = 1; if (isinf (y) && opt->no_inf) y = 1; memcpy (addr, &x, 4); memcpy ((char *)addr + 4, &y, 4); break; }
    case MK_CDOUBLE: { double x = gen_double (opt), y = gen_double (opt); memcpy (addr, &x, 8); memcpy ((char *)addr + 8, &y, 8); break; }
    case MK_CLDOUBLE: { long double x = gen_ldouble (opt), y = gen_ldouble (opt); memset (addr, 0, 32); memcpy (addr, &x, 10); memcpy ((char *)addr + 16, &y, 10); break; }
    case MK_FUNC: { void * f = (opt->no_funcs || pbt_chance (1, 3)) ? NULL : PBT_PICK (funcs); memcpy (addr, &f, sizeof (f)); break; }
    case MK_CHARARR:
      {
	size_t max = mt->count - ((opt->no_full_chararr || !pbt_chance (1, 4)) ? 1 : 0);
	size_t len = gen_chars (addr, max, opt);
	if (len < mt->count)
	  ((char *)addr)[len] = 0;
	break;
      }
    default: abort ();
    }
}

/* ------------------------------------------------------------------ graph generator */
gopt_t
gopt_default (void)
{
  return ((gopt_t){ .budget = 12, .depth = 6, .alias = 30, .null = 15, .max_count = 5, .str_mode = STR_ASCII | STR_SPECIAL, .str_max = 40, .no_full_chararr = true });
}

typedef struct pool_t { const mt_t * mt; char * addr; size_t count; bool interior; bool building; } pool_t;
typedef struct gen_t {
  const gopt_t * opt;
  mgraph_t * g;
  int budget;
  pool_t * pool; int n_pool, alloc_pool;
  char ** strs; int n_strs, alloc_strs;
  int garbage;
  bool secret; /* objects that are allocated next are not shared: KNOWN FINDING void-size-shared */
  bool elem_secret;
} gen_t;

static void
pool_add (gen_t * G, const mt_t * mt, char * addr, size_t count, bool interior, bool building)
{
  if (G->n_pool == G->alloc_pool)
    {
      G->alloc_pool = G->alloc_pool ? 2 * G->alloc_pool : 64;
      G->pool = realloc (G->pool, G->alloc_pool * sizeof (G->pool[0]));
    }
  G->pool[G->n_pool++] = (pool_t){ mt, addr, count, interior, building };
}

static void gen_cell (gen_t * G, const mt_t * mt, char * addr, char * base, const mt_t * st, const mf_t * mf, const frame_t * fr, int depth, bool interior);

static char *
fresh (gen_t * G, const mt_t * mt, size_t count, const mf_t * mf, const frame_t * fr, int depth)
{
  size_t sz = msize (mt);
  char * p = arena_alloc (&G->g->arena, sz * count);
  memset (p, G->garbage, sz * count);
  ++G->g->objects;
  --G->budget;
  bool secret = G->secret;
  G->secret = false;
  for (size_t i = 0; i < count; ++i)
    {
      G->elem_secret = secret;
      gen_cell (G, mt, p + i * sz, p + i * sz, NULL, mf, fr, depth + 1, i > 0);
    }
  return (p);
}

/* can hold pointed objects of this type be shared */
static bool
poolable (const mt_t * mt)
{
  return (mt->kind != MK_PTR && mt->kind != MK_ARRAY && mt->kind != MK_BITF && mt->kind != MK_VOIDPTR && mt->kind != MK_TPTR && !mt->context && msize (mt) > 0 && mt->kind != MK_UNION);
}

static char *
pick_alias (gen_t * G, const mt_t * mt, size_t count, bool discr)
{
  int n = 0;
  for (int i = 0; i < G->n_pool; ++i)
    if (G->pool[i].mt == mt && G->pool[i].count >= count && !(discr && G->pool[i].building) && !(G->opt->no_interior && G->pool[i].interior))
      ++n;
  if (!n)
    return (NULL);
  int k = pbt_draw (n);
  for (int i = 0; i < G->n_pool; ++i)
    if (G->pool[i].mt == mt && G->pool[i].count >= count && !(discr && G->pool[i].building) && !(G->opt->no_interior && G->pool[i].interior))
      if (!k--)
	{
	  ++G->g->aliases;
	  if (G->pool[i].interior)
	    ++G->g->interior;
	  if (G->pool[i].building)
	    ++G->g->cycles;
	  return (G->pool[i].addr);
	}
  return (NULL);
}

static void
set_size (gen_t * G, const mt_t * st, char * base, int size_field, i128 bytes)
{
  const mf_t * f = &st->f[size_field - 1];
  const mt_t * t = f->type;
  char * addr = base + f->offset;
  if (t->kind == MK_PTR)
    {
      char * p = arena_alloc (&G->g->arena, t->elem->size);
      memset (p, G->garbage, t->elem->size);
      *(char **)addr = p;
      addr = p;
      t = t->elem;
    }
  cell_set_int (t, addr, base, bytes);
}

static i128
size_max (const mt_t * st, int size_field)
{
  const mt_t * t = st->f[size_field - 1].type;
  if (t->kind == MK_PTR)
    t = t->elem;
  int bits = t->kind == MK_BITF ? (int)t->count : t->kind == MK_BOOL ? 1 : t->bits;
  bool sgn = t->kind == MK_BITF ? t->elem->is_signed : t->is_signed;
  if (t->kind == MK_BITF && t->elem->kind == MK_BOOL)
    bits = 1;
  if (sgn)
    --bits;
  return (bits >= 100 ? ((i128)1 << 100) : ((i128)1 << bits) - 1);
}

static void
gen_fields (gen_t * G, const mt_t * st, char * addr, const frame_t * fr, int depth, bool interior)
{
  for (int pass = 0; pass < 3; ++pass)
    for (int i = 0; i < st->nf; ++i)
      {
	const mf_t * f = &st->f[i];
	if (f->flags & (MF_VOID | MF_SIZE))
	  continue;
	int p = (f->flags & MF_DISCR) ? 0 : f->discr ? 2 : 1;
	if (p == pass)
	  gen_cell (G, f->type, addr + ((f->flags & MF_ANON) ? 0 : f->offset), addr, st, f, fr, depth, true);
      }
}

static void
gen_cell (gen_t * G, const mt_t * mt, char * addr, char * base, const mt_t * st, const mf_t * mf, const frame_t * fr, int depth, bool interior)
{
  const gopt_t * opt = G->opt;
  bool discr = mf && (mf->flags & MF_DISCR), secret = G->elem_secret;
  G->elem_secret = false;
  ++G->g->cells;
  switch (mt->kind)
    {
    case MK_STRUCT:
      {
	frame_t f = { mt, addr, fr };
	int mine = -1;
	if (poolable (mt) && !secret)
	  {
	    mine = G->n_pool;
	    pool_add (G, mt, addr, 1, interior, true);
	  }
	gen_fields (G, mt, addr, &f, depth, interior);
	if (mine >= 0)
	  G->pool[mine].building = false;
	return;
      }
    case MK_UNION:
      {
	const mf_t * b = union_branch (mf, mt, fr);
	++G->g->unions;
	gen_cell (G, b->type, addr + ((b->flags & MF_ANON) ? 0 : b->offset), addr, mt, b, fr, depth, true);
	return;
      }
    case MK_ARRAY:
      {
	size_t n = mt->count, sz = msize (mt->elem);
	if (mf && mf->size_field && st)
	  {
	    i128 max = size_max (st, mf->size_field) / (i128)(sz ? sz : 1);
	    size_t m = pbt_draw ((max < (i128)n ? (size_t)max : n) + 1);
	    set_size (G, st, base, mf->size_field, m * sz);
	    n = m;
	  }
	mf_t sub;
	if (mf)
	  {
	    sub = *mf;
	    sub.size_field = 0;
	  }
	for (size_t i = 0; i < n; ++i)
	  gen_cell (G, mt->elem, addr + i * sz, addr + i * sz, NULL, mf ? &sub : NULL, fr, depth, true);
	return;
      }
    case MK_BITF:
      if (mt->elem->kind == MK_BOOL)
	mt->set (base, pbt_draw (2));
      else if (mt->elem->kind == MK_ENUM)
	mt->set (base, discr && pbt_draw (4) ? (u128)(i128)mt->elem->ev[pbt_draw (mt->elem->nev)].value : gen_enum (mt->elem, opt, mt->count));
      else
	mt->set (base, discr ? pbt_draw (5) : narrow (opt, mt->elem, gen_int (mt->count, mt->elem->is_signed)));
      return;
    case MK_PTR:
      {
	const mt_t * et = mt->elem;
	size_t sz = msize (et);
	char * p = NULL;
	mf_t sub;
	if (mf)
	  {
	    sub = *mf;
	    sub.size_field = 0;
	  }
	if (mf && mf->size_field && st)
	  {
	    i128 max = size_max (st, mf->size_field) / (i128)(sz ? sz : 1);
	    size_t lim = opt->max_count;
	    if (max < (i128)lim)
	      lim = (size_t)max;
	    if (G->budget <= 0 || depth >= opt->depth)
	      lim = lim > 1 ? (kind_is_leaf (et->kind) ? 1 : 0) : 0;
	    size_t n = pbt_draw (lim + 1);
	    bool void_size = st->f[mf->size_field - 1].flags & MF_VOID;
	    if (n == 0)
	      {
		++G->g->nulls;
		set_size (G, st, base, mf->size_field, 0);
		*(char **)addr = pbt_chance (1, 4) ? arena_alloc (&G->g->arena, sz) : NULL;
		return;
	      }
	    ++G->g->dyn;
	    G->g->dyn_elems += n;
	    if (!void_size && !opt->no_overlap && poolable (et) && pbt_draw (100) >= 100 - opt->alias / 2)
	      {
		p = pick_alias (G, et, n, true);
		if (p)
		  ++G->g->overlaps;
	      }
	    if (!p)
	      {
		G->secret = void_size;
		p = fresh (G, et, n, &sub, fr, depth);
		if (poolable (et) && !void_size)
		  for (size_t i = 0; i < n; ++i)
		    pool_add (G, et, p + i * sz, n - i, i > 0, false);
	      }
	    set_size (G, st, base, mf->size_field, n * sz);
	    *(char **)addr = p;
	    return;
	  }
	if (pbt_draw (100) >= 100 - opt->null)
	  ++G->g->nulls;
	else if (poolable (et) && pbt_draw (100) >= 100 - opt->alias)
	  p = pick_alias (G, et, 1, discr);
	if (!p && (G->budget > 0 && depth < opt->depth))
	  {
	    if (pbt_draw (100) < 100 - opt->null / 2)
	      p = fresh (G, et, 1, mf ? &sub : NULL, fr, depth);
	  }
	else if (!p && opt->alias && poolable (et) && pbt_chance (1, 2))
	  p = pick_alias (G, et, 1, discr);
	*(char **)addr = p;
	return;
      }
    case MK_VOIDPTR:
      {
	char * p = NULL;
	if (!opt->no_voidptr && G->n_pool && pbt_chance (1, 2))
	  {
	    const pool_t * e = &G->pool[pbt_draw (G->n_pool)];
	    p = e->addr;
	    ++G->g->voidptrs;
	  }
	*(char **)addr = p;
	return;
      }
    case MK_TPTR:
      {
	const mt_t * t = tptr_type (mf, fr);
	*(char **)addr = NULL;
	if (t && !opt->no_tptr && G->budget > 0 && depth < opt->depth && pbt_chance (7, 8))
	  {
	    char * p = NULL;
	    if (poolable (t) && pbt_draw (100) >= 100 - opt->alias)
	      p = pick_alias (G, t, 1, false);
	    *(char **)addr = p ? p : fresh (G, t, 1, NULL, fr, depth);
	  }
	return;
      }
    case MK_STRING:
      {
	char * s = NULL;
	++G->g->strings;
	if (discr)
	  {
	    /* names of branches or types, sometimes anything */
	    static const char * const names[] = { "ua", "ub", "uc", "ud", "na", "pa", "pb", "f1", "f2", "f3", "f4", "g1", "g2", "g3", "", "UA", "u", "uaa" };
	    const char * n = NULL;
	    if (!strcmp (mf->name, "type"))
	      {
		int k = 0;
		while (tptr_types[k])
		  ++k;
		n = tptr_types[pbt_draw (k)]->name;
	      }
	    else if (pbt_chance (7, 8))
	      n = PBT_PICK (names);
	    if (n)
	      {
		s = arena_alloc (&G->g->arena, strlen (n) + 1);
		strcpy (s, n);
	      }
	  }
	else if (pbt_chance (1, 8))
	  s = NULL;
	else if (G->n_strs && !opt->no_str_alias && pbt_draw (100) >= 100 - opt->alias)
	  {
	    s = G->strs[pbt_draw (G->n_strs)];
	    ++G->g->str_aliases;
	  }
	else
	  s = gen_str (&G->g->arena, opt, opt->str_max);
	*(char **)addr = s;
	if (s)
	  {
	    if (G->n_strs == G->alloc_strs)
	      {
		G->alloc_strs = G->alloc_strs ? 2 * G->alloc_strs : 32;
		G->strs = realloc (G->strs, G->alloc_strs * sizeof (G->strs[0]));
	      }
	    G->strs[G->n_strs++] = s;
	  }
	break;
      }
    case MK_CHARARR:
      if (discr && pbt_chance (3, 4))
	{
	  static const char * const names[] = { "ua", "ub", "uc", "ud", "f1", "f2", "f3", "g1", "g2" };
	  const char * n = PBT_PICK (names);
	  if (strlen (n) < mt->count)
	    {
	      strcpy (addr, n);
	      break;
	    }
	}
      gen_value (mt, addr, opt);
      break;
    case MK_INT:
      if (discr && pbt_chance (3, 4))
	{
	  u128 x = pbt_draw (5);
	  memcpy (addr, &x, mt->size);
	  break;
	}
      gen_value (mt, addr, opt);
      break;
    case MK_ENUM:
      if (discr && pbt_chance (3, 4))
	{
	  int64_t x = mt->ev[pbt_draw (mt->nev)].value;
	  memcpy (addr, &x, mt->size);
	  break;
	}
      gen_value (mt, addr, opt);
      break;
    default:
      gen_value (mt, addr, opt);
      break;
    }
  if (poolable (mt) && !secret)
    pool_add (G, mt, addr, 1, interior || addr != base, false);
}

void
graph_gen (mgraph_t * g, const mt_t * mt, const gopt_t * opt)
{
  gen_t G = { .opt = opt, .g = g, .budget = opt->budget, .garbage = (int)pbt_draw (256) };
  memset (g, 0, sizeof (*g));
  g->mt = mt;
  /* small graphs are common, too */
  if (pbt_chance (1, 4))
    G.budget = G.budget / 4;
  size_t size = msize (mt);
  g->root = arena_alloc (&g->arena, size);
  memset (g->root, G.garbage, size);
  gen_cell (&G, mt, g->root, g->root, NULL, NULL, NULL, 0, false);
  free (G.pool);
  free (G.strs);
}

void
graph_free (mgraph_t * g)
{
  arena_free (&g->arena);
}

bool
graph_nontrivial (const mgraph_t * g)
{
  return (g->objects + g->strings + g->cells > 1);
}

void
graph_labels (const mgraph_t * g)
{
  if (g->aliases) pbt_count ("graph with shared objects", 1);
  if (g->interior) pbt_count ("graph with interior pointers", 1);
  if (g->cycles) pbt_count ("graph with cycles", 1);
  if (g->str_aliases) pbt_count ("graph with shared strings", 1);
  if (g->unions) pbt_count ("graph with unions", 1);
  if (g->dyn) pbt_count ("graph with dynamic arrays", 1);
  if (g->overlaps) pbt_count ("graph with overlapping arrays", 1);
  if (g->voidptrs) pbt_count ("graph with void pointers", 1);
  if (g->objects > 5) pbt_count ("graph with more than 5 objects", 1);
  if (g->objects == 0) pbt_count ("graph of one object", 1);
}

/* ------------------------------------------------------------------ map of addresses */
typedef struct mapent_t { const mt_t * mt; const char * a; const char * b; } mapent_t;
typedef struct map_t { mapent_t * e; size_t n, alloc; } map_t;

static size_t
map_slot (const map_t * m, const mt_t * mt, const char * a)
{
  size_t i = pbt_mix (pbt_mix (0, (uintptr_t)mt), (uintptr_t)a) & (m->alloc - 1);
  while (m->e[i].mt && !(m->e[i].mt == mt && m->e[i].a == a))
    i = (i + 1) & (m->alloc - 1);
  return (i);
}

static mapent_t *
map_get (map_t * m, const mt_t * mt, const char * a)
{
  if (!m->alloc)
    return (NULL);
  size_t i = map_slot (m, mt, a);
  return (m->e[i].mt ? &m->e[i] : NULL);
}

static void
map_put (map_t * m, const mt_t * mt, const char * a, const char * b)
{
  if (2 * (m->n + 1) > m->alloc)
    {
      map_t x = { NULL, 0, m->alloc ? 2 * m->alloc : 256 };
      x.e = calloc (x.alloc, sizeof (x.e[0]));
      for (size_t i = 0; i < m->alloc; ++i)
	if (m->e[i].mt)
	  {
	    x.e[map_slot (&x, m->e[i].mt, m->e[i].a)] = m->e[i];
	    ++x.n;
	  }
      free (m->e);
      *m = x;
    }
  size_t i = map_slot (m, mt, a);
  if (!m->e[i].mt)
    ++m->n;
  m->e[i] = (mapent_t){ mt, a, b };
}

/* ------------------------------------------------------------------ equality */
typedef struct eqctx_t {
  meq_t * eq;
  map_t ab, ba;
  struct { char * a, * b; } * vp;
  int n_vp, alloc_vp;
  char path[1024];
  size_t path_len;
  int depth;
} eqctx_t;

static bool
differ (eqctx_t * E, const char * fmt, ...)
{
  char buf[256];
  va_list args;
  va_start (args, fmt);
  vsnprintf (buf, sizeof (buf), fmt, args);
  va_end (args);
  if (!E->eq->why[0])
    snprintf (E->eq->why, sizeof (E->eq->why), "%s: %s", E->path, buf);
  return (false);
}

static size_t
path_push (eqctx_t * E, const char * fmt, ...)
{
  size_t l = E->path_len;
  va_list args;
  va_start (args, fmt);
  int n = vsnprintf (&E->path[l], sizeof (E->path) - l, fmt, args);
  va_end (args);
  if (n > 0)
    E->path_len += n;
  if (E->path_len > sizeof (E->path) - 1)
    E->path_len = sizeof (E->path) - 1;
  return (l);
}

static void
path_pop (eqctx_t * E, size_t l)
{
  E->path_len = l;
  E->path[l] = 0;
}

static bool
flt_eq (long double a, long double b, int text, double rel, long double step)
{
  if (isnan (a) || isnan (b))
    return (isnan (a) && isnan (b));
  if (a == b)
    return (text || signbit (a) == signbit (b));
  if (text != 1 || isinf (a) || isinf (b))
    return (false);
  long double d = fabsl (a - b);
  return (d <= fabsl (a) * rel || d <= step);
}

static bool cnan_4 (const char * p) { float x[2]; memcpy (x, p, sizeof (x)); return (isnan (x[0]) || isnan (x[1])); }
static bool cnan_8 (const char * p) { double x[2]; memcpy (x, p, sizeof (x)); return (isnan (x[0]) || isnan (x[1])); }
static bool cnan_16 (const char * p) { long double x[2]; memcpy (x, p, sizeof (x)); return (isnan (x[0]) || isnan (x[1])); }

static size_t
strnlen_ (const char * s, size_t n)
{
  size_t i;
  for (i = 0; i < n && s[i]; ++i);
  return (i);
}

static bool eq_cell (eqctx_t * E, const mt_t * mt, char * a, char * b, char * ba, char * bb, const mt_t * st, const mf_t * mf, const frame_t * fa, const frame_t * fb);

static bool
eq_fields (eqctx_t * E, const mt_t * st, char * a, char * b, const frame_t * fa, const frame_t * fb)
{
  /* discriminators and sizes first for readable reports */
  for (int pass = 0; pass < 2; ++pass)
    for (int i = 0; i < st->nf; ++i)
      {
	const mf_t * f = &st->f[i];
	if (f->flags & MF_VOID)
	  continue;
	if ((pass == 0) != !!(f->flags & (MF_DISCR | MF_SIZE)))
	  continue;
	size_t l = path_push (E, ".%s", f->name);
	size_t off = (f->flags & MF_ANON) ? 0 : f->offset;
	if (!eq_cell (E, f->type, a + off, b + off, a, b, st, f, fa, fb))
	  return (false);
	path_pop (E, l);
      }
  return (true);
}

static size_t
ptr_count (const mt_t * mt, const mt_t * st, const mf_t * mf, char * base, char * p)
{
  if (!p)
    return (0);
  if (mf && mf->size_field && st)
    {
      i128 sz = size_value (st, base, mf->size_field);
      if (sz <= 0)
	return (0);
      size_t es = msize (mt->elem);
      return (es ? sz / es : 0);
    }
  return (1);
}

static bool
eq_cell (eqctx_t * E, const mt_t * mt, char * a, char * b, char * ba, char * bb, const mt_t * st, const mf_t * mf, const frame_t * fa, const frame_t * fb)
{
  int text = E->eq->text ? 1 : E->eq->numeric ? 2 : 0;
  if (mt->kind != MK_ARRAY && mt->kind != MK_PTR && mt->kind != MK_BITF && mt->kind != MK_VOIDPTR && mt->kind != MK_TPTR && msize (mt) > 0
      && !E->eq->nosharing)
    {
      mapent_t * m = map_get (&E->ab, mt, a), * r = map_get (&E->ba, mt, b);
      if (E->eq->dup_ok && !r)
	m = NULL;
      if (m || r)
	{
	  if (E->eq->dup_ok)
	    return (r->b == a ? true : differ (E, "distinct objects (%s) became shared", mt->name));
	  if (!m || m->b != b)
	    return (differ (E, m ? "shared in one object (%s) but distinct in the other" : "distinct objects (%s) became shared", mt->name));
	  if (!r || r->b != a)
	    return (differ (E, "sharing of %s is not one-to-one", mt->name));
	  return (true);
	}
      map_put (&E->ab, mt, a, b);
      map_put (&E->ba, mt, b, a);
    }
  switch (mt->kind)
    {
    case MK_BOOL: case MK_INT: case MK_ENUM: case MK_BITF: case MK_CHAR:
      {
	u128 x = cell_int (mt, a, ba), y = cell_int (mt, b, bb);
	if (mt->kind == MK_BOOL && *(uint8_t *)b > 1)
	  return (differ (E, "bool holds %d", *(uint8_t *)b));
	if (x != y)
	  return (differ (E, "%s != %s (%s)", u128_str (x, true), u128_str (y, true), mt->name));
	return (true);
      }
    case MK_FLOAT:
      if (!flt_eq (*(float *)a, *(float *)b, text, 1e-7, 2.9e-45L))
	return (differ (E, "%.12g != %.12g (float)", *(float *)a, *(float *)b));
      return (true);
    case MK_DOUBLE:
      {
	double x, y;
	memcpy (&x, a, sizeof (x));
	memcpy (&y, b, sizeof (y));
	if (!flt_eq (x, y, text, 0, 0))
	  return (differ (E, "%.20g != %.20g (double)", x, y));
	return (true);
      }
    case MK_LDOUBLE:
      {
	long double x, y;
	memcpy (&x, a, sizeof (x));
	memcpy (&y, b, sizeof (y));
	if (!flt_eq (x, y, text, 2e-19, 1e-4949L))
	  return (differ (E, "%.25Lg != %.25Lg (long double)", x, y));
	return (true);
      }
    case MK_CFLOAT:
      if (text && cnan_4 (a) && cnan_4 (b)) /* a complex number with NaN in any part is NaN, text does not keep the other part */
	return (true);
      for (int i = 0; i < 2; ++i)
	{
	  float x, y;
	  memcpy (&x, a + 4 * i, 4);
	  memcpy (&y, b + 4 * i, 4);
	  if (!flt_eq (x, y, text, 1e-7, 2.9e-45L))
	    return (differ (E, "%s part %.12g != %.12g (complex float)", i ? "imaginary" : "real", x, y));
	}
      return (true);
    case MK_CDOUBLE:
      if (text && cnan_8 (a) && cnan_8 (b)) /* a complex number with NaN in any part is NaN, text does not keep the other part */
	return (true);
      for (int i = 0; i < 2; ++i)
	{
	  double x, y;
	  memcpy (&x, a + 8 * i, 8);
	  memcpy (&y, b + 8 * i, 8);
	  if (!flt_eq (x, y, text, 0, 0))
	    return (differ (E, "%s part %.20g != %.20g (complex double)", i ? "imaginary" : "real", x, y));
	}
      return (true);
    case MK_CLDOUBLE:
      if (text && cnan_16 (a) && cnan_16 (b)) /* a complex number with NaN in any part is NaN, text does not keep the other part */
	return (true);
      for (int i = 0; i < 2; ++i)
	{
	  long double x, y;
	  memcpy (&x, a + 16 * i, 16);
	  memcpy (&y, b + 16 * i, 16);
	  if (!flt_eq (x, y, text, 2e-19, 1e-4949L))
	    return (differ (E, "%s part %.25Lg != %.25Lg (complex long double)", i ? "imaginary" : "real", x, y));
	}
      return (true);
    case MK_FUNC:
      if (*(void **)a != *(void **)b)
	return (differ (E, "function pointers differ %p != %p", *(void **)a, *(void **)b));
      return (true);
    case MK_STRING:
      {
	char * x = *(char **)a, * y = *(char **)b;
	if (!x || !y)
	  return ((!x && !y) ? true : differ (E, "NULL string became %s", x ? "NULL" : "not NULL"));
	if (strcmp (x, y))
	  return (differ (E, "strings differ: length %zu and %zu: %.60s | %.60s", strlen (x), strlen (y), x, y));
	if (E->eq->nosharing)
	  return (true);
	static const mt_t content;
	mapent_t * m = map_get (&E->ab, &content, x), * r = map_get (&E->ba, &content, y);
	if (E->eq->dup_ok)
	  m = NULL;
	if ((m && m->b != y) || (r && r->b != x))
	  return (differ (E, m && m->b != y ? "shared string became distinct (%.20s)" : "distinct strings became shared (%.20s)", x));
	if (!m)
	  {
	    map_put (&E->ab, &content, x, y);
	    map_put (&E->ba, &content, y, x);
	  }
	return (true);
      }
    case MK_CHARARR:
      {
	size_t n = strnlen_ (a, mt->count), m = strnlen_ (b, mt->count);
	if (n != m || memcmp (a, b, n))
	  return (differ (E, "character arrays differ: %.*s (%zu) | %.*s (%zu)", (int)n, a, n, (int)m, b, m));
	return (true);
      }
    case MK_STRUCT:
      {
	frame_t x = { mt, a, fa }, y = { mt, b, fb };
	return (eq_fields (E, mt, a, b, &x, &y));
      }
    case MK_UNION:
      {
	const mf_t * x = union_branch (mf, mt, fa), * y = union_branch (mf, mt, fb);
	if (x != y)
	  return (differ (E, "union branches %s and %s", x->name, y->name));
	size_t l = path_push (E, ".%s", x->name), off = (x->flags & MF_ANON) ? 0 : x->offset;
	if (!eq_cell (E, x->type, a + off, b + off, a, b, mt, x, fa, fb))
	  return (false);
	path_pop (E, l);
	return (true);
      }
    case MK_ARRAY:
      {
	size_t n = mt->count, sz = msize (mt->elem);
	mf_t sub;
	if (mf)
	  {
	    sub = *mf;
	    sub.size_field = 0;
	  }
	if (mf && mf->size_field && st)
	  {
	    i128 x = size_value (st, ba, mf->size_field), y = size_value (st, bb, mf->size_field);
	    bool is_void = st->f[mf->size_field - 1].flags & MF_VOID;
	    if (x < 0) x = 0;
	    if (y < 0) y = 0;
	    if (sz && x / (i128)sz != y / (i128)sz && !(is_void && (x / (i128)sz == 0 || E->eq->no_sizes)))
	      return (differ (E, "limited array has %s and %s elements", u128_str (x / sz, true), u128_str (y / sz, true)));
	    if (sz && (size_t)(x / sz) < n)
	      n = x / sz;
	  }
	for (size_t i = 0; i < n; ++i)
	  {
	    size_t l = path_push (E, "[%zu]", i);
	    if (!eq_cell (E, mt->elem, a + i * sz, b + i * sz, a + i * sz, b + i * sz, NULL, mf ? &sub : NULL, fa, fb))
	      return (false);
	    path_pop (E, l);
	  }
	return (true);
      }
    case MK_PTR:
      {
	char * x = *(char **)a, * y = *(char **)b;
	size_t n = ptr_count (mt, st, mf, ba, x), m;
	mf_t sub;
	if (mf)
	  {
	    sub = *mf;
	    sub.size_field = 0;
	  }
	if (n == 0)
	  {
	    m = ptr_count (mt, st, mf, bb, y);
	    if (y && (m || !(mf && mf->size_field)))
	      return (differ (E, "NULL or empty pointer became %zu elements", m));
	    return (true);
	  }
	if (!y)
	  return (differ (E, "pointer became NULL"));
	m = ptr_count (mt, st, mf, bb, y);
	/* a duplicated array is a reference, that has no size in the document */
	bool lost = (E->eq->dup_ok || E->eq->no_sizes) && !m && mf && mf->size_field && st && (st->f[mf->size_field - 1].flags & MF_VOID);
	if (n != m && !lost)
	  return (differ (E, "dynamic array has %zu and %zu elements", n, m));
	size_t sz = msize (mt->elem);
	for (size_t i = 0; i < n; ++i)
	  {
	    size_t l = path_push (E, "->[%zu]", i);
	    if (!eq_cell (E, mt->elem, x + i * sz, y + i * sz, x + i * sz, y + i * sz, NULL, mf ? &sub : NULL, fa, fb))
	      return (false);
	    path_pop (E, l);
	  }
	return (true);
      }
    case MK_TPTR:
      {
	char * x = *(char **)a, * y = *(char **)b;
	const mt_t * t = tptr_type (mf, fa), * u = tptr_type (mf, fb);
	if (!t || !x)
	  return ((y && t) ? differ (E, "NULL typed pointer became not NULL") : true);
	if (t != u || !y)
	  return (differ (E, "typed pointer lost"));
	return (eq_cell (E, t, x, y, x, y, NULL, NULL, fa, fb));
      }
    case MK_VOIDPTR:
      if (E->n_vp == E->alloc_vp)
	{
	  E->alloc_vp = E->alloc_vp ? 2 * E->alloc_vp : 16;
	  E->vp = realloc (E->vp, E->alloc_vp * sizeof (E->vp[0]));
	}
      E->vp[E->n_vp].a = *(char **)a;
      E->vp[E->n_vp++].b = *(char **)b;
      return (true);
    default:
      abort ();
    }
}

bool
model_eq (const mt_t * mt, const void * a, const void * b, meq_t * eq)
{
  eqctx_t E = { .eq = eq };
  eq->why[0] = 0;
  strcpy (E.path, "root");
  E.path_len = 4;
  bool ok = eq_cell (&E, mt, (char *)a, (char *)b, (char *)a, (char *)b, NULL, NULL, NULL, NULL);
  for (int i = 0; ok && i < E.n_vp; ++i)
    {
      char * x = E.vp[i].a, * y = E.vp[i].b;
      /* pointers that address nothing of the graph are not content */
      bool rx = false, ry = false;
      for (size_t j = 0; j < E.ab.alloc && x && !rx; ++j)
	rx = E.ab.e[j].mt && E.ab.e[j].a == x;
      for (size_t j = 0; j < E.ba.alloc && y && !ry; ++j)
	ry = E.ba.e[j].mt && E.ba.e[j].a == y;
      if (!rx && !eq->nosharing)
	x = NULL;
      if (!ry && !eq->nosharing)
	y = NULL;
      if (!x || !y)
	{
	  if (x || y)
	    ok = differ (&E, "void pointer became %s", x ? "NULL" : "not NULL");
	  continue;
	}
      bool found = eq->nosharing;
      for (size_t j = 0; !found && j < E.ab.alloc; ++j)
	found = E.ab.e[j].mt && E.ab.e[j].a == x && E.ab.e[j].b == y;
      for (size_t j = 0; !found && j < E.ba.alloc; ++j)
	found = E.ba.e[j].mt && E.ba.e[j].a == y && E.ba.e[j].b == x;
      if (!found)
	ok = differ (&E, "void pointer addresses another object");
    }
  free (E.ab.e);
  free (E.ba.e);
  free (E.vp);
  return (ok);
}

/* ------------------------------------------------------------------ visitor */
/* description of elements of an array: the same field without the size */
static const mf_t *
elem_mf (const mf_t * mf)
{
  static struct { const mf_t * key; mf_t * val; } * tab;
  static int n, alloc;
  if (!mf || !mf->size_field)
    return (mf);
  size_t h = ((uintptr_t)mf >> 3) * 0x9e3779b97f4a7c15ULL >> 32;
  if (2 * (n + 1) > alloc)
    {
      int old_alloc = alloc;
      typeof (tab) old = tab;
      alloc = alloc ? 2 * alloc : 256;
      tab = calloc (alloc, sizeof (tab[0]));
      for (int i = 0; i < old_alloc; ++i)
	if (old[i].key)
	  {
	    size_t k = (((uintptr_t)old[i].key >> 3) * 0x9e3779b97f4a7c15ULL >> 32) & (alloc - 1);
	    while (tab[k].key)
	      k = (k + 1) & (alloc - 1);
	    tab[k] = old[i];
	  }
      free (old);
    }
  for (h &= alloc - 1; tab[h].key; h = (h + 1) & (alloc - 1))
    if (tab[h].key == mf)
      return (tab[h].val);
  tab[h].key = mf;
  tab[h].val = malloc (sizeof (*mf));
  *tab[h].val = *mf;
  tab[h].val->size_field = 0;
  ++n;
  return (tab[h].val);
}

typedef struct walk_t { mvisit_t fn; void * ctx; map_t seen; } walk_t;

static void
walk_cell (walk_t * W, const mt_t * mt, char * a, char * base, const mt_t * st, const mf_t * mf, const frame_t * fr)
{
  if (mt->kind != MK_ARRAY && mt->kind != MK_PTR && mt->kind != MK_BITF && mt->kind != MK_VOIDPTR && mt->kind != MK_TPTR && msize (mt) > 0)
    {
      if (map_get (&W->seen, mt, a))
	return;
      map_put (&W->seen, mt, a, a);
    }
  mcell_t c = { mt, a, base, mf, 1, mf && (mf->flags & (MF_DISCR | MF_SIZE)), st };
  const mf_t * sub = elem_mf (mf);
  switch (mt->kind)
    {
    case MK_STRUCT:
      {
	frame_t f = { mt, a, fr };
	W->fn (&c, W->ctx);
	for (int i = 0; i < mt->nf; ++i)
	  if (!(mt->f[i].flags & MF_VOID))
	    walk_cell (W, mt->f[i].type, a + ((mt->f[i].flags & MF_ANON) ? 0 : mt->f[i].offset), a, mt, &mt->f[i], &f);
	return;
      }
    case MK_UNION:
      {
	const mf_t * b = union_branch (mf, mt, fr);
	W->fn (&c, W->ctx);
	walk_cell (W, b->type, a + ((b->flags & MF_ANON) ? 0 : b->offset), a, mt, b, fr);
	return;
      }
    case MK_ARRAY:
      {
	size_t n = mt->count, sz = msize (mt->elem);
	if (mf && mf->size_field && st)
	  {
	    i128 x = size_value (st, base, mf->size_field);
	    if (x < 0) x = 0;
	    if (sz && (size_t)(x / sz) < n)
	      n = x / sz;
	  }
	c.count = n;
	W->fn (&c, W->ctx);
	for (size_t i = 0; i < n; ++i)
	  walk_cell (W, mt->elem, a + i * sz, a + i * sz, NULL, sub, fr);
	return;
      }
    case MK_PTR:
      {
	char * x = *(char **)a;
	size_t n = c.count = ptr_count (mt, st, mf, base, x), sz = msize (mt->elem);
	c.tmt = mt->elem;
	c.target = x;
	c.tsize = n * sz;
	c.resizable = mf && mf->size_field && st;
	W->fn (&c, W->ctx);
	for (size_t i = 0; i < n; ++i)
	  walk_cell (W, mt->elem, x + i * sz, x + i * sz, NULL, sub, fr);
	return;
      }
    case MK_TPTR:
      {
	const mt_t * t = tptr_type (mf, fr);
	char * x = *(char **)a;
	c.count = (t && x) ? 1 : 0;
	c.tmt = t;
	c.target = x;
	c.tsize = c.count ? msize (t) : 0;
	W->fn (&c, W->ctx);
	if (t && x)
	  walk_cell (W, t, x, x, NULL, NULL, fr);
	return;
      }
    default:
      W->fn (&c, W->ctx);
      return;
    }
}

void
model_walk (const mt_t * mt, void * obj, mvisit_t fn, void * ctx)
{
  walk_t W = { fn, ctx };
  walk_cell (&W, mt, obj, obj, NULL, NULL, NULL);
  free (W.seen.e);
}

static void
tree_cell (dn_t * d, const mt_t * mt, char * a, char * base, const mt_t * st, const mf_t * mf, const frame_t * fr, bool fixed)
{
  const mf_t * sub = elem_mf (mf);
  memset (d, 0, sizeof (*d));
  d->mt = mt;
  d->mf = mf;
  d->addr = a;
  d->base = base;
  d->fixed = fixed = fixed || (mf && (mf->flags & MF_DISCR));
  if (mf && mf->size_field && st)
    d->size = &st->f[mf->size_field - 1];
  switch (mt->kind)
    {
    case MK_STRUCT:
      {
	frame_t f = { mt, a, fr };
	d->kind = D_REC;
	d->k = calloc (mt->nf + 1, sizeof (d->k[0]));
	for (int i = 0; i < mt->nf; ++i)
	  if (!(mt->f[i].flags & MF_VOID))
	    tree_cell (&d->k[d->n++], mt->f[i].type, a + ((mt->f[i].flags & MF_ANON) ? 0 : mt->f[i].offset), a, mt, &mt->f[i], &f, fixed);
	return;
      }
    case MK_UNION:
      {
	const mf_t * b = union_branch (mf, mt, fr);
	d->kind = D_REC;
	d->k = calloc (1, sizeof (d->k[0]));
	d->n = 1;
	tree_cell (&d->k[0], b->type, a + ((b->flags & MF_ANON) ? 0 : b->offset), a, mt, b, fr, fixed);
	return;
      }
    case MK_ARRAY: case MK_PTR: case MK_TPTR:
      {
	size_t n = mt->count;
	const mt_t * e = mt->elem;
	char * x = a;
	if (mt->kind == MK_PTR)
	  {
	    x = *(char **)a;
	    n = ptr_count (mt, st, mf, base, x);
	    d->ptr = true;
	  }
	else if (mt->kind == MK_TPTR)
	  {
	    e = tptr_type (mf, fr);
	    x = *(char **)a;
	    n = (e && x) ? 1 : 0;
	    d->ptr = true;
	  }
	size_t sz = e ? msize (e) : 0;
	if (mt->kind == MK_ARRAY && d->size)
	  {
	    i128 y = size_value (st, base, mf->size_field);
	    if (y < 0) y = 0;
	    if (sz && (size_t)(y / sz) < n)
	      n = y / sz;
	  }
	d->kind = D_LIST;
	if (d->ptr && n == 0)
	  {
	    d->kind = D_NULL;
	    return;
	  }
	d->k = calloc (n + 1, sizeof (d->k[0]));
	for (size_t i = 0; i < n; ++i)
	  {
	    tree_cell (&d->k[d->n++], e, x + i * sz, x + i * sz, NULL, mt->kind == MK_TPTR ? NULL : sub, fr, fixed);
	    d->k[d->n - 1].inlist = true;
	    d->k[d->n - 1].size = NULL;
	  }
	return;
      }
    case MK_STRING:
      d->kind = *(char **)a ? D_STR : D_NULL;
      return;
    case MK_VOIDPTR: case MK_FUNC:
      d->kind = D_NULL;
      return;
    default:
      d->kind = mt->kind == MK_CHARARR ? D_STR : D_LEAF;
    }
}

dn_t *
model_tree (const mt_t * mt, void * obj)
{
  dn_t * d = calloc (1, sizeof (*d));
  tree_cell (d, mt, obj, obj, NULL, NULL, NULL, false);
  return (d);
}

static void
tree_free_inner (dn_t * t)
{
  for (int i = 0; i < t->n; ++i)
    tree_free_inner (&t->k[i]);
  free (t->k);
}

void
tree_free (dn_t * t)
{
  tree_free_inner (t);
  free (t);
}

static void
collect (const mcell_t * c, void * ctx)
{
  mcells_t * out = ctx;
  if (out->n == out->alloc)
    {
      out->alloc = out->alloc ? 2 * out->alloc : 64;
      out->c = realloc (out->c, out->alloc * sizeof (out->c[0]));
    }
  out->c[out->n++] = *c;
}

void
model_cells (const mt_t * mt, void * obj, mcells_t * out)
{
  memset (out, 0, sizeof (*out));
  model_walk (mt, obj, collect, out);
}

void
cells_free (mcells_t * c)
{
  free (c->c);
  memset (c, 0, sizeof (*c));
}

bool
graph_inside_out (const mgraph_t * g)
{
  mcells_t cells = { NULL };
  typedef struct ext_t { char * addr, * p; size_t size; bool hit; } ext_t;
  bool found = false;
  int n = 0;
  model_cells (g->mt, g->root, &cells);
  ext_t * e = calloc (cells.n + 1, sizeof (*e));
  for (int i = 0; i < cells.n; ++i)
    if (cells.c[i].target && cells.c[i].tsize && !kind_is_leaf (cells.c[i].tmt->kind))
      e[n++] = (ext_t){ cells.c[i].addr, cells.c[i].target, cells.c[i].tsize };
  for (int i = 0; i < n && !found; ++i)
    {
      mblock_t * b = arena_find (&g->arena, e[i].p);
      if (b && b->size <= e[i].size)
	continue;
      for (int k = 0; k < n; ++k)
	e[k].hit = (k == i);
      for (bool more = true; more && !found; )
	{
	  more = false;
	  for (int k = 0; k < n && !found; ++k)
	    if (!e[k].hit)
	      for (int j = 0; j < n; ++j)
		if (e[j].hit && e[k].addr >= e[j].p && e[k].addr < e[j].p + e[j].size)
		  {
		    more = e[k].hit = true;
		    found = e[k].size > e[i].size && e[k].p <= e[i].p && e[k].p + e[k].size >= e[i].p + e[i].size;
		    break;
		  }
	}
    }
  free (e);
  cells_free (&cells);
  return (found);
}

typedef struct chars_t { int ctrl, high, bad; } chars_t;

static bool
valid_utf8 (const unsigned char * p, size_t len)
{
  for (size_t i = 0; i < len; )
    {
      uint32_t v = p[i];
      int w = v < 0x80 ? 1 : (v & 0xe0) == 0xc0 ? 2 : (v & 0xf0) == 0xe0 ? 3 : (v & 0xf8) == 0xf0 ? 4 : 0;
      if (!w || i + w > len)
	return (false);
      v = w == 1 ? v : v & (0x7f >> w);
      for (int k = 1; k < w; ++k)
	{
	  if ((p[i + k] & 0xc0) != 0x80)
	    return (false);
	  v = (v << 6) | (p[i + k] & 0x3f);
	}
      if ((w == 2 && v < 0x80) || (w == 3 && v < 0x800) || (w == 4 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000))
	return (false);
      i += w;
    }
  return (true);
}

static void
count_chars (const mcell_t * c, void * ctx)
{
  chars_t * n = ctx;
  const unsigned char * p = NULL;
  size_t len = 0;
  if (c->mt->kind == MK_CHAR)
    p = (unsigned char *)c->addr, len = 1;
  else if (c->mt->kind == MK_STRING)
    p = *(unsigned char **)c->addr, len = p ? strlen ((char *)p) : 0;
  else if (c->mt->kind == MK_CHARARR)
    p = (unsigned char *)c->addr, len = strnlen ((char *)p, msize (c->mt));
  if (c->mt->kind != MK_CHAR && !valid_utf8 (p, len))
    ++n->bad;
  for (size_t i = 0; i < len; ++i)
    if (p[i] >= 0x80)
      ++n->high;
    else if (p[i] && p[i] < ' ' && p[i] != '\t' && p[i] != '\n' && p[i] != '\r')
      ++n->ctrl;
}

int
graph_ctrl_chars (const mgraph_t * g)
{
  chars_t n = { 0 };
  model_walk (g->mt, g->root, count_chars, &n);
  return (n.ctrl);
}

int
graph_bad_utf8 (const mgraph_t * g)
{
  chars_t n = { 0 };
  model_walk (g->mt, g->root, count_chars, &n);
  return (n.bad);
}

int
graph_high_bytes (const mgraph_t * g)
{
  chars_t n = { 0 };
  model_walk (g->mt, g->root, count_chars, &n);
  return (n.high);
}

typedef struct run_t { char * p, * end; } run_t;

static int
run_cmp (const void * a, const void * b)
{
  const run_t * x = a, * y = b;
  return ((x->p > y->p) - (x->p < y->p));
}

bool
graph_prefix_overlap (const mgraph_t * g, bool any)
{
  mcells_t cells = { NULL };
  bool found = false;
  int n = 0;
  model_cells (g->mt, g->root, &cells);
  run_t * r = calloc (cells.n + 1, sizeof (*r));
  for (int i = 0; i < cells.n; ++i)
    if (cells.c[i].target && cells.c[i].tsize && cells.c[i].resizable)
      r[n++] = (run_t){ cells.c[i].target, cells.c[i].target + cells.c[i].tsize };
  qsort (r, n, sizeof (*r), run_cmp);
  for (int i = 0; i < n; )
    {
      char * end = r[i].end;
      int k;
      for (k = i + 1; k < n && r[k].p < end; ++k)
	if (r[k].end > end)
	  end = r[k].end;
      /* with ANY each of arrays of the cluster could be the holder */
      for (int a = i; any && a < k; ++a)
	for (int b = a + 1; b < k && r[b].p < r[a].end; ++b)
	  if (r[b].end > r[a].end || (r[b].p == r[a].p && r[b].end != r[a].end))
	    found = true;
      /* those that start first hold elements of the whole cluster */
      for (int j = i; j < k && r[j].p == r[i].p; ++j)
	if (r[j].end < end)
	  found = true;
      i = k;
    }
  free (r);
  cells_free (&cells);
  return (found);
}

/* ------------------------------------------------------------------ clone */
void
graph_clone (const mgraph_t * g, mgraph_t * dst, int garbage)
{
  mcells_t cells;
  *dst = *g;
  memset (&dst->arena, 0, sizeof (dst->arena));
  for (int i = 0; i < g->arena.n; ++i)
    {
      char * p = arena_alloc (&dst->arena, g->arena.b[i].size);
      memset (p, garbage, g->arena.b[i].size);
    }
#define TR(P) ({ char * _p = (P); mblock_t * _b = _p ? arena_find (&g->arena, _p) : NULL; _b ? dst->arena.b[_b - g->arena.b].ptr + (_p - _b->ptr) : _p; })
  dst->root = TR (g->root);
  model_cells (g->mt, g->root, &cells);
  /* scalars, then sizes which are not serializable */
  for (int i = 0; i < cells.n; ++i)
    {
      const mcell_t * c = &cells.c[i];
      char * t = TR (c->addr), * tb = TR (c->base);
      switch (c->mt->kind)
	{
	case MK_STRUCT: case MK_UNION: case MK_ARRAY: break;
	case MK_BITF: c->mt->set (tb, c->mt->get (c->base)); break;
	case MK_STRING:
	  {
	    char * s = *(char **)c->addr;
	    *(char **)t = TR (s);
	    if (s)
	      strcpy (TR (s), s);
	    break;
	  }
	case MK_PTR: case MK_VOIDPTR: case MK_TPTR:
	  *(char **)t = TR (*(char **)c->addr);
	  break;
	case MK_CHARARR:
	  memcpy (t, c->addr, strnlen_ (c->addr, c->mt->count));
	  if (strnlen_ (c->addr, c->mt->count) < c->mt->count)
	    t[strnlen_ (c->addr, c->mt->count)] = 0;
	  break;
	case MK_LDOUBLE: memcpy (t, c->addr, 10); break;
	case MK_CLDOUBLE: memcpy (t, c->addr, 10); memcpy (t + 16, c->addr + 16, 10); break;
	default: memcpy (t, c->addr, c->mt->size); break;
	}
      if (c->mf && c->mf->size_field && c->container && (c->container->f[c->mf->size_field - 1].flags & MF_VOID))
	{
	  const mf_t * sf = &c->container->f[c->mf->size_field - 1];
	  if (sf->type->kind == MK_BITF)
	    sf->type->set (tb, sf->type->get (c->base));
	  else
	    memcpy (tb + sf->offset, c->base + sf->offset, sf->type->size);
	}
    }
#undef TR
  cells_free (&cells);
}

/* ------------------------------------------------------------------ description and hash */
typedef struct desc_t { const mgraph_t * g; uint64_t h; bool note; map_t ids; int n; } desc_t;

static int
desc_id (desc_t * D, const char * p)
{
  static const mt_t any = { .kind = MK_INT };
  if (!p)
    return (0);
  mapent_t * m = map_get (&D->ids, &any, p);
  if (m)
    return ((int)(intptr_t)m->b);
  map_put (&D->ids, &any, p, (char *)(intptr_t)++D->n);
  return (D->n);
}

static void
describe (const mcell_t * c, void * ctx)
{
  desc_t * D = ctx;
  const mt_t * mt = c->mt;
  const char * nm = c->mf ? c->mf->name : "";
  D->h = pbt_mix (D->h, mt->kind);
  switch (mt->kind)
    {
    case MK_STRUCT:
      if (D->note)
	pbt_note ("%s %s #%d\n", mt->name, nm, desc_id (D, c->addr));
      return;
    case MK_UNION: case MK_ARRAY: return;
    case MK_BOOL: case MK_INT: case MK_ENUM: case MK_BITF: case MK_CHAR:
      {
	u128 x = cell_int (mt, c->addr, c->base);
	D->h = pbt_mix (D->h, (uint64_t)x ^ (uint64_t)(x >> 64));
	if (D->note)
	  pbt_note ("  %s %s = %s #%d\n", mt->name, nm, u128_str (x, true), desc_id (D, c->addr));
	return;
      }
    case MK_PTR: case MK_VOIDPTR: case MK_TPTR:
      {
	int id = desc_id (D, *(char **)c->addr);
	D->h = pbt_mix (D->h, id * 1000003 + c->count);
	if (D->note)
	  pbt_note ("  %s %s -> #%d (%zu)\n", mt->name, nm, id, c->count);
	return;
      }
    case MK_STRING:
      {
	char * s = *(char **)c->addr;
	D->h = pbt_mix (D->h, s ? pbt_hash (1, s, strlen (s)) : 0);
	if (D->note)
	  {
	    pbt_note ("  ");
	    if (s) pbt_note_bytes (nm, s, strlen (s)); else pbt_note ("%s = NULL\n", nm);
	  }
	return;
      }
    case MK_CHARARR:
      D->h = pbt_hash (D->h, c->addr, strnlen_ (c->addr, mt->count));
      if (D->note)
	pbt_note_bytes (nm, c->addr, strnlen_ (c->addr, mt->count));
      return;
    case MK_FUNC:
      D->h = pbt_mix (D->h, !!*(void **)c->addr);
      return;
    case MK_LDOUBLE: case MK_CLDOUBLE:
      D->h = pbt_hash (D->h, c->addr, 10);
      if (D->note)
	pbt_note ("  %s %s = %.22Lg %.22Lg\n", mt->name, nm, *(long double *)c->addr, mt->kind == MK_CLDOUBLE ? *(long double *)(c->addr + 16) : 0);
      return;
    default:
      D->h = pbt_hash (D->h, c->addr, mt->size);
      if (D->note)
	{
	  if (mt->kind == MK_FLOAT) pbt_note ("  float %s = %.10g\n", nm, *(float *)c->addr);
	  else if (mt->kind == MK_CFLOAT) pbt_note ("  cfloat %s = %.10g %.10g\n", nm, *(float *)c->addr, *(float *)(c->addr + 4));
	  else { double x, y = 0; memcpy (&x, c->addr, 8); if (mt->kind == MK_CDOUBLE) memcpy (&y, c->addr + 8, 8); pbt_note ("  %s %s = %.18g %.18g\n", mt->name, nm, x, y); }
	}
      return;
    }
}

uint64_t
graph_shape (const mgraph_t * g)
{
  desc_t D = { .g = g, .h = (uintptr_t)0 };
  D.h = pbt_hash (0, g->mt->name, strlen (g->mt->name));
  model_walk (g->mt, g->root, describe, &D);
  free (D.ids.e);
  return (D.h);
}

void
graph_note (const mgraph_t * g)
{
  desc_t D = { .g = g, .note = true };
  pbt_note ("object of type %s:\n", g->mt->name);
  model_walk (g->mt, g->root, describe, &D);
  free (D.ids.e);
}

/* ------------------------------------------------------------------ mutation */
static long double
other_float (long double v, long double near)
{
  static const long double some[] = { 1, NAN, 0, -1, INFINITY, 2, -INFINITY };
  if (!isnan (v) && !isinf (v) && v != 0 && pbt_draw (2))
    return (pbt_draw (2) ? -v : near);
  return (PBT_PICK (some));
}

/* is the cell a part of a discriminator, maybe through a pointer */
static bool
selects (const mcells_t * cells, const mcell_t * c)
{
  for (int i = 0; i < cells->n; ++i)
    {
      const mcell_t * d = &cells->c[i];
      if (!d->mf || !(d->mf->flags & MF_DISCR) || d->mt->kind == MK_BITF)
	continue;
      if (c->addr >= d->addr && c->addr < d->addr + msize (d->mt))
	return (true);
      if (d->target && c->addr >= d->target && c->addr < d->target + d->tsize)
	return (true);
    }
  return (false);
}

bool
cells_mutate (const mcells_t * cells, int i, marena_t * arena, const gopt_t * opt, char * what, size_t ws)
{
  return (!selects (cells, &cells->c[i]) && cell_mutate (&cells->c[i], arena, opt, what, ws));
}

bool
cell_mutate (const mcell_t * c, marena_t * arena, const gopt_t * opt, char * what, size_t ws)
{
  const mt_t * mt = c->mt;
  const char * nm = c->mf ? c->mf->name : "root";
  u128 x, y;
  if (c->discr_or_size)
    return (false);
  switch (mt->kind)
    {
    case MK_BOOL:
      *(bool *)c->addr = !*(bool *)c->addr;
      break;
    case MK_BITF:
    case MK_INT:
    case MK_ENUM:
      {
	int bits = mt->kind == MK_BITF ? (int)mt->count : mt->bits;
	x = cell_int (mt, c->addr, c->base);
	y = x ^ ((u128)1 << pbt_draw (mt->kind == MK_BITF && mt->elem->kind == MK_BOOL ? 1 : bits));
	cell_set_int (mt, c->addr, c->base, y);
	if (cell_int (mt, c->addr, c->base) == x)
	  return (false);
	break;
      }
    case MK_CHAR:
      *(char *)c->addr ^= 1 << pbt_draw (7);
      break;
    case MK_FLOAT: case MK_CFLOAT:
      {
	float * f = (float *)(c->addr + (mt->kind == MK_CFLOAT ? 4 * pbt_draw (2) : 0)), v;
	memcpy (&v, f, 4);
	float w = other_float (v, nextafterf (v, 0));
	memcpy (f, &w, 4);
	break;
      }
    case MK_DOUBLE: case MK_CDOUBLE:
      {
	double v, w;
	char * p = c->addr + (mt->kind == MK_CDOUBLE ? 8 * pbt_draw (2) : 0);
	memcpy (&v, p, 8);
	w = other_float (v, nextafter (v, 0));
	memcpy (p, &w, 8);
	break;
      }
    case MK_LDOUBLE: case MK_CLDOUBLE:
      {
	long double v, w;
	char * p = c->addr + (mt->kind == MK_CLDOUBLE ? 16 * pbt_draw (2) : 0);
	memcpy (&v, p, 16);
	w = other_float (v, nextafterl (v, 0));
	memcpy (p, &w, 10);
	break;
      }
    case MK_CHARARR:
      {
	size_t n = strnlen_ (c->addr, mt->count);
	if (n && pbt_draw (2))
	  {
	    size_t k = pbt_draw (n);
	    c->addr[k] ^= (c->addr[k] == 1) ? 2 : 1;
	    if (!c->addr[k])
	      c->addr[k] = 'q';
	  }
	else if (n)
	  c->addr[n - 1] = 0;
	else if (mt->count > 1)
	  strcpy (c->addr, "z");
	else
	  return (false);
	break;
      }
    case MK_STRING:
      {
	char * s = *(char **)c->addr;
	size_t n = s ? strlen (s) : 0;
	char * t = arena_alloc (arena, n + 2);
	if (s)
	  strcpy (t, s);
	switch (pbt_draw (4))
	  {
	  case 0: t[n] = 'x'; t[n + 1] = 0; break;
	  case 1:
	    if (n) { size_t k = pbt_draw (n); t[k] = (t[k] == 'y') ? 'z' : 'y'; }
	    else if (s) t = NULL;
	    break;
	  case 2: if (n) t[n - 1] = 0; else if (s) t = NULL; break;
	  case 3: if (s) t = NULL; break;
	  }
	*(char **)c->addr = t;
	break;
      }
    case MK_FUNC:
      {
	void * f = *(void **)c->addr;
	f = f ? NULL : (void *)pbt_fn_a;
	memcpy (c->addr, &f, sizeof (f));
	break;
      }
    case MK_PTR:
      if (!*(char **)c->addr || !c->count || (c->mf && c->mf->size_field && c->container))
	return (false);
      *(char **)c->addr = NULL;
      break;
    default:
      return (false);
    }
  snprintf (what, ws, "%s %s", mt->name, nm);
  return (true);
}
