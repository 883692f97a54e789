/* Scalars and strings in text formats. */
#define _GNU_SOURCE
#include "graph.h"

enum { HAS_SCALAR = 1, HAS_STRING = 2, HAS_OTHER = 4 };

static unsigned
content (const mt_t * mt, int depth)
{
  unsigned r = 0;
  switch (mt->kind)
    {
    case MK_BOOL: case MK_INT: case MK_ENUM: case MK_FLOAT: case MK_DOUBLE: case MK_LDOUBLE: case MK_CFLOAT: case MK_CDOUBLE: case MK_CLDOUBLE:
    case MK_FUNC: case MK_BITF:
      return (HAS_SCALAR);
    case MK_CHAR:
      return (HAS_SCALAR | HAS_STRING);
    case MK_STRING: case MK_CHARARR:
      return (HAS_STRING);
    case MK_ARRAY:
      return (depth > 8 ? HAS_OTHER : content (mt->elem, depth + 1));
    case MK_STRUCT:
      if (depth > 8)
	return (HAS_OTHER);
      for (int i = 0; i < mt->nf; ++i)
	if (!(mt->f[i].flags & MF_VOID))
	  r |= content (mt->f[i].type, depth + 1);
      return (r);
    case MK_PTR:
      return (depth > 2 ? HAS_OTHER : (content (mt->elem, depth + 1) | HAS_OTHER));
    default:
      return (HAS_OTHER);
    }
}

static const mops_t *
pick_scalars (void)
{
  for (int i = 0; i < 200; ++i)
    {
      const mops_t * o = pick_root ();
      unsigned c = content (o->mt, 0);
      if (c & HAS_SCALAR && !(c & HAS_OTHER))
	return (o);
    }
  return (root_by_name ("c_scalars_t"));
}

static mfmt_t
round_trip (const mops_t * o, mgraph_t * g, mfmt_t f)
{
  meq_t eq = { .text = true };
  mbuf_t b = save_checked (o, f, g);
  note_buf ("saved", f, &b);
  void * d = obj_alloc (o->mt, 0xa5);
  PBT_CHECK (o->load (f, &b, d), fsig ("load-failed", f, o), "loading %s from its %s form failed", o->name, fmt_name[f]);
  PBT_CHECK (model_eq (o->mt, g->root, d, &eq), fsig ("not-equal", f, o), "%s form of %s is restored differently: %s", fmt_name[f], o->name, eq.why);
  buf_free (&b);
  free_loaded (o, d);
  pbt_count (fmt_name[f], 1);
  return (f);
}

/* ------------------------------------------------------------------ P01 */
void
p_scalars (void)
{
  static const char * const main_roots[] = { "c_scalars_t", "c_bits_t", "c_pbits_t", "c_odd_t" };
  mgraph_t g;
  gopt_t opt = gopt_default ();
  case_begin ();
  const mops_t * o = pbt_chance (1, 2) ? root_by_name (PBT_PICK (main_roots)) : pick_scalars ();
  gen_on (o, &g, &opt);
  uint64_t mask = 1 + pbt_draw ((1 << 6) - 1);
  static const mfmt_t f[] = { F_CINIT, F_JSON, F_YAML, F_XML1, F_XML2, F_SCM };
  bool ctrl = graph_ctrl_chars (&g) > 0;
  for (int i = 0; i < 6; ++i)
    if ((mask & (1 << i)) && !(f[i] == F_XML2 && ctrl))
      round_trip (o, &g, f[i]);
  graph_free (&g);
}

/* ------------------------------------------------------------------ P01-formats */
static struct { mfmt_t fmt; unsigned calls[MR_TYPE_LAST]; int style[MR_TYPE_LAST]; } F;

static int
int_format (mr_rarray_t * ra, i128 v, u128 mag, int style, const mr_ptrdes_t * p_)
{ /* spellings that every loader takes */
  char t[160], * e = t + sizeof (t), * p = e;
  *--p = 0;
  int base = 10;
  const char * prefix = "";
  bool plain = p_->mr_type == MR_TYPE_BITFIELD ? p_->mr_type_aux != MR_TYPE_ENUM : p_->mr_type >= MR_TYPE_INT8 && p_->mr_type <= MR_TYPE_UINT128;
  if (F.fmt == F_SCM && plain) /* others are quoted: these are expressions of C */
    switch (style)
      {
      case 1: base = 16, prefix = "#x"; break;
      case 2: base = 16, prefix = "#X"; break;
      case 3: base = 8, prefix = "#o"; break;
      }
  else if (F.fmt != F_JSON)
    switch (style)
      {
      case 1: base = 16, prefix = "0x"; break;
      case 2: base = 16, prefix = "0X"; break;
      case 3: base = 8, prefix = "0"; break;
      }
  do
    *--p = (style == 2 ? "0123456789ABCDEF" : "0123456789abcdef")[mag % base];
  while ((mag /= base));
  p -= strlen (prefix);
  memcpy (p, prefix, strlen (prefix));
  if (v < 0)
    *--p = '-';
  return (mr_ra_append_string (ra, p));
}

#define INT_FORMAT(NAME, TYPE, MR_TYPE)					\
  static int format_ ## NAME (mr_rarray_t * ra, mr_ptrdes_t * p)	\
  {									\
    TYPE x;								\
    memcpy (&x, p->data.ptr, sizeof (x));				\
    ++F.calls[MR_TYPE];							\
    return (int_format (ra, x < 0 ? -1 : 1, x < 0 ? -(u128)x : (u128)x, F.style[MR_TYPE], p)); \
  }
INT_FORMAT (i8, int8_t, MR_TYPE_INT8)
INT_FORMAT (u8, uint8_t, MR_TYPE_UINT8)
INT_FORMAT (i16, int16_t, MR_TYPE_INT16)
INT_FORMAT (u16, uint16_t, MR_TYPE_UINT16)
INT_FORMAT (i32, int32_t, MR_TYPE_INT32)
INT_FORMAT (u32, uint32_t, MR_TYPE_UINT32)
INT_FORMAT (i64, int64_t, MR_TYPE_INT64)
INT_FORMAT (u64, uint64_t, MR_TYPE_UINT64)
INT_FORMAT (i128, i128, MR_TYPE_INT128)
INT_FORMAT (u128, u128, MR_TYPE_UINT128)

#define FLOAT_FORMAT(NAME, TYPE, MR_TYPE, DIGITS, PLAIN)		\
  static int format_ ## NAME (mr_rarray_t * ra, mr_ptrdes_t * p)	\
  {									\
    TYPE x;								\
    memcpy (&x, p->data.ptr, sizeof (TYPE));				\
    ++F.calls[MR_TYPE];							\
    if (!__builtin_isfinite (x))					\
      return (PLAIN (ra, p));						\
    char t[100];							\
    switch (F.style[MR_TYPE])						\
      {									\
      case 0: snprintf (t, sizeof (t), "%.*Lg", DIGITS, (long double)x); break; \
      case 1: snprintf (t, sizeof (t), "%.*Le", DIGITS, (long double)x); break; \
      case 2: snprintf (t, sizeof (t), "%.*LE", DIGITS + 3, (long double)x); break; \
      default: snprintf (t, sizeof (t), "%.*Lg", DIGITS + 12, (long double)x); break; \
      }									\
    return (mr_ra_append_string (ra, t));				\
  }
FLOAT_FORMAT (float, float, MR_TYPE_FLOAT, 9, mr_ra_printf_float_default)
FLOAT_FORMAT (double, double, MR_TYPE_DOUBLE, 17, mr_ra_printf_double_default)
FLOAT_FORMAT (ldouble, long double, MR_TYPE_LONG_DOUBLE, 21, mr_ra_printf_long_double_t_default)

static const struct { mr_type_t type; mr_ra_printf_t fn; } formats[] = {
  { MR_TYPE_INT8, format_i8 }, { MR_TYPE_UINT8, format_u8 }, { MR_TYPE_INT16, format_i16 }, { MR_TYPE_UINT16, format_u16 }, { MR_TYPE_INT32, format_i32 }, { MR_TYPE_UINT32, format_u32 },
  { MR_TYPE_INT64, format_i64 }, { MR_TYPE_UINT64, format_u64 }, { MR_TYPE_INT128, format_i128 }, { MR_TYPE_UINT128, format_u128 },
  { MR_TYPE_FLOAT, format_float }, { MR_TYPE_DOUBLE, format_double }, { MR_TYPE_LONG_DOUBLE, format_ldouble },
};
enum { FORMATS = sizeof (formats) / sizeof (formats[0]) };

static int
mr_type_of (const mt_t * mt)
{
  if (mt->kind == MK_BITF)
    mt = mt->elem;
  switch (mt->kind)
    {
    case MK_INT:
      switch (mt->bits)
	{
	case 8: return (mt->is_signed ? MR_TYPE_INT8 : MR_TYPE_UINT8);
	case 16: return (mt->is_signed ? MR_TYPE_INT16 : MR_TYPE_UINT16);
	case 32: return (mt->is_signed ? MR_TYPE_INT32 : MR_TYPE_UINT32);
	case 64: return (mt->is_signed ? MR_TYPE_INT64 : MR_TYPE_UINT64);
	default: return (mt->is_signed ? MR_TYPE_INT128 : MR_TYPE_UINT128);
	}
    case MK_FLOAT: return (MR_TYPE_FLOAT);
    case MK_DOUBLE: return (MR_TYPE_DOUBLE);
    case MK_LDOUBLE: return (MR_TYPE_LONG_DOUBLE);
    default: return (MR_TYPE_NONE);
    }
}

static void
count_types (const mcell_t * c, void * ctx)
{
  ++((unsigned *)ctx)[mr_type_of (c->mt)];
}

void
p_output_formats (void)
{
  static const char * const main_roots[] = { "c_scalars_t", "c_bits_t", "c_pbits_t", "c_odd_t", "c_arrays_t" };
  mgraph_t g;
  gopt_t opt = gopt_default ();
  case_begin ();
  memset (mr_conf.output_format, 0, sizeof (mr_conf.output_format));
  opt.null = 100; /* no pointers: every value has one place */
  const mops_t * o = pbt_chance (1, 2) ? root_by_name (PBT_PICK (main_roots)) : pick_scalars ();
  gen_on (o, &g, &opt);
  unsigned cells[MR_TYPE_LAST] = { 0 };
  model_walk (o->mt, g.root, count_types, cells);
  F.fmt = pick_text ();
  if (F.fmt == F_XML2 && graph_ctrl_chars (&g) > 0)
    F.fmt = F_XML1;
  int set = 0;
  memset (F.calls, 0, sizeof (F.calls));
  for (int i = 0; i < FORMATS; ++i)
    {
      mr_type_t t = formats[i].type;
      F.style[t] = pbt_draw (4);
      if (pbt_draw (3))
	{
	  mr_conf.output_format[t] = formats[i].fn;
	  set += cells[t] > 0;
	  pbt_note ("values of type %d have format %d\n", (int)t, F.style[t]);
	}
    }
  round_trip (o, &g, F.fmt);
  for (int i = 0; i < FORMATS; ++i)
    {
      mr_type_t t = formats[i].type;
      if (mr_conf.output_format[t])
	PBT_CHECK (F.calls[t] >= cells[t], "not-used", "the format of type %d is used %u times for %u values", (int)t, F.calls[t], cells[t]);
    }
  memset (mr_conf.output_format, 0, sizeof (mr_conf.output_format));
  pbt_label ("%d formats in use", set);
  graph_free (&g);
}

/* ------------------------------------------------------------------ P02 */
void
p_strings (void)
{
  static const char * const main_roots[] = { "c_strings_t", "c_strings_t", "string_t", "ca16_t", "char" };
  mgraph_t g;
  gopt_t opt = gopt_default ();
  case_begin ();
  opt.budget = 6;
  opt.str_mode = 1 + (int)pbt_draw (31);
  opt.no_full_chararr = pbt_chance (1, 2);
  if (pbt_chance (1, 20))
    opt.str_max = 3000;
  const mops_t * o = root_by_name (PBT_PICK (main_roots));
  if (pbt_chance (1, 5))
    for (int i = 0; i < 100; ++i)
      {
	o = pick_root ();
	if (content (o->mt, 0) & HAS_STRING)
	  break;
      }
  gen_on (o, &g, &opt);
  bool io = inside_out (&g);
  if (io)
    pbt_reject ();
  skip_prefix_overlap (&g, false);
  mfmt_t f = pick_text ();
  if (f == F_XML2 && graph_ctrl_chars (&g))
    {
      pbt_count ("excluded: XML 1.0 has no such characters", 1);
      f = F_XML1;
    }
  if (f == F_XML2 && graph_high_bytes (&g))
    {
      pbt_count ("known finding: bytes above 127 not loaded with XML2", 1);
      f = F_XML1;
    }
  if (f == F_YAML && graph_bad_utf8 (&g))
    {
      /* KNOWN FINDING yaml-bytes: the library refuses to save such strings; it has to do this cleanly */
      mbuf_t b = o->save (f, g.root);
      if (!b.ptr)
	{
	  pbt_count ("known finding: strings that are not UTF-8 refused by YAML", 1);
	  check_no_leak ("leak", "refused save");
	  PBT_CHECK (arena_changed (&g.arena) < 0, "save-alters", "refused save altered the source");
	  f = F_SCM;
	}
      else
	buf_free (&b);
    }
  round_trip (o, &g, f);
  graph_free (&g);
}
