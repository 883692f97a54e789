/* P24: texts written by hand - members in any order, omitted, positional, in free layout - give the object they describe; wrong ones are refused. */
#define _GNU_SOURCE
#include "text.h"
#include <complex.h>
#include <ctype.h>

typedef struct out_t { char * s; size_t n, alloc; mfmt_t f; int depth; unsigned features; } out_t;
enum { FT_ORDER = 1, FT_OMIT = 2, FT_POS = 4, FT_SPACE = 8, FT_COMMENT = 16, FT_SPELL = 32, FT_NOSIZE = 64 };

static void __attribute__ ((format (printf, 2, 3)))
put (out_t * o, const char * fmt, ...)
{
  char buf[512];
  va_list args;
  va_start (args, fmt);
  int n = vsnprintf (buf, sizeof (buf), fmt, args);
  va_end (args);
  if (o->n + n + 1 > o->alloc)
    {
      o->alloc = 2 * (o->n + n + 1);
      o->s = realloc (o->s, o->alloc);
    }
  memcpy (o->s + o->n, buf, n + 1);
  o->n += n;
}

/* ---------------------------------------------------------------- values */
static bool
plain_yaml (const char * s)
{
  if (!isalpha ((unsigned char)*s))
    return (false);
  for (const char * p = s; *p; ++p)
    if (!isalnum ((unsigned char)*p) && *p != '_')
      return (false);
  static const char * const words[] = { "null", "true", "false", "yes", "no", "on", "off", "y", "n" };
  for (size_t i = 0; i < sizeof (words) / sizeof (words[0]); ++i)
    if (!strcasecmp (s, words[i]))
      return (false);
  return (true);
}

static void
put_string (out_t * o, const char * s, size_t len)
{
  bool spell = pbt_chance (1, 4);
  switch (o->f)
    {
    case F_XML1: case F_XML2:
      for (size_t i = 0; i < len; ++i)
	{
	  unsigned char c = s[i];
	  bool edge = (i == 0 || i + 1 == len) && isspace (c);
	  if (edge || c < ' ' || c == '&' || c == '<' || c == '>' || (spell && pbt_chance (1, 4)))
	    {
	      o->features |= FT_SPELL;
	      if (c == '&' && pbt_chance (1, 2)) put (o, "&amp;");
	      else if (c == '<' && pbt_chance (1, 2)) put (o, "&lt;");
	      else if (c == '>' && pbt_chance (1, 2)) put (o, "&gt;");
	      else put (o, "&#x%x;", c);
	    }
	  else
	    put (o, "%c", c);
	}
      return;
    case F_YAML:
      {
	char buf[300];
	if (len < sizeof (buf))
	  {
	    memcpy (buf, s, len);
	    buf[len] = 0;
	    if (plain_yaml (buf) && pbt_chance (1, 2))
	      {
		put (o, "%s", buf);
		return;
	      }
	  }
	bool single = pbt_chance (1, 2);
	for (size_t i = 0; i < len; ++i)
	  if (s[i] == '\n' || s[i] == '\t' || s[i] < ' ')
	    single = false;
	if (single)
	  {
	    o->features |= FT_SPELL;
	    put (o, "'");
	    for (size_t i = 0; i < len; ++i)
	      put (o, s[i] == '\'' ? "''" : "%c", s[i]);
	    put (o, "'");
	    return;
	  }
	put (o, "\"");
	for (size_t i = 0; i < len; ++i)
	  {
	    unsigned char c = s[i];
	    if (c == '"' || c == '\\') put (o, "\\%c", c);
	    else if (c == '\n') put (o, "\\n");
	    else if (c < ' ' || (spell && pbt_chance (1, 4))) put (o, "\\x%02x", c);
	    else put (o, "%c", c);
	  }
	put (o, "\"");
	return;
      }
    default:
      put (o, "\"");
      for (size_t i = 0; i < len; ++i)
	{
	  unsigned char c = s[i];
	  if (c == '"' || c == '\\') put (o, "\\%c", c);
	  else if (c < ' ' || (spell && pbt_chance (1, 4)))
	    {
	      o->features |= FT_SPELL;
	      if (o->f == F_CINIT) put (o, "\\%03o", c);
	      else if (o->f == F_JSON) put (o, "\\u%04x", c);
	      else if (c == '\n') put (o, "\\n");
	      else if (c == '\t') put (o, "\\t");
	      else put (o, "%c", c);
	    }
	  else put (o, "%c", c);
	}
      put (o, "\"");
      return;
    }
}

static void
put_int (out_t * o, const mt_t * mt, u128 x)
{
  bool is_signed = mt->is_signed;
  if (o->f == F_CINIT && pbt_chance (1, 4))
    {
      o->features |= FT_SPELL;
      if (is_signed && (i128)x < 0)
	{
	  put (o, "-");
	  x = -x;
	}
      if (x >> 64)
	put (o, "0x%llx%016llx", (unsigned long long)(x >> 64), (unsigned long long)x);
      else if (pbt_chance (1, 3))
	put (o, "0%llo", (unsigned long long)x);
      else
	put (o, pbt_chance (1, 2) ? "0x%llx" : "0X%llX", (unsigned long long)x);
      return;
    }
  if (o->f == F_CINIT && pbt_chance (1, 10) && !(is_signed && (i128)x < 0) && x < 1000)
    {
      unsigned y = pbt_draw (5);
      o->features |= FT_SPELL;
      put (o, "(%u + %u) - %u", (unsigned)x, y, y);
      return;
    }
  put (o, "%s", u128_str (x, is_signed));
}

/* text of a word in the way of the format */
static void
put_word (out_t * o, const char * w)
{
  put (o, (o->f == F_JSON || o->f == F_SCM) ? "\"%s\"" : "%s", w);
}

static void
put_leaf (out_t * o, const dn_t * d)
{
  const mt_t * mt = d->mt, * et = mt;
  switch (mt->kind)
    {
    case MK_BITF: case MK_INT: case MK_ENUM: case MK_BOOL: case MK_CHAR:
      {
	u128 x = cell_int (mt, d->addr, d->base);
	if (mt->kind == MK_BITF)
	  et = mt->elem;
	if (et->kind == MK_BOOL && pbt_chance (3, 4))
	  put (o, "%s", o->f == F_SCM ? (x ? "t" : "nil") : (x ? "true" : "false"));
	else if (et->kind == MK_ENUM && pbt_chance (3, 4))
	  {
	    for (int i = 0; i < et->nev; ++i)
	      if ((u128)(i128)et->ev[i].value == (et->is_signed ? x : (u128)(i128)(int64_t)x))
		{
		  put_word (o, et->ev[i].name);
		  return;
		}
	    put_int (o, mt, x);
	  }
	else if (mt->kind == MK_CHAR)
	  {
	    unsigned char c = *d->addr;
	    if (!isalnum (c) || (isdigit (c) && o->f != F_CINIT && o->f != F_JSON && o->f != F_SCM) || pbt_chance (1, 5))
	      {
		switch (o->f)
		  {
		  case F_CINIT: put (o, pbt_chance (1, 2) ? "%d" : "'\\%03o'", c); break;
		  case F_JSON: case F_SCM: put (o, "%d", c); break;
		  case F_YAML: put (o, "\"\\x%02x\"", c); break;
		  default:
		    if (c >= 127 || (o->f == F_XML2 && c && c < ' ' && !isspace (c)) || c == '\v' || c == '\f')
		      pbt_reject ();
		    if (c)
		      put (o, "&#x%x;", c);
		    break;
		  }
		o->features |= FT_SPELL;
	      }
	    else
	      put (o, o->f == F_CINIT ? "'%c'" : o->f == F_JSON ? "\"%c\"" : o->f == F_SCM ? "#\\%c" : "%c", c);
	  }
	else
	  put_int (o, mt, x);
	return;
      }
    case MK_FLOAT: put (o, pbt_chance (1, 2) ? "%.9g" : "%.12e", *(float *)d->addr); return;
    case MK_DOUBLE: put (o, pbt_chance (1, 2) ? "%.17g" : "%.20e", *(double *)d->addr); return;
    case MK_LDOUBLE:
      {
	long double x;
	memcpy (&x, d->addr, sizeof (x));
	put (o, pbt_chance (1, 2) ? "%.21Lg" : "%.24Le", x);
	return;
      }
    case MK_CFLOAT: case MK_CDOUBLE: case MK_CLDOUBLE:
      {
	long double re, im;
	if (mt->kind == MK_CFLOAT) { float x[2]; memcpy (x, d->addr, sizeof (x)); re = x[0]; im = x[1]; }
	else if (mt->kind == MK_CDOUBLE) { double x[2]; memcpy (x, d->addr, sizeof (x)); re = x[0]; im = x[1]; }
	else { long double x[2]; memcpy (x, d->addr, sizeof (x)); re = x[0]; im = x[1]; }
	int digits = mt->kind == MK_CFLOAT ? 9 : mt->kind == MK_CDOUBLE ? 17 : 21;
	char buf[200];
	if (im == 0 && pbt_chance (1, 2))
	  snprintf (buf, sizeof (buf), "%.*Lg", digits, re);
	else
	  snprintf (buf, sizeof (buf), "%.*Lg + %.*LgI", digits, re, digits, im);
	if (o->f == F_JSON || (o->f == F_SCM && strchr (buf, 'I')))
	  put (o, "\"%s\"", buf);
	else
	  put (o, "%s", buf);
	return;
      }
    default:
      pbt_reject ();
    }
}

/* ---------------------------------------------------------------- layout */
static void
space (out_t * o)
{
  static const char * const sp[] = { "", " ", "\n", "\t", "  ", " \n ", "\r\n" };
  if (o->f == F_YAML)
    {
      put (o, pbt_chance (1, 4) ? "  " : " ");
      return;
    }
  unsigned k = pbt_draw (sizeof (sp) / sizeof (sp[0]));
  if (k)
    o->features |= FT_SPACE;
  if (o->f == F_SCM)
    { /* blanks separate elements of lists */
      put (o, "%s", k ? sp[k] : " ");
      return;
    }
  put (o, "%s", sp[k]);
  if (o->f == F_CINIT && pbt_chance (1, 12))
    {
      static const char * const c[] = { "/* c */", "/**/", "/* .x = 1 */", "/***/", "/* a\n * b\n */", "/* \" */", "/* ' */" };
      put (o, "%s", PBT_PICK (c));
      o->features |= FT_COMMENT;
    }
  if (o->f == F_XML2 && pbt_chance (1, 12))
    {
      static const char * const c[] = { "<!-- c -->", "<!-- <x>1</x> -->", "<?pi data?>" };
      put (o, "%s", PBT_PICK (c));
      o->features |= FT_COMMENT;
    }
}

static void
yaml_line (out_t * o)
{
  if (pbt_chance (1, 16))
    {
      put (o, " # comment: [ {");
      o->features |= FT_COMMENT;
    }
  put (o, "\n");
  for (int i = 0; i < o->depth; ++i)
    put (o, "  ");
}

/* what has to be wrong in the text */
typedef enum bad_t { BAD_NONE, BAD_MEMBER, BAD_EXCESS, BAD_WORD, BAD_LAST } bad_t;
typedef struct plan_t { bad_t bad; int at, seen; bool done; const char * what; } plan_t;

static bool
bad_here (plan_t * P, bad_t bad)
{
  if (P->bad != bad || P->done)
    return (false);
  if (P->seen++ != P->at)
    return (false);
  P->done = true;
  return (true);
}

static bool
sound_order (const dn_t * d) /* members may be moved, omitted */
{
  for (int i = 0; i < d->n; ++i)
    if (d->k[i].mf->flags & MF_ANON)
      return (false);
  return (true);
}

static void
zero (const dn_t * d)
{
  if (d->mt->kind == MK_BITF)
    d->mt->set (d->base, 0);
  else
    memset (d->addr, 0, msize (d->mt));
}

static bool
void_size (const mt_t * st, const mf_t * mf)
{
  return (mf->size_field && (st->f[mf->size_field - 1].flags & MF_VOID));
}

static void put_node (out_t * o, dn_t * d, plan_t * P, const char * tag, const char * attr);

static void
put_rec (out_t * o, dn_t * d, plan_t * P)
{
  int n = 0, idx[d->n + 1];
  bool free_form = sound_order (d) && d->mt->kind == MK_STRUCT;
  if (!free_form && o->f != F_CINIT && o->f != F_SCM)
    {
      for (int i = 0; i < d->n; ++i)
	if (d->k[i].mf->flags & MF_ANON)
	  pbt_reject ();
    }
  for (int i = 0; i < d->n; ++i)
    {
      dn_t * k = &d->k[i];
      if (free_form && pbt_chance (1, 6) && !k->fixed)
	{
	  if ((k->mf->flags & MF_SIZE) && k->mt->kind != MK_PTR)
	    { /* size of a dynamic array is known by its elements */
	      bool drop = true;
	      int users = 0;
	      for (int j = 0; j < d->n; ++j)
		if (d->k[j].size && d->k[j].size == k->mf)
		  {
		    ++users;
		    if (d->k[j].kind != D_LIST || !d->k[j].ptr)
		      drop = false;
		    else
		      {
			size_t sz = msize (d->k[j].mt->elem);
			if (cell_int (k->mt, k->addr, k->base) != (u128)sz * d->k[j].n)
			  drop = false;
			for (int m = 0; m < n; ++m) /* not if the array itself is omitted */
			  ;
		      }
		  }
	      if (drop && users == 1)
		{
		  k->mt = k->mt;
		  for (int j = 0; j < d->n; ++j)
		    if (d->k[j].size == k->mf)
		      d->k[j].fixed = true; /* has to be present; it precedes or follows the size */
		  bool there = false;
		  for (int j = 0; j < i; ++j)
		    if (d->k[j].size == k->mf)
		      {
			for (int m = 0; m < n; ++m)
			  there |= (idx[m] == j);
		      }
		  for (int j = i + 1; j < d->n; ++j)
		    there |= (d->k[j].size == k->mf);
		  if (there)
		    {
		      o->features |= FT_NOSIZE;
		      continue;
		    }
		}
	    }
	  else if (!void_size (d->mt, k->mf))
	    {
	      zero (k);
	      o->features |= FT_OMIT;
	      continue;
	    }
	}
      idx[n++] = i;
    }
  bool xml = o->f == F_XML1 || o->f == F_XML2;
  /* leading members without names */
  int pos = 0;
  if (free_form && !xml && pbt_chance (1, 4) && P->bad != BAD_MEMBER)
    {
      int lim = 0;
      while (lim < n && idx[lim] == lim && lim < d->mt->nf && !(d->mt->f[lim].flags & (MF_VOID | MF_ANON)) && d->mt->f[lim].type->kind != MK_UNION
	     && msize (d->mt->f[lim].type) > 0 && &d->mt->f[lim] == d->k[lim].mf)
	++lim;
      pos = lim;
      if (o->f == F_JSON || o->f == F_YAML)
	{ /* a list has no names at all: other members are omitted */
	  bool ok = lim > 0;
	  for (int i = lim; i < n && ok; ++i)
	    ok = false;
	  if (!ok)
	    pos = 0;
	}
      else if (pos)
	pos = 1 + (int)pbt_draw (pos);
      if (pos)
	o->features |= FT_POS;
    }
  if (free_form)
    for (int i = pos; i < n; ++i)
      {
	int j = i + (int)pbt_draw (n - i);
	if (j != i)
	  {
	    int t = idx[i];
	    idx[i] = idx[j];
	    idx[j] = t;
	    o->features |= FT_ORDER;
	  }
      }
  bool anon = false; /* a member with any name can stand for an anonymous one */
  for (int i = 0; i < d->mt->nf; ++i)
    anon |= !!(d->mt->f[i].flags & MF_ANON);
  int extra = !anon && bad_here (P, BAD_MEMBER) ? (int)pbt_draw (n + 1) : -1;
  static const char * const wrong[] = { "zz_nosuch", "no_such_member", "bf_none" };
  const char * wn = extra >= 0 ? PBT_PICK (wrong) : NULL;
  if (extra >= 0 && pbt_chance (1, 2))
    { /* a member of another type */
      static const char * const other[] = { "next", "kids_size", "rs_size", "chars", "pca", "d11", "tag", "peer" };
      wn = PBT_PICK (other);
      for (int i = 0; i < d->mt->nf; ++i)
	if (!strcmp (d->mt->f[i].name, wn))
	  wn = "zz_nosuch";
    }
  if (extra >= 0)
    P->what = wn;
  bool over = pos > 0 && extra < 0 && pos == n && n == d->mt->nf && bad_here (P, BAD_EXCESS);
  if (over)
    P->what = "a positional member too many";
  int total = n + (extra >= 0 || over), j = 0;
  bool list = pos && (o->f == F_JSON || o->f == F_YAML);
  switch (o->f)
    {
    case F_CINIT: put (o, "{"); break;
    case F_JSON: put (o, list ? "[" : "{"); break;
    case F_SCM: put (o, "("); break;
    default: break;
    }
  if (o->f == F_YAML && total == 0)
    put (o, " {}");
  for (int i = 0; i < total; ++i)
    {
      bool bad = (i == extra) || (over && i == n);
      dn_t * k = bad ? NULL : &d->k[idx[j]];
      bool named = bad ? !over : !(j < pos || (k->mf->flags & MF_ANON));
      const char * name = bad ? wn : k->mf->name;
      if (o->f == F_YAML)
	yaml_line (o);
      else
	space (o);
      switch (o->f)
	{
	case F_CINIT:
	  if (named) { put (o, ".%s", name); space (o); put (o, "="); space (o); }
	  break;
	case F_JSON:
	  if (named) { put (o, "\"%s\"", name); space (o); put (o, ":"); space (o); }
	  break;
	case F_YAML:
	  put (o, named ? "%s:" : "-", name);
	  break;
	case F_SCM:
	  if (named) { put (o, "(%s . ", name); }
	  break;
	default: break;
	}
      if (bad)
	{
	  if (xml) put (o, "<%s>1</%s>", name, name);
	  else put (o, o->f == F_YAML ? " 1" : "1");
	}
      else
	{
	  put_node (o, k, P, name, "");
	  ++j;
	}
      if (o->f == F_SCM && named)
	put (o, ")");
      if ((o->f == F_CINIT || o->f == F_JSON) && i + 1 < total)
	{
	  space (o);
	  put (o, ",");
	}
      if (o->f == F_CINIT && i + 1 == total && pbt_chance (1, 4))
	put (o, ",");
    }
  if (o->f != F_YAML)
    space (o);
  switch (o->f)
    {
    case F_CINIT: put (o, "}"); break;
    case F_JSON: put (o, list ? "]" : "}"); break;
    case F_SCM: put (o, ")"); break;
    default: break;
    }
}

static void
put_list (out_t * o, dn_t * d, plan_t * P, const char * tag)
{
  int extra = (!d->ptr && d->mt->kind == MK_ARRAY && d->mt->count > 0 && d->n == (int)d->mt->count && bad_here (P, BAD_EXCESS)) ? 1 : 0;
  if (extra)
    P->what = "an element too many";
  switch (o->f)
    {
    case F_CINIT: put (o, "{"); break;
    case F_JSON: put (o, "["); break;
    case F_SCM: put (o, "("); break;
    default: break;
    }
  if (o->f == F_YAML && d->n == 0)
    put (o, " []");
  size_t from = 0, len = 0;
  for (int i = 0; i < d->n + extra; ++i)
    {
      if (o->f == F_YAML)
	{
	  yaml_line (o);
	  put (o, "-");
	}
      else
	space (o);
      if (i < d->n)
	{
	  from = o->n;
	  put_node (o, &d->k[i], P, tag, "");
	  len = o->n - from;
	}
      else
	{ /* the last element once more */
	  char * copy = strndup (&o->s[from], len);
	  for (char * p = copy; *p; p += strnlen (p, 100))
	    put (o, "%.100s", p);
	  free (copy);
	}
      if ((o->f == F_CINIT || o->f == F_JSON) && i + 1 < d->n + extra)
	{
	  space (o);
	  put (o, ",");
	}
    }
  if (o->f != F_YAML)
    space (o);
  switch (o->f)
    {
    case F_CINIT: put (o, "}"); break;
    case F_JSON: put (o, "]"); break;
    case F_SCM: put (o, ")"); break;
    default: break;
    }
}

static void
put_null (out_t * o)
{
  static const char * const w[] = { [F_CINIT] = "NULL", [F_JSON] = "null", [F_YAML] = "*isnull", [F_SCM] = "nil" };
  put (o, "%s", w[o->f]);
}

static void
put_node (out_t * o, dn_t * d, plan_t * P, const char * tag, const char * attr)
{
  bool xml = o->f == F_XML1 || o->f == F_XML2;
  bool leaf = d->kind == D_LEAF || d->kind == D_STR || d->kind == D_NULL;
  if (xml)
    {
      static const char * const sp[] = { "", " ", "\n", "\t " };
      if (d->kind == D_NULL)
	{
	  put (o, "<%s%s%sisnull%s=%s\"true\"%s%s>", tag, attr, pbt_chance (1, 4) ? "\n\t" : " ", PBT_PICK (sp), PBT_PICK (sp), PBT_PICK (sp), "/");
	  return;
	}
      put (o, "<%s%s%s>", tag, attr, PBT_PICK (sp));
    }
  else if (o->f == F_YAML)
    {
      if (leaf)
	space (o);
      else
	++o->depth;
    }
  if (d->kind == D_LEAF && (d->mt->kind == MK_INT || d->mt->kind == MK_ENUM || d->mt->kind == MK_DOUBLE || d->mt->kind == MK_FLOAT) && bad_here (P, BAD_WORD))
    {
      static const char * const w[] = { "nosuchword", "zzz_9", "xyzzy" };
      P->what = PBT_PICK (w);
      put (o, o->f == F_JSON || o->f == F_SCM ? "\"%s\"" : "%s", P->what);
    }
  else
    switch (d->kind)
      {
      case D_LEAF: put_leaf (o, d); break;
      case D_STR:
	if (d->mt->kind == MK_STRING)
	  put_string (o, *(char **)d->addr, strlen (*(char **)d->addr));
	else
	  put_string (o, d->addr, strnlen (d->addr, msize (d->mt)));
	break;
      case D_NULL: put_null (o); break;
      case D_REC: put_rec (o, d, P); break;
      case D_LIST: put_list (o, d, P, tag); break;
      }
  if (xml)
    {
      if (!leaf)
	space (o);
      put (o, "</%s%s>", tag, pbt_chance (1, 8) ? " " : "");
    }
  else if (o->f == F_YAML && !leaf)
    --o->depth;
}

void
p_layout (void)
{
  case_begin ();
  const mops_t * m = pick_root ();
  gopt_t opt = pick_opt ();
  opt.alias = 0;
  opt.no_tptr = opt.no_str_alias = opt.no_voidptr = opt.no_funcs = opt.no_nan = opt.no_inf = opt.no_interior = opt.no_overlap = true;
  opt.str_mode = STR_ASCII;
  opt.str_max = 12;
  mgraph_t g;
  graph_gen (&g, m->mt, &opt);
  out_t o = { .f = pick_text () };
  plan_t P = { BAD_NONE };
  if (pbt_chance (1, 4))
    {
      P.bad = 1 + (bad_t)pbt_draw (BAD_LAST - 1);
      P.at = pbt_draw (6);
    }
  dn_t * t = model_tree (m->mt, g.root);
  bool xml = o.f == F_XML1 || o.f == F_XML2;
  if (t->kind != D_REC)
    pbt_reject ();
  if (o.f == F_YAML)
    put (&o, "---");
  if (xml)
    {
      put (&o, "<?xml version=\"1.0\"?>");
      space (&o);
    }
  if (o.f == F_YAML)
    {
      o.depth = 0;
      put_rec (&o, t, &P);
      put (&o, "\n");
      if (pbt_chance (1, 2))
	put (&o, "...\n");
    }
  else
    {
      if (!xml && o.f != F_SCM)
	space (&o);
      put_node (&o, t, &P, m->name, "");
      if (!xml)
	space (&o);
    }
  tree_free (t);
  pbt_note ("%s %s text, features %x%s%s", m->name, fmt_name[o.f], o.features, P.done ? ", has to be refused: " : "", P.done ? P.what : "");
  pbt_note_bytes ("text", o.s, o.n);
  mbuf_t b = { o.s, o.n, o.alloc };
  void * d = obj_alloc (m->mt, 0x5a);
  uint64_t h = pbt_hash (o.f, o.s, o.n);
  int ok = m->load (o.f, &b, d);
  const char * sig[] = { "", "member", "excess", "word" };
  char s[120];
  if (P.done)
    {
      snprintf (s, sizeof (s), "accepted %s %s", sig[P.bad], fmt_name[o.f]);
      PBT_CHECK (!ok, s, "%s text of %s with %s is accepted", fmt_name[o.f], m->name, P.what);
      check_no_leak ("leak-after-failure", "refused text");
      pbt_label ("refused %s", sig[P.bad]);
      pbt_nontrivial (h);
      free (d);
    }
  else
    {
      snprintf (s, sizeof (s), "refused %s", fmt_name[o.f]);
      PBT_CHECK (ok, s, "%s text of %s is refused", fmt_name[o.f], m->name);
      meq_t eq = { .text = true, .numeric = true };
      snprintf (s, sizeof (s), "differs %s", fmt_name[o.f]);
      PBT_CHECK (model_eq (m->mt, g.root, d, &eq), s, "%s text of %s gives another object: %s", fmt_name[o.f], m->name, eq.why);
      free_loaded_text (m, d);
      check_no_leak ("leak", "loading and releasing");
      static const char * const ft[] = { "order", "omitted", "positional", "space", "comment", "spelling", "size omitted" };
      for (int i = 0; i < 7; ++i)
	if (o.features & (1 << i))
	  pbt_label ("%s", ft[i]);
      pbt_label ("format %s", fmt_name[o.f]);
      if (o.features & (FT_ORDER | FT_OMIT | FT_POS | FT_NOSIZE))
	pbt_nontrivial (h);
    }
  free (o.s);
  graph_free (&g);
}
