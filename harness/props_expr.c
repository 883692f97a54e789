/* P15: values of literals and expressions are the values that C gives to them. */
#define _GNU_SOURCE
#include "text.h"
#include <math.h>
#include <complex.h>
#include <ctype.h>

/* ---------------------------------------------------------------- tokens */
enum { T_NUM, T_ID, T_OP, T_LP, T_RP, T_BAD };
typedef enum vk_t { V_INT, V_FLOAT, V_CPLX } vk_t;
typedef struct val_t { vk_t k; i128 i; long double re, im, err; } val_t;
typedef struct tok_t { int kind; char op; char text[64]; val_t v; bool known; } tok_t;
#define MAX_TOK 200
typedef struct toks_t { tok_t t[MAX_TOK]; int n; } toks_t;

static void
tok_add (toks_t * ts, tok_t t)
{
  if (ts->n >= MAX_TOK)
    pbt_reject ();
  ts->t[ts->n++] = t;
}

static tok_t
tok_op (char op)
{
  tok_t t = { .kind = (op == '(') ? T_LP : (op == ')') ? T_RP : T_OP, .op = op };
  t.text[0] = op;
  return (t);
}

static char *
digits_of (u128 x, int base, bool upper)
{
  static char buf[8][140];
  static int k;
  char * p = &buf[k = (k + 1) % 8][139];
  *p = 0;
  do
    *--p = (upper ? "0123456789ABCDEF" : "0123456789abcdef")[(int)(x % base)];
  while (x /= base);
  return (p);
}

static int
spell_int (char * dst, size_t size, u128 x)
{
  switch (pbt_draw (6))
    {
    case 0: case 1: case 2: return (snprintf (dst, size, "%s", digits_of (x, 10, false)));
    case 3: return (snprintf (dst, size, "0x%s", digits_of (x, 16, false)));
    case 4: return (snprintf (dst, size, "0X%s", digits_of (x, 16, true)));
    default: return (snprintf (dst, size, "0%s", digits_of (x, 8, false)));
    }
}

static char *
spell_float (char * s)
{
  char * p = s;
  int d = 1 + (int)pbt_draw (6);
  for (int i = 0; i < d; ++i)
    *p++ = (i == 0 && d > 1) ? '1' + (int)pbt_draw (9) : '0' + (int)pbt_draw (10);
  bool dot = pbt_chance (2, 3);
  if (dot)
    {
      *p++ = '.';
      d = (int)pbt_draw (9);
      for (int i = 0; i < d; ++i)
	*p++ = '0' + (int)pbt_draw (10);
    }
  if (!dot || pbt_chance (1, 3))
    {
      *p++ = pbt_chance (1, 2) ? 'E' : 'e';
      if (pbt_chance (2, 3))
	*p++ = pbt_chance (1, 2) ? '-' : '+';
      p += sprintf (p, "%d", (int)pbt_draw (pbt_chance (1, 4) ? 30 : 4));
    }
  *p = 0;
  return (p);
}

typedef struct id_t_ { const char * name; i128 value; } id_t_;

static id_t_
pick_id (void)
{
  static const mt_t * enums[80];
  static int n = -1;
  if (n < 0)
    for (n = 0; core_types[n] && n < 79; ++n)
      ;
  static int ne;
  if (!ne)
    for (int i = 0; i < n; ++i)
      if (core_types[i]->kind == MK_ENUM && core_types[i]->nev)
	enums[ne++] = core_types[i];
  const mt_t * mt = enums[pbt_draw (ne)];
  int k = pbt_draw (mt->nev);
  id_t_ r = { mt->ev[k].name, mt->is_signed ? mt->ev[k].value : (i128)(uint64_t)mt->ev[k].value };
  return (r);
}

static void
gen_operand (toks_t * ts)
{
  tok_t t = { .kind = T_NUM, .known = true };
  switch (pbt_draw (10))
    {
    case 0: case 1: case 2: case 3:
      {
	unsigned long long x = pbt_chance (1, 3) ? pbt_draw (0) >> pbt_draw (64) : pbt_draw (12);
	spell_int (t.text, sizeof (t.text), x);
	t.v.i = x;
	break;
      }
    case 4: case 5:
      spell_float (t.text);
      t.v.k = V_FLOAT;
      t.v.re = strtold (t.text, NULL);
      break;
    case 6:
      {
	char * e = t.text;
	t.v.k = V_CPLX;
	if (pbt_chance (1, 4))
	  t.v.im = 1;
	else
	  {
	    if (pbt_chance (1, 2))
	      e += sprintf (e, "%d", (int)pbt_draw (20));
	    else
	      e = spell_float (e);
	    t.v.im = strtold (t.text, NULL);
	  }
	*e++ = pbt_chance (1, 2) ? 'I' : 'i';
	*e = 0;
	break;
      }
    case 7: case 8:
      {
	id_t_ id = pick_id ();
	if (strlen (id.name) >= sizeof (t.text))
	  pbt_reject ();
	strcpy (t.text, id.name);
	t.v.i = id.value;
	t.kind = T_ID;
	break;
      }
    default:
      {
	static const struct { const char * s; int v; } w[] = { { "true", 1 }, { "false", 0 }, { "TRUE", 1 }, { "FALSE", 0 } };
	int k = pbt_draw (4);
	strcpy (t.text, w[k].s);
	t.v.i = w[k].v;
	t.kind = T_ID;
	break;
      }
    }
  tok_add (ts, t);
}

static int
prec (char op)
{
  switch (op)
    {
    case '|': return (1);
    case '^': return (2);
    case '&': return (3);
    case '+': case '-': return (4);
    case '*': case '/': case '%': return (5);
    default: return (0);
    }
}

/* random token sequence of a correct expression; parentheses are independent of what is needed */
static void
gen_expr (toks_t * ts, int depth)
{
  unsigned c = depth <= 0 ? 0 : pbt_draw (8);
  if (c == 0)
    gen_operand (ts);
  else if (c == 1)
    {
      tok_add (ts, tok_op (pbt_chance (1, 3) ? '+' : '-'));
      gen_expr (ts, depth - 1);
    }
  else if (c == 2)
    {
      tok_add (ts, tok_op ('('));
      gen_expr (ts, depth - 1);
      tok_add (ts, tok_op (')'));
    }
  else
    {
      static const char ops[] = "+-*+-*/%|&^";
      gen_expr (ts, depth - 1);
      tok_add (ts, tok_op (ops[pbt_draw (sizeof (ops) - 1)]));
      gen_expr (ts, depth - 1);
    }
}

static void
mutate (toks_t * ts)
{
  int i = ts->n ? pbt_draw (ts->n) : 0;
  switch (pbt_draw (5))
    {
    case 0:
      if (ts->n)
	memmove (&ts->t[i], &ts->t[i + 1], (--ts->n - i) * sizeof (ts->t[0]));
      break;
    case 1:
      if (ts->n && ts->n < MAX_TOK)
	{
	  memmove (&ts->t[i + 1], &ts->t[i], (ts->n++ - i) * sizeof (ts->t[0]));
	}
      break;
    case 2:
      if (ts->n > 1)
	{
	  int j = pbt_draw (ts->n);
	  tok_t t = ts->t[i]; ts->t[i] = ts->t[j]; ts->t[j] = t;
	}
      break;
    case 3:
      if (ts->n)
	{
	  tok_t t = { .kind = T_BAD };
	  static const char * const bad[] = { "undefined_name", "08", "0779", "$", "~", "!", "1.2.3", "0x", "0xg", "5u", "@", "#1", "]", "1e", "_", "1..", "7f" };
	  strcpy (t.text, PBT_PICK (bad));
	  ts->t[i] = t;
	}
      break;
    default:
      if (ts->n)
	ts->t[i] = tok_op ("+-*/%|&^()"[pbt_draw (10)]);
      break;
    }
}

/* ---------------------------------------------------------------- evaluator */
typedef struct ev_t { const toks_t * ts; int pos; bool bad; int ops; unsigned kinds; } ev_t;
#define EPS 2e-19L
#define CEPS 1e-17L

static val_t
to_kind (val_t v, vk_t k)
{
  if (v.k == V_INT && k > V_INT)
    {
      v.re = v.i;
      v.im = 0;
      v.err = fabsl (v.re) > 0x1p63L ? fabsl (v.re) * EPS : 0;
    }
  v.k = k;
  return (v);
}

static void
bound (const val_t * v)
{
  long double a = hypotl (v->re, v->im);
  if (v->k != V_INT && (!(a < 1e1200L) || (a != 0 && a < 1e-1200L)))
    pbt_reject ();
}

static val_t
binary (ev_t * e, char op, val_t a, val_t b)
{
  val_t r = { 0 };
  if (e->bad)
    return (r);
  ++e->ops;
  vk_t k = a.k > b.k ? a.k : b.k;
  e->kinds |= 1 << k;
  if (op == '%' || op == '|' || op == '&' || op == '^')
    {
      if (k != V_INT || (op == '%' && b.i == 0))
	{
	  e->bad = true;
	  return (r);
	}
      r.i = (op == '%') ? a.i % b.i : (op == '|') ? (a.i | b.i) : (op == '&') ? (a.i & b.i) : (a.i ^ b.i);
      return (r);
    }
  if (k == V_INT)
    {
      bool o = false;
      switch (op)
	{
	case '+': o = __builtin_add_overflow (a.i, b.i, &r.i); break;
	case '-': o = __builtin_sub_overflow (a.i, b.i, &r.i); break;
	case '*': o = __builtin_mul_overflow (a.i, b.i, &r.i); break;
	default:
	  if (b.i == 0)
	    {
	      e->bad = true;
	      return (r);
	    }
	  r.i = a.i / b.i;
	  break;
	}
      if (o)
	pbt_reject (); /* no defined value */
      return (r);
    }
  a = to_kind (a, k);
  b = to_kind (b, k);
  r.k = k;
  long double ma = hypotl (a.re, a.im), mb = hypotl (b.re, b.im);
  switch (op)
    {
    case '+': r.re = a.re + b.re; r.im = a.im + b.im; r.err = a.err + b.err; break;
    case '-': r.re = a.re - b.re; r.im = a.im - b.im; r.err = a.err + b.err; break;
    case '*':
      r.re = a.re * b.re - a.im * b.im;
      r.im = a.re * b.im + a.im * b.re;
      r.err = ma * b.err + mb * a.err + a.err * b.err;
      if (k == V_CPLX)
	r.err += CEPS * ma * mb;
      break;
    default:
      if (mb <= 2 * b.err || (k == V_CPLX && mb == 0))
	{
	  if (mb == 0 && b.err == 0)
	    {
	      e->bad = true;
	      return (r);
	    }
	  pbt_reject (); /* the divisor can not be distinguished from zero */
	}
      long double d = b.re * b.re + b.im * b.im;
      r.re = (k == V_CPLX) ? (a.re * b.re + a.im * b.im) / d : a.re / b.re;
      r.im = (k == V_CPLX) ? (a.im * b.re - a.re * b.im) / d : 0;
      r.err = (a.err + ma / mb * b.err) / (mb - b.err);
      if (k == V_CPLX)
	r.err += CEPS * ma / mb;
      break;
    }
  bool exact = false;
  if (k == V_FLOAT && (op == '+' || op == '-') && a.err == 0 && b.err == 0 && r.re == 0)
    exact = true;
  if (!exact && !(ma == 0 && (op == '*' || op == '/')) && !(mb == 0 && op == '*'))
    r.err += (k == V_CPLX ? CEPS : EPS) * ((op == '+' || op == '-') ? ma + mb : hypotl (r.re, r.im));
  bound (&r);
  return (r);
}

static val_t parse (ev_t * e, int min);

static val_t
primary (ev_t * e)
{
  val_t r = { 0 };
  if (e->bad || e->pos >= e->ts->n)
    {
      e->bad = true;
      return (r);
    }
  const tok_t * t = &e->ts->t[e->pos++];
  switch (t->kind)
    {
    case T_NUM: case T_ID:
      e->kinds |= 1 << t->v.k;
      return (t->v);
    case T_LP:
      r = parse (e, 1);
      if (e->pos >= e->ts->n || e->ts->t[e->pos].kind != T_RP)
	e->bad = true;
      ++e->pos;
      return (r);
    case T_OP:
      if (t->op == '+' || t->op == '-')
	{
	  r = primary (e);
	  ++e->ops;
	  if (t->op == '-')
	    {
	      if (r.k == V_INT && r.i == (i128)((u128)1 << 127))
		pbt_reject ();
	      r.i = -r.i; r.re = -r.re; r.im = -r.im;
	    }
	  return (r);
	}
      __attribute__ ((fallthrough));
    default:
      e->bad = true;
      return (r);
    }
}

static val_t
parse (ev_t * e, int min)
{
  val_t l = primary (e);
  while (!e->bad && e->pos < e->ts->n && e->ts->t[e->pos].kind == T_OP && prec (e->ts->t[e->pos].op) >= min)
    {
      char op = e->ts->t[e->pos++].op;
      val_t r = parse (e, prec (op) + 1);
      if (!e->bad)
	l = binary (e, op, l, r);
    }
  return (l);
}

/* ---------------------------------------------------------------- text */
static int
gap (char * dst, bool needed)
{
  static const char * const g[] = { "", " ", " ", "\n", "\t", "  ", "/* c */", "/**/", "/* * / ** */", "\r\n", " /*\n*/ " };
  const char * s = pbt_chance (1, 3) ? PBT_PICK (g) : " ";
  if (!needed && pbt_chance (1, 2))
    s = "";
  if (needed && !*s)
    s = " ";
  strcpy (dst, s);
  return (strlen (s));
}

static bool
word (char c)
{
  return (isalnum ((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '#' || c == '@' || c == '~' || c == '!');
}

static int
render (char * dst, const toks_t * ts)
{
  char * p = dst;
  p += gap (p, false);
  for (int i = 0; i < ts->n; ++i)
    {
      p += sprintf (p, "%s", ts->t[i].text);
      bool needed = false;
      if (i + 1 < ts->n)
	{
	  char a = p[-1], b = ts->t[i + 1].text[0];
	  /* a division sign and a multiplication sign make a comment; a sign is a part of nan and inf, and of an exponent */
	  needed = (word (a) && word (b)) || a == '/' || b == '*' || ((a == 'e' || a == 'E') && (b == '+' || b == '-'));
	}
      p += gap (p, needed);
    }
  *p = 0;
  return (p - dst);
}

/* name in parentheses is a type cast in this language */
static bool
has_cast (const toks_t * ts)
{
  for (int i = 0; i < ts->n; ++i)
    if (ts->t[i].kind == T_LP)
      {
	int j = i + 1;
	while (j < ts->n && (isalpha ((unsigned char)ts->t[j].text[0]) || ts->t[j].text[0] == '_'))
	  ++j;
	if (j == i + 1)
	  continue;
	if (j < ts->n && ts->t[j].op == '*' && j + 1 < ts->n && ts->t[j + 1].kind == T_RP)
	  return (true);
	if (j < ts->n && ts->t[j].kind == T_RP)
	  return (true);
      }
  return (false);
}

static const char * const int_roots[] = { "int", "int8_t", "uint8_t", "int16_t", "uint16_t", "uint32_t", "int64_t", "uint64_t", "mr_int128_t", "mr_uint128_t", "bool",
					  "ce_plain_t", "ce_64_t", "ce_signed_t", "ce_packed_t" };
static const char * const real_roots[] = { "float", "double", "long double" };
static const char * const cplx_roots[] = { "complex float", "complex double", "complex long double" };

static void
compare (const mops_t * o, void * d, val_t v, const char * text, size_t off)
{
  char * p = (char*)d + off;
  switch (o->mt->kind)
    {
    case MK_INT: case MK_BOOL: case MK_ENUM:
      {
	i128 lo, hi;
	if (v.k == V_INT)
	  lo = hi = v.i;
	else
	  {
	    if (fabsl (v.re) + v.err > 0x1p120L || o->mt->kind == MK_BOOL)
	      return;
	    lo = (i128)(v.re - v.err);
	    hi = (i128)(v.re + v.err);
	    if (lo != hi)
	      {
		pbt_count ("too close to an integer", 1);
		return;
	      }
	  }
	u128 mask = ~(u128)0 >> (128 - 8 * o->mt->size);
	u128 got = 0;
	memcpy (&got, p, o->mt->size);
	u128 want = (o->mt->kind == MK_BOOL) ? (lo != 0) : ((u128)lo & mask);
	PBT_CHECK (got == want, "value-int", "%s from '%s' is %s instead of %s", o->name, text, u128_str (got, false), u128_str (want, false));
	return;
      }
    case MK_FLOAT: case MK_DOUBLE: case MK_LDOUBLE: case MK_CFLOAT: case MK_CDOUBLE: case MK_CLDOUBLE:
      {
	v = to_kind (v, v.k == V_INT ? V_FLOAT : v.k);
	long double re, im = 0, eps, max;
	switch (o->mt->kind)
	  {
	  case MK_FLOAT: re = *(float*)p; eps = 1.3e-7L; max = 3e38L; break;
	  case MK_DOUBLE: re = *(double*)p; eps = 2.3e-16L; max = 1e308L; break;
	  case MK_LDOUBLE: re = *(long double*)p; eps = EPS; max = 1e4000L; break;
	  case MK_CFLOAT: re = crealf (*(complex float*)p); im = cimagf (*(complex float*)p); eps = 1.3e-7L; max = 3e38L; break;
	  case MK_CDOUBLE: re = creal (*(complex double*)p); im = cimag (*(complex double*)p); eps = 2.3e-16L; max = 1e308L; break;
	  default: re = creall (*(complex long double*)p); im = cimagl (*(complex long double*)p); eps = EPS; max = 1e4000L; break;
	  }
	bool cplx = (o->mt->kind >= MK_CFLOAT);
	if (!cplx)
	  v.im = 0;
	if (fabsl (v.re) > max || fabsl (v.im) > max)
	  return;
	long double tiny = (eps > 1e-10L) ? 1e-37L : (eps > 1e-17L) ? 1e-307L : 0;
	long double er = fabsl (v.re) * eps + v.err * 4 + tiny, ei = fabsl (v.im) * eps + v.err * 4 + tiny;
	PBT_CHECK (fabsl (re - v.re) <= er && fabsl (im - v.im) <= ei, "value-float", "%s from '%s' is %.21Lg %+.21Lgi instead of %.21Lg %+.21Lgi (error %Lg)",
		   o->name, text, re, im, v.re, v.im, v.err);
	return;
      }
    default:
      pbt_fail ("harness", "unexpected kind");
    }
}

static const mops_t *
pick_target (void)
{
  switch (pbt_draw (4))
    {
    case 0: case 1: return (root_by_name (PBT_PICK (int_roots)));
    case 2: return (root_by_name (PBT_PICK (real_roots)));
    default: return (root_by_name (PBT_PICK (cplx_roots)));
    }
}

void
p_expr (void)
{
  static toks_t ts;
  static char text[MAX_TOK * 96];
  case_begin ();
  ts.n = 0;
  gen_expr (&ts, (int)pbt_draw (6));
  int muts = pbt_chance (1, 4) ? 1 + (int)pbt_geom (4, 1, 3) : 0;
  for (int i = 0; i < muts; ++i)
    mutate (&ts);
  if (has_cast (&ts))
    pbt_reject ();
  const mops_t * o = pick_target ();
  ev_t e = { .ts = &ts };
  val_t v = parse (&e, 1);
  if (e.pos != ts.n)
    e.bad = true;
  int len = render (text, &ts);
  pbt_note ("%s '%s'", o->name, text);
  /* exact size: overreads are detected */
  char * s = malloc (len + 1);
  memcpy (s, text, len + 1);
  mbuf_t b = { s, len, len + 1 };
  void * d = obj_alloc (o->mt, 0xa5);
  int rc = o->load (F_CINIT, &b, d);
  PBT_CHECK (0 == memcmp (s, text, len + 1), "text-altered", "text was altered by loading");
  check_no_leak ("leak", "loading an expression");
  free (s);
  if (e.bad)
    {
      PBT_CHECK (!rc, "accepted", "'%s' is accepted although it has no value", text);
      pbt_count ("no value", 1);
    }
  else
    {
      PBT_CHECK (rc, "refused", "'%s' is refused for %s", text, o->name);
      compare (o, d, v, text, 0);
      pbt_count (e.kinds & 4 ? "complex" : e.kinds & 2 ? "float" : "integer", 1);
      if (e.ops >= 2)
	pbt_nontrivial (pbt_hash (o->mt->size, text, len));
    }
  free (d);
}

/* ---------------------------------------------------------------- literals */
typedef struct sb_t { char s[16000]; int n; } sb_t;
static void
sb (sb_t * b, const char * fmt, ...)
{
  va_list ap;
  va_start (ap, fmt);
  b->n += vsnprintf (b->s + b->n, sizeof (b->s) - b->n, fmt, ap);
  va_end (ap);
  if (b->n > (int)sizeof (b->s) - 100)
    pbt_reject ();
}

static char
simple_esc (unsigned char c)
{
  switch (c)
    {
    case '\a': return ('a');
    case '\b': return ('b');
    case '\f': return ('f');
    case '\n': return ('n');
    case '\r': return ('r');
    case '\t': return ('t');
    case '\v': return ('v');
    case '\\': return ('\\');
    case '\"': return ('\"');
    case '\'': return ('\'');
    default: return (0);
    }
}

static void
c_char (sb_t * b, unsigned char c, unsigned char next, char quote)
{
  bool raw_ok = c != '\\' && c != quote && c != 0;
  switch (pbt_draw (6))
    {
    case 0: case 1:
      if (raw_ok)
	{
	  sb (b, "%c", c);
	  return;
	}
      __attribute__ ((fallthrough));
    case 2:
      if (simple_esc (c))
	{
	  sb (b, "\\%c", simple_esc (c));
	  return;
	}
      __attribute__ ((fallthrough));
    case 3:
      /* a short octal escape ends at a character that is not an octal digit */
      if (next < '0' || next > '7')
	{
	  sb (b, "\\%o", c);
	  return;
	}
      __attribute__ ((fallthrough));
    case 4:
      sb (b, "\\%03o", c);
      return;
    default:
      if (isxdigit (next))
	sb (b, "\\%03o", c);
      else
	sb (b, pbt_chance (1, 2) ? "\\x%x" : "\\x%02X", c);
      return;
    }
}

static void
scm_char (sb_t * b, unsigned char c)
{
  if (c != '\\' && c != '"' && pbt_chance (2, 3))
    sb (b, "%c", c);
  else if (simple_esc (c) && pbt_chance (1, 2))
    sb (b, "\\%c", simple_esc (c));
  else
    sb (b, pbt_chance (1, 2) ? "\\x%x;" : "\\x%02X;", c);
}

static void
json_char (sb_t * b, unsigned char c)
{
  if (c != '\\' && c != '"' && c >= ' ' && pbt_chance (2, 3))
    sb (b, "%c", c);
  else if (c == '/' && pbt_chance (1, 2))
    sb (b, "\\/");
  else if (simple_esc (c) && c != '\a' && c != '\v' && c != '\'' && pbt_chance (1, 2))
    sb (b, "\\%c", simple_esc (c));
  else if (c < 128)
    sb (b, pbt_chance (1, 2) ? "\\u%04x" : "\\u%04X", c);
  else
    sb (b, "%c", c);
}

static void
xml_char (sb_t * b, unsigned char c, bool attr)
{
  static const struct { char c; const char * e; } ent[] = { { '<', "&lt;" }, { '>', "&gt;" }, { '&', "&amp;" }, { '"', "&quot;" }, { '\'', "&apos;" } };
  (void)attr;
  bool must = c == '<' || c == '&' || c == '>' || c == '\r';
  if (!must && pbt_chance (2, 3))
    {
      sb (b, "%c", c);
      return;
    }
  if (pbt_chance (1, 2))
    for (int i = 0; i < 5; ++i)
      if (ent[i].c == c)
	{
	  sb (b, "%s", ent[i].e);
	  return;
	}
  if (c < 128)
    {
      if (pbt_chance (1, 3))
	sb (b, pbt_chance (1, 4) ? "&#%03d;" : "&#%d;", c);
      else
	sb (b, pbt_chance (1, 4) ? "&#x%04x;" : pbt_chance (1, 2) ? "&#x%x;" : "&#x%X;", c);
    }
  else
    sb (b, "%c", c);
}

static void
yaml_char (sb_t * b, unsigned char c)
{
  if (c != '\\' && c != '"' && c > ' ' && c < 127 && pbt_chance (2, 3))
    sb (b, "%c", c);
  else if (simple_esc (c) && c != '\'' && pbt_chance (1, 2))
    sb (b, "\\%c", simple_esc (c));
  else if (c < 128)
    sb (b, pbt_chance (1, 2) ? "\\x%02x" : "\\u%04x", c);
  else
    sb (b, "%c", c);
}

/* text of string S as an element of a document of one string */
static void
spell_string (sb_t * b, mfmt_t f, const char * s, size_t n)
{
  switch (f)
    {
    case F_CINIT:
      sb (b, "\"");
      for (size_t i = 0; i < n; ++i)
	c_char (b, s[i], i + 1 < n ? s[i + 1] : '"', '"');
      sb (b, "\"");
      break;
    case F_SCM:
      sb (b, "\"");
      for (size_t i = 0; i < n; ++i)
	scm_char (b, s[i]);
      sb (b, "\"");
      break;
    case F_JSON:
      sb (b, "\"");
      for (size_t i = 0; i < n; ++i)
	json_char (b, s[i]);
      sb (b, "\"");
      break;
    case F_YAML:
      sb (b, "\"");
      for (size_t i = 0; i < n; ++i)
	yaml_char (b, s[i]);
      sb (b, "\"");
      break;
    default:
      for (size_t i = 0; i < n; ++i)
	xml_char (b, s[i], false);
      break;
    }
}

/* the element of a document has the name that the library gives to the type */
static const char *
tag_of (const mops_t * o)
{
  static char tag[80];
  static char zero[64];
  mbuf_t b = o->save (F_XML1, zero);
  const char * p = b.ptr ? strchr (b.ptr + 2, '<') : NULL;
  PBT_CHECK (p, "harness", "no tag");
  snprintf (tag, sizeof (tag), "%.*s", (int)strcspn (p + 1, " >/"), p + 1);
  buf_free (&b);
  return (tag);
}

static void
wrap_begin (sb_t * b, mfmt_t f, const char * tag)
{
  static const char * const ws[] = { "", "", " ", "\n", "\t ", "\r\n" };
  switch (f)
    {
    case F_XML1: case F_XML2:
      sb (b, "<?xml version=\"1.0\"?>%s", PBT_PICK (ws));
      sb (b, "<%s>", tag);
      break;
    case F_CINIT: case F_JSON: case F_SCM:
      sb (b, "%s", PBT_PICK (ws));
      if (f == F_CINIT && pbt_chance (1, 6))
	sb (b, "/* a comment */");
      break;
    default:
      break;
    }
}

static void
wrap_end (sb_t * b, mfmt_t f, const char * tag)
{
  static const char * const ws[] = { "", "", " ", "\n", "\t ", "\r\n" };
  switch (f)
    {
    case F_XML1: case F_XML2:
      sb (b, "</%s>%s", tag, PBT_PICK (ws));
      break;
    case F_CINIT: case F_JSON: case F_SCM:
      sb (b, "%s", PBT_PICK (ws));
      break;
    default:
      sb (b, pbt_chance (1, 2) ? "\n" : "");
      break;
    }
}

static int
load_text (const mops_t * o, mfmt_t f, const sb_t * t, void * d)
{
  char * s = malloc (t->n + 1);
  memcpy (s, t->s, t->n);
  s[t->n] = 0;
  mbuf_t b = { s, t->n, t->n + 1 };
  int rc = o->load (f, &b, d);
  PBT_CHECK (0 == memcmp (s, t->s, t->n) && !s[t->n], "text-altered", "text was altered by loading");
  free (s);
  return (rc);
}

/* sets of flags: names and numbers joined by '|', in any order, repeated */
static void
spell_mask (char * p, const mops_t * o, i128 * v)
{
  static const char * const gap[] = { " ", " ", "", "  " };
  int n = 1 + (int)pbt_draw (5);
  *v = 0;
  for (int i = 0; i < n; ++i)
    {
      if (i)
	{
	  p += sprintf (p, "%s|", PBT_PICK (gap));
	  p += sprintf (p, "%s", PBT_PICK (gap));
	}
      if (pbt_chance (3, 4))
	{
	  int k = pbt_draw (o->mt->nev);
	  p += sprintf (p, "%s", o->mt->ev[k].name);
	  *v |= o->mt->ev[k].value;
	}
      else
	{
	  unsigned x = pbt_draw (o->mt->size == 1 ? 128 : 70000);
	  p += sprintf (p, pbt_chance (1, 3) ? "0x%x" : "%u", x);
	  *v |= x;
	}
    }
}

/* complex numbers: real part, imaginary part or both */
static void
spell_complex (char * p, mfmt_t f, val_t * v)
{
  static const char * const gap[] = { " ", "", "  " };
  const char * g = PBT_PICK (gap);
  char a[80];
  v->k = V_CPLX;
  unsigned k = pbt_draw (5);
  if (k != 0)
    {
      char * q = a;
      if (pbt_chance (1, 3))
	*q++ = '-';
      spell_float (q);
      if (*q == '0' && isdigit (q[1]))
	*q = '1';
      if (k == 1)
	{
	  v->im = strtold (a, NULL);
	  sprintf (p, "%sI", a);
	  return;
	}
      v->re = strtold (a, NULL);
      p += sprintf (p, "%s", a);
      if (k == 2)
	return;
      p += sprintf (p, "%s+%s", g, g);
      if (k == 3)
	{
	  char * q = a;
	  if (pbt_chance (1, 3) && f != F_CINIT)
	    *q++ = '-';
	  spell_float (q);
	  if (*q == '0' && isdigit (q[1]))
	    *q = '1';
	  v->im = strtold (a, NULL);
	  sprintf (p, "%sI", a);
	  return;
	}
    }
  v->im = 1;
  sprintf (p, "I");
}

void
p_literals (void)
{
  static sb_t t;
  case_begin ();
  t.n = 0;
  mfmt_t f = pick_text ();
  gopt_t opt = gopt_default ();
  opt.str_mode = STR_ASCII | STR_SPECIAL;
  if (f == F_CINIT || f == F_SCM)
    opt.str_mode |= STR_BYTES | STR_CTRL;
  else if (f == F_JSON)
    opt.str_mode |= STR_CTRL | STR_UTF8;
  else if (f == F_YAML)
    opt.str_mode |= STR_CTRL;
  else if (f == F_XML1)
    opt.str_mode |= STR_UTF8;
  pbt_count (fmt_name[f], 1);
  char s[200];
  switch (pbt_draw (6))
    {
    case 0: case 1: /* strings */
      {
	const mops_t * o = root_by_name (pbt_chance (1, 2) ? "string_t" : "ca16_t");
	size_t max = o->mt->kind == MK_CHARARR ? o->mt->size - 1 : 40;
	if (o->mt->kind == MK_STRUCT)
	  pbt_fail ("harness", "kind");
	size_t n = gen_chars (s, 1 + pbt_draw (max), &opt);
	s[n] = 0;
	n = strlen (s);
	if (f == F_XML1 || f == F_XML2)
	  {
	    /* white space at the ends is dropped by both loaders of XML unless it is spelled with entities, an empty element is an empty string */
	    for (size_t i = 0; i < n; ++i)
	      if ((unsigned char)s[i] < ' ' || s[i] == 127)
		s[i] = 'c';
	    while (n && s[n - 1] == ' ')
	      s[--n] = 0;
	    if (s[0] == ' ')
	      s[0] = 'a';
	  }
	wrap_begin (&t, f, tag_of (o));
	spell_string (&t, f, s, n);
	wrap_end (&t, f, tag_of (o));
	pbt_note_bytes ("text", t.s, t.n);
	pbt_note_bytes ("value", s, n);
	void * d = obj_alloc (o->mt, 0xa5);
	PBT_CHECK (load_text (o, f, &t, d), "string-refused", "%s string is refused: %s", fmt_name[f], t.s);
	char * got = o->mt->kind == MK_CHARARR ? d : *(char**)d;
	PBT_CHECK (got, "string-null", "string is loaded as NULL");
	if (strcmp (got, s))
	  {
	    pbt_note_bytes ("loaded", got, strlen (got));
	    pbt_fail ("string-value", "%s string %s is loaded as '%s' instead of '%s'", fmt_name[f], t.s, got, s);
	  }
	if (n > 3)
	  pbt_nontrivial (pbt_hash (f, t.s, t.n));
	free_loaded_text (o, d);
	break;
      }
    case 2: /* characters */
      {
	const mops_t * o = root_by_name ("char");
	unsigned char c = pbt_chance (1, 2) ? ' ' + pbt_draw (95) : pbt_draw (256);
	switch (f)
	  {
	  case F_CINIT:
	    wrap_begin (&t, f, "");
	    sb (&t, "'");
	    if (c == 0)
	      sb (&t, pbt_chance (1, 2) ? "\\0" : "\\000");
	    else
	      c_char (&t, c, '\'', '\'');
	    sb (&t, "'");
	    wrap_end (&t, f, "");
	    break;
	  case F_SCM:
	    wrap_begin (&t, f, "");
	    if (isgraph (c) && pbt_chance (1, 2))
	      sb (&t, "#\\%c", c);
	    else
	      sb (&t, pbt_chance (1, 2) ? "#\\x%02x" : "#\\x%02X", c);
	    wrap_end (&t, f, "");
	    break;
	  default:
	    c = 'a' + c % 26;
	    s[0] = c;
	    wrap_begin (&t, f, tag_of (o));
	    spell_string (&t, f, s, 1);
	    wrap_end (&t, f, tag_of (o));
	    break;
	  }
	pbt_note_bytes ("text", t.s, t.n);
	unsigned char d[1] = { 0xa5 ^ c };
	PBT_CHECK (load_text (o, f, &t, d), "char-refused", "%s character is refused: %s", fmt_name[f], t.s);
	PBT_CHECK (d[0] == c, "char-value", "%s character %s is loaded as %d instead of %d", fmt_name[f], t.s, d[0], c);
	pbt_nontrivial (pbt_hash (f, t.s, t.n));
	break;
      }
    case 3: /* flags */
    case 4: /* complex numbers */
      {
	static const char * const masks[] = { "ce_mask_t", "ce_mask64_t", "ce_smask_t" };
	bool flags = pbt_chance (1, 2);
	const mops_t * o = root_by_name (flags ? PBT_PICK (masks) : PBT_PICK (cplx_roots));
	val_t v = { 0 };
	if (flags)
	  spell_mask (s, o, &v.i);
	else
	  spell_complex (s, f, &v);
	wrap_begin (&t, f, tag_of (o));
	bool quote = f == F_JSON || f == F_SCM || (f == F_YAML && pbt_chance (1, 2)) || (f == F_CINIT && pbt_chance (1, 4));
	static const char * const ws[] = { "", "", " ", "\n", "\t " };
	const char * w = (f == F_XML1 || f == F_XML2) ? PBT_PICK (ws) : "";
	sb (&t, quote ? "\"%s%s%s\"" : "%s%s%s", w, s, w);
	wrap_end (&t, f, tag_of (o));
	pbt_note_bytes ("text", t.s, t.n);
	void * d = obj_alloc (o->mt, 0xa5);
	PBT_CHECK (load_text (o, f, &t, d), flags ? "flags-refused" : "complex-refused", "%s text %s is refused for %s", fmt_name[f], t.s, o->name);
	compare (o, d, v, t.s, 0);
	pbt_nontrivial (pbt_hash (f * 97 + o->mt->kind, t.s, t.n));
	free (d);
	break;
      }
    default: /* numbers */
      {
	const mops_t * o = pick_target ();
	bool to_int = o->mt->kind == MK_INT || o->mt->kind == MK_BOOL || o->mt->kind == MK_ENUM;
	val_t v = { 0 };
	char num[200], * p = num;
	if (o->mt->kind == MK_ENUM)
	  o = root_by_name ("int64_t");
	if (o->mt->kind >= MK_CFLOAT)
	  o = root_by_name ("double");
	bool neg = pbt_chance (1, 3);
	if (neg)
	  *p++ = '-';
	else if (f != F_JSON && pbt_chance (1, 8))
	  *p++ = '+';
	if (!to_int && pbt_chance (2, 3))
	  {
	    v.k = V_FLOAT;
	    spell_float (p);
	    if (*p == '0' && isdigit (p[1]))
	      *p = '1';
	    v.re = strtold (num, NULL);
	  }
	else
	  {
	    u128 x = pbt_draw (0) >> pbt_draw (64);
	    switch (pbt_draw (8))
	      {
	      case 0: x = (x << 64 | pbt_draw (0)) >> pbt_draw (64); break;
	      case 1: x = (u128)0 - 1 - pbt_draw (20); break; /* the highest ones, of some width */
	      case 2: x = ((u128)0 - 1 >> pbt_draw (128)) - pbt_draw (20); break;
	      default: break;
	      }
	    if (!to_int)
	      x = x << 1 >> 1;
	    v.i = neg ? -(i128)x : (i128)x;
	    switch (f)
	      {
	      case F_JSON: sprintf (p, "%s", digits_of (x, 10, false)); break;
	      case F_SCM:
		switch (pbt_draw (5))
		  {
		  case 0: case 1: sprintf (p, pbt_chance (1, 4) ? "00%s" : "%s", digits_of (x, 10, false)); break;
		  case 2: sprintf (p, "#x%s", digits_of (x, 16, false)); break;
		  case 3: sprintf (p, "#X%s", digits_of (x, 16, true)); break;
		  default: sprintf (p, pbt_chance (1, 2) ? "#o%s" : "#O%s", digits_of (x, 8, false)); break;
		  }
		break;
	      default:
		if (to_int || f == F_CINIT)
		  spell_int (p, 150, x);
		else
		  {
		    bool hex = pbt_chance (1, 4);
		    sprintf (p, hex ? "0x%s" : "%s", digits_of (x, hex ? 16 : 10, false));
		  }
		break;
	      }
	  }
	wrap_begin (&t, f, tag_of (o));
	if (f == F_XML1 || f == F_XML2 || f == F_YAML)
	  {
	    static const char * const ws[] = { "", "", " ", "\n", "\t " };
	    const char * w = f == F_YAML ? "" : PBT_PICK (ws);
	    sb (&t, "%s%s%s", w, num, w);
	  }
	else
	  sb (&t, "%s", num);
	wrap_end (&t, f, tag_of (o));
	pbt_note_bytes ("text", t.s, t.n);
	void * d = obj_alloc (o->mt, 0xa5);
	PBT_CHECK (load_text (o, f, &t, d), "number-refused", "%s number %s is refused for %s", fmt_name[f], t.s, o->name);
	compare (o, d, v, t.s, 0);
	pbt_nontrivial (pbt_hash (f * 97 + o->mt->kind, t.s, t.n));
	free (d);
	break;
      }
    }
  check_no_leak ("leak", "loading a literal");
}
