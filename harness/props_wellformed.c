/* P20: texts are well formed for independent parsers, and what these parsers see is the object. */
#include "common.h"
#include "text.h"
#include <ctype.h>
#include <math.h>
#include <setjmp.h>
#include <yaml.h>
#include <libxml/parser.h>
#include <libxml/tree.h>

typedef enum wk_t { W_OBJ, W_LIST, W_STR, W_WORD, W_NULL, W_REF } wk_t;
typedef struct w_t w_t;
struct w_t { wk_t kind; char * name; char * s; size_t len; int n, alloc; w_t ** k; char * ref, * id; bool text /* XML: there is a text that is not white space */; };

static w_t *
w_new (wk_t kind)
{
  w_t * w = calloc (1, sizeof (*w));
  w->kind = kind;
  return (w);
}

static void
w_add (w_t * p, w_t * c)
{
  if (p->n == p->alloc)
    p->k = realloc (p->k, (p->alloc = 2 * p->alloc + 4) * sizeof (p->k[0]));
  p->k[p->n++] = c;
}

static void
w_free (w_t * w)
{
  if (!w)
    return;
  for (int i = 0; i < w->n; ++i)
    w_free (w->k[i]);
  free (w->k);
  free (w->name);
  free (w->s);
  free (w->ref);
  free (w->id);
  free (w);
}

static void __attribute__ ((noreturn, format (printf, 3, 4)))
bad (mfmt_t f, const char * sig, const char * fmt, ...)
{
  char s[100], m[1000];
  va_list a;
  va_start (a, fmt);
  vsnprintf (m, sizeof (m), fmt, a);
  va_end (a);
  snprintf (s, sizeof (s), "%s %s", sig, fmt_name[f]);
  pbt_fail (s, "%s text: %s", fmt_name[f], m);
}

/* ---------------------------------------------------------------- JSON, RFC 8259 */
typedef struct js_t { const char * b, * p, * e; } js_t;

static void
js_space (js_t * j)
{
  while (j->p < j->e && (*j->p == ' ' || *j->p == '\t' || *j->p == '\n' || *j->p == '\r'))
    ++j->p;
}

#define JS_CK(COND, ...) do { if (!(COND)) bad (F_JSON, "malformed", "at byte %d: " __VA_ARGS__); } while (0)
#define AT (int)(j->p - j->b)

static char *
js_string (js_t * j, size_t * len)
{
  if (j->p >= j->e || *j->p != '"')
    bad (F_JSON, "malformed", "at byte %d: a string is expected", AT);
  ++j->p;
  char * s = malloc (j->e - j->p + 1);
  size_t n = 0;
  for (;;)
    {
      if (j->p >= j->e)
	bad (F_JSON, "malformed", "a string is not closed");
      unsigned char c = *j->p++;
      if (c == '"')
	break;
      if (c < ' ')
	bad (F_JSON, "malformed", "at byte %d: control character %d within a string", AT - 1, c);
      if (c >= 0x80)
	bad (F_JSON, "malformed", "at byte %d: byte %d within a string is not escaped", AT - 1, c);
      if (c != '\\')
	{
	  s[n++] = c;
	  continue;
	}
      c = j->p < j->e ? *j->p++ : 0;
      static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
      const char * x = c ? strchr (from, c) : NULL;
      if (x)
	s[n++] = to[x - from];
      else if (c == 'u')
	{
	  unsigned v = 0;
	  for (int i = 0; i < 4; ++i, ++j->p)
	    {
	      if (j->p >= j->e || !isxdigit ((unsigned char)*j->p))
		bad (F_JSON, "malformed", "at byte %d: \\u without four hexadecimal digits", AT);
	      v = 16 * v + (isdigit ((unsigned char)*j->p) ? *j->p - '0' : (*j->p | 32) - 'a' + 10);
	    }
	  if (v > 0xff)
	    bad (F_JSON, "malformed", "at byte %d: code %x is not a byte", AT, v);
	  s[n++] = v;
	}
      else
	bad (F_JSON, "malformed", "at byte %d: there is no escape sequence \\%c", AT, c);
    }
  s[n] = 0;
  *len = n;
  return (s);
}

static w_t *
js_value (js_t * j)
{
  js_space (j);
  if (j->p >= j->e)
    bad (F_JSON, "malformed", "a value is expected at the end");
  w_t * w;
  if (*j->p == '{' || *j->p == '[')
    {
      char close = *j->p == '{' ? '}' : ']';
      w = w_new (close == '}' ? W_OBJ : W_LIST);
      ++j->p;
      js_space (j);
      if (j->p < j->e && *j->p == close)
	{
	  ++j->p;
	  return (w);
	}
      for (;;)
	{
	  char * name = NULL;
	  size_t len;
	  js_space (j);
	  if (close == '}')
	    {
	      name = js_string (j, &len);
	      for (int i = 0; i < w->n; ++i)
		if (!strcmp (w->k[i]->name, name))
		  bad (F_JSON, "malformed", "at byte %d: member '%s' is repeated", AT, name);
	      js_space (j);
	      if (j->p >= j->e || *j->p != ':')
		bad (F_JSON, "malformed", "at byte %d: no colon after a name", AT);
	      ++j->p;
	    }
	  w_t * k = js_value (j);
	  k->name = name;
	  w_add (w, k);
	  js_space (j);
	  if (j->p < j->e && *j->p == ',')
	    {
	      ++j->p;
	      continue;
	    }
	  if (j->p < j->e && *j->p == close)
	    {
	      ++j->p;
	      return (w);
	    }
	  bad (F_JSON, "malformed", "at byte %d: ',' or '%c' is expected", AT, close);
	}
    }
  if (*j->p == '"')
    {
      w = w_new (W_STR);
      w->s = js_string (j, &w->len);
      return (w);
    }
  const char * b = j->p;
  while (j->p < j->e && (isalnum ((unsigned char)*j->p) || *j->p == '+' || *j->p == '-' || *j->p == '.'))
    ++j->p;
  w = w_new (W_WORD);
  w->s = strndup (b, j->p - b);
  w->len = j->p - b;
  if (!strcmp (w->s, "null"))
    w->kind = W_NULL;
  else if (strcmp (w->s, "true") && strcmp (w->s, "false"))
    {
      const char * s = w->s;
      bool ok = true;
      s += *s == '-';
      if (*s == '0')
	++s;
      else
	{
	  ok = isdigit ((unsigned char)*s);
	  while (isdigit ((unsigned char)*s)) ++s;
	}
      if (ok && *s == '.')
	{
	  ok = isdigit ((unsigned char)*++s);
	  while (isdigit ((unsigned char)*s)) ++s;
	}
      if (ok && (*s | 32) == 'e')
	{
	  ++s;
	  s += *s == '+' || *s == '-';
	  ok = isdigit ((unsigned char)*s);
	  while (isdigit ((unsigned char)*s)) ++s;
	}
      if (!ok || *s)
	bad (F_JSON, "malformed", "at byte %d: '%.40s' is not a value", (int)(b - j->b), w->s[0] ? w->s : b);
    }
  return (w);
}

static w_t *
js_parse (const mbuf_t * b)
{
  js_t j = { b->ptr, b->ptr, b->ptr + strlen (b->ptr) };
  w_t * w = js_value (&j);
  js_space (&j);
  if (j.p != j.e)
    bad (F_JSON, "malformed", "at byte %d: something follows the value", (int)(j.p - j.b));
  return (w);
}

/* ---------------------------------------------------------------- YAML by events of libyaml */
static w_t *
ya_node (yaml_parser_t * p, yaml_event_t * e)
{
  w_t * w = NULL;
  switch (e->type)
    {
    case YAML_ALIAS_EVENT:
      w = w_new (W_REF);
      w->ref = strdup ((char *)e->data.alias.anchor);
      if (!strcmp (w->ref, "isnull"))
	w->kind = W_NULL;
      yaml_event_delete (e);
      return (w);
    case YAML_SCALAR_EVENT:
      w = w_new (W_STR);
      w->len = e->data.scalar.length;
      w->s = malloc (w->len + 1);
      memcpy (w->s, e->data.scalar.value, w->len);
      w->s[w->len] = 0;
      if (e->data.scalar.anchor)
	w->id = strdup ((char *)e->data.scalar.anchor);
      yaml_event_delete (e);
      return (w);
    case YAML_SEQUENCE_START_EVENT: case YAML_MAPPING_START_EVENT:
      {
	bool map = e->type == YAML_MAPPING_START_EVENT;
	w = w_new (map ? W_OBJ : W_LIST);
	yaml_char_t * a = map ? e->data.mapping_start.anchor : e->data.sequence_start.anchor;
	if (a)
	  w->id = strdup ((char *)a);
	yaml_event_delete (e);
	for (;;)
	  {
	    char * name = NULL;
	    if (!yaml_parser_parse (p, e))
	      bad (F_YAML, "malformed", "%s", p->problem ? p->problem : "?");
	    if (e->type == (map ? YAML_MAPPING_END_EVENT : YAML_SEQUENCE_END_EVENT))
	      {
		yaml_event_delete (e);
		return (w);
	      }
	    if (map)
	      {
		if (e->type != YAML_SCALAR_EVENT)
		  bad (F_YAML, "malformed", "a key of a mapping is not a scalar");
		name = strdup ((char *)e->data.scalar.value);
		yaml_event_delete (e);
		for (int i = 0; i < w->n; ++i)
		  if (!strcmp (w->k[i]->name, name))
		    bad (F_YAML, "malformed", "key '%s' is repeated", name);
		if (!yaml_parser_parse (p, e))
		  bad (F_YAML, "malformed", "%s", p->problem ? p->problem : "?");
	      }
	    w_t * k = ya_node (p, e);
	    k->name = name;
	    w_add (w, k);
	  }
      }
    default:
      bad (F_YAML, "malformed", "event %d where a node is expected", e->type);
    }
}

static w_t *
ya_parse (const mbuf_t * b)
{
  yaml_parser_t p;
  yaml_event_t e;
  w_t * w = NULL;
  static const yaml_event_type_t want[] = { YAML_STREAM_START_EVENT, YAML_DOCUMENT_START_EVENT, YAML_NO_EVENT, YAML_DOCUMENT_END_EVENT, YAML_STREAM_END_EVENT };
  yaml_parser_initialize (&p);
  yaml_parser_set_input_string (&p, (unsigned char *)b->ptr, strlen (b->ptr));
  for (int i = 0; i < 5; ++i)
    {
      if (!yaml_parser_parse (&p, &e))
	bad (F_YAML, "malformed", "%s", p.problem ? p.problem : "?");
      if (want[i] == YAML_NO_EVENT)
	w = ya_node (&p, &e);
      else
	{
	  if (e.type != want[i])
	    bad (F_YAML, "malformed", "event %d instead of %d", e.type, want[i]);
	  yaml_event_delete (&e);
	}
    }
  yaml_parser_delete (&p);
  return (w);
}

/* ---------------------------------------------------------------- XML by libxml2 */
static void
xm_text (w_t * w, const xmlChar * t)
{
  /* every code is a byte of the object */
  size_t n = xmlStrlen (t);
  w->s = realloc (w->s, w->len + n + 1);
  for (size_t i = 0; i < n; ++i)
    {
      unsigned v = t[i];
      if (v >= 0x80)
	v = (i + 1 < n) ? ((v & 0x1f) << 6) | (t[++i] & 0x3f) : 0xffff;
      if (v > 0xff)
	v = '?';
      if (!isspace (v))
	w->text = true;
      w->s[w->len++] = v;
    }
  w->s[w->len] = 0;
}

static w_t *
xm_node (mfmt_t f, const xmlNode * x)
{
  w_t * w = w_new (W_OBJ);
  w->name = strdup ((char *)x->name);
  w->s = strdup ("");
  for (const xmlAttr * a = x->properties; a; a = a->next)
    {
      xmlChar * v = xmlNodeGetContent ((xmlNode *)a);
      const char * n = (char *)a->name;
      if (!strcmp (n, "isnull"))
	{
	  if (strcmp ((char *)v, "true"))
	    bad (f, "malformed", "attribute isnull is '%s'", v);
	  w->kind = W_NULL;
	}
      else if (!strcmp (n, "ref") || !strcmp (n, "ref_content"))
	{
	  w->kind = W_REF;
	  w->ref = strdup ((char *)v);
	}
      else if (!strcmp (n, "ref_idx"))
	w->id = strdup ((char *)v);
      else
	bad (f, "malformed", "attribute '%s'", n);
      xmlFree (v);
    }
  for (const xmlNode * k = x->children; k; k = k->next)
    switch (k->type)
      {
      case XML_ELEMENT_NODE: w_add (w, xm_node (f, k)); break;
      case XML_TEXT_NODE: xm_text (w, k->content); break;
      default: bad (f, "malformed", "node of type %d within '%s'", k->type, w->name);
      }
  if ((w->kind == W_NULL || w->kind == W_REF) && (w->n || w->len))
    bad (f, "malformed", "element '%s' is %s and has content", w->name, w->kind == W_NULL ? "NULL" : "a reference");
  if (w->n && w->text)
    bad (f, "malformed", "element '%s' has elements and a text", w->name);
  return (w);
}

static char xm_why[300];
static void
xm_error (void * ctx, const xmlError * e)
{
  if (!xm_why[0])
    snprintf (xm_why, sizeof (xm_why), "line %d: %s", e->line, e->message ? e->message : "?");
}

static w_t *
xm_parse (mfmt_t f, const mbuf_t * b)
{
  xm_why[0] = 0;
  xmlSetStructuredErrorFunc (NULL, (void *)xm_error);
  xmlDoc * d = xmlReadMemory (b->ptr, strlen (b->ptr), NULL, NULL, XML_PARSE_NONET | XML_PARSE_HUGE);
  xmlSetStructuredErrorFunc (NULL, NULL);
  if (!d)
    bad (f, "malformed", "%s", xm_why);
  xmlNode * r = xmlDocGetRootElement (d);
  if (!r)
    bad (f, "malformed", "no element");
  w_t * w = xm_node (f, r);
  xmlFreeDoc (d);
  return (w);
}

/* ---------------------------------------------------------------- content */
static char path[1000];
static mfmt_t fmt;
#define WCK(COND, SIG, FMT, ...) do { if (!(COND)) bad (fmt, SIG, "%s: " FMT, path, ## __VA_ARGS__); } while (0)
#define XML (fmt == F_XML1 || fmt == F_XML2)

static bool
empty_node (const dn_t * d)
{ /* parts without any content are left out of their structures */
  if (d->ptr || d->kind == D_LEAF || d->kind == D_STR || d->kind == D_NULL)
    return (false);
  if (d->kind == D_LIST)
    return (d->n == 0);
  for (int i = 0; i < d->n; ++i)
    if (!empty_node (&d->k[i]))
      return (false);
  return (true);
}

static bool
near (long double x, long double y, long double tol)
{
  if (x == y)
    return (true);
  return (fabsl (x - y) <= tol * fmaxl (fabsl (x), fabsl (y)));
}

static bool
num_is (const char * s, mk_t kind, long double want)
{
  if (isspace ((unsigned char)*s) || !*s)
    return (false);
  char * end;
  long double v = strtold (s, &end);
  if (*end)
    return (false);
  if (__builtin_isnan (want))
    return (__builtin_isnan (v));
  if (kind == MK_DOUBLE)
    return (strtod (s, NULL) == (double)want);
  return (near (v, want, kind == MK_FLOAT ? 1e-7L : 2e-19L));
}

static void
check_leaf (const w_t * w, const dn_t * d)
{
  const mt_t * mt = d->mt;
  char * s = w->s;
  WCK (w->kind == W_STR || w->kind == W_WORD || XML, "not-a-value", "a node of kind %d instead of a value", w->kind);
  WCK (w->n == 0 && w->kind != W_NULL && w->kind != W_REF, "not-a-value", "it is not a value");
  if (d->kind == D_STR)
    {
      const char * x = mt->kind == MK_STRING ? *(char **)d->addr : d->addr;
      size_t len = mt->kind == MK_STRING ? strlen (x) : strnlen (x, msize (mt));
      WCK (fmt != F_JSON || w->kind == W_STR, "string", "a string is not in quotes: %.60s", s);
      WCK (w->len == len && !memcmp (s, x, len), "string", "the text is seen as '%.200s' (%zu bytes) instead of '%.200s' (%zu bytes)", s, w->len, x, len);
      return;
    }
  const mt_t * et = mt->kind == MK_BITF ? mt->elem : mt;
  bool quoted = fmt == F_JSON && w->kind == W_STR;
  switch (et->kind)
    {
    case MK_CHAR:
      if (mt->kind == MK_CHAR)
	{
	  unsigned char c = *d->addr;
	  WCK (fmt != F_JSON || quoted, "char", "a character is not in quotes: %.60s", s);
	  if (fmt == F_YAML && w->len > 1)
	    {
	      char * end;
	      WCK (!strncmp (s, "0x", 2) && strtoul (s, &end, 16) == c && !*end, "char", "character %d is seen as '%.60s'", c, s);
	    }
	  else
	    WCK (w->len == 1 && (unsigned char)s[0] == c, "char", "character %d is seen as '%.60s' (%zu bytes)", c, s, w->len);
	  return;
	}
      /* fall through */
    case MK_INT:
      {
	u128 x = cell_int (mt, d->addr, d->base);
	WCK (!quoted, "number", "a number is in quotes: %.60s", s);
	const char * y = u128_str (x, et->is_signed || (et->kind == MK_CHAR && (i128)x < 0));
	WCK (!strcmp (s, y), "number", "number %s is seen as '%.60s'", y, s);
	return;
      }
    case MK_BOOL:
      {
	bool x = cell_int (mt, d->addr, d->base) != 0;
	WCK (!quoted, "bool", "a boolean value is in quotes: %.60s", s);
	if (mt->kind == MK_BITF && isdigit ((unsigned char)s[0]))
	  WCK (!strcmp (s, x ? "1" : "0"), "bool", "'%.60s' instead of %d", s, x);
	else
	  WCK (!strcmp (s, x ? "true" : "false"), "bool", "'%.60s' instead of %s", s, x ? "true" : "false");
	return;
      }
    case MK_ENUM:
      {
	u128 x = cell_int (mt, d->addr, d->base);
	u128 v = 0;
	int words = 0;
	WCK (fmt != F_JSON || quoted, "enum", "a name is not in quotes: %.60s", s);
	for (char * p = s; ; )
	  {
	    char * bar = strstr (p, " | ");
	    size_t len = bar ? (size_t)(bar - p) : strlen (p);
	    bool known = false;
	    for (int i = 0; i < et->nev && !known; ++i)
	      if (strlen (et->ev[i].name) == len && !memcmp (et->ev[i].name, p, len))
		{
		  v |= et->is_signed ? (u128)(i128)et->ev[i].value : (u128)(uint64_t)et->ev[i].value;
		  known = true;
		}
	    if (!known)
	      {
		WCK (len && strspn (p + (*p == '-'), "0123456789") >= len - (*p == '-'), "enum", "'%.60s' is neither a name nor a number", p);
		i128 y = 0;
		for (size_t i = (*p == '-'); i < len; ++i)
		  y = 10 * y + (p[i] - '0');
		v |= (u128)(*p == '-' ? -y : y);
	      }
	    ++words;
	    if (!bar)
	      break;
	    p = bar + 3;
	  }
	int bits = mt->kind == MK_BITF ? (int)mt->count : 8 * (int)msize (et);
	if (bits > 64) bits = 64;
	u128 mask = (((u128)1) << bits) - 1;
	WCK ((v & mask) == (x & mask), "enum", "value %s is seen as '%.200s'", u128_str (x, et->is_signed), s);
	return;
      }
    case MK_FLOAT: WCK (quoted == (fmt == F_JSON && !__builtin_isfinite (*(float *)d->addr)), "number", "quotes of a number"); WCK (num_is (s, MK_FLOAT, *(float *)d->addr), "float", "%.9g is seen as '%.60s'", *(float *)d->addr, s); return;
    case MK_DOUBLE: WCK (quoted == (fmt == F_JSON && !__builtin_isfinite (*(double *)d->addr)), "number", "quotes of a number"); WCK (num_is (s, MK_DOUBLE, *(double *)d->addr), "float", "%.17g is seen as '%.60s'", *(double *)d->addr, s); return;
    case MK_LDOUBLE:
      {
	long double x;
	memcpy (&x, d->addr, sizeof (x));
	WCK (quoted == (fmt == F_JSON && !__builtin_isfinite (x)), "number", "quotes of a number");
	WCK (num_is (s, MK_LDOUBLE, x), "float", "%.21Lg is seen as '%.60s'", x, s);
	return;
      }
    case MK_CFLOAT: case MK_CDOUBLE: case MK_CLDOUBLE:
      {
	long double re, im;
	mk_t k = mt->kind == MK_CFLOAT ? MK_FLOAT : mt->kind == MK_CDOUBLE ? MK_DOUBLE : MK_LDOUBLE;
	if (mt->kind == MK_CFLOAT) { float x[2]; memcpy (x, d->addr, sizeof (x)); re = x[0]; im = x[1]; }
	else if (mt->kind == MK_CDOUBLE) { double x[2]; memcpy (x, d->addr, sizeof (x)); re = x[0]; im = x[1]; }
	else { long double x[2]; memcpy (x, d->addr, sizeof (x)); re = x[0]; im = x[1]; }
	if (__builtin_isnan (re) || __builtin_isnan (im))
	  { /* parts are not told apart */
	    WCK (!strcasecmp (s, "nan"), "complex", "NaN is seen as '%.60s'", s);
	    return;
	  }
	/* "re", "imI", "re + imI" */
	char buf[200];
	WCK (w->len < sizeof (buf), "complex", "too long");
	strcpy (buf, s);
	char * plus = strstr (buf, " + "), * a = buf, * b = NULL;
	size_t n = strlen (buf);
	if (plus)
	  {
	    *plus = 0;
	    b = plus + 3;
	  }
	else if (n && buf[n - 1] == 'I')
	  {
	    b = a;
	    a = NULL;
	  }
	if (b)
	  {
	    n = strlen (b);
	    WCK (n && b[n - 1] == 'I', "complex", "'%.100s' has no I at the end", s);
	    b[n - 1] = 0;
	  }
	WCK ((a ? num_is (a, k, re) : re == 0) && (b ? (*b ? num_is (b, k, im) : im == 1) : im == 0), "complex", "%.21Lg and %.21Lg are seen as '%.100s'", re, im, s);
	return;
      }
    default:
      return;
    }
}

static void
check_node (const w_t * w, const dn_t * d)
{
  size_t at = strlen (path);
  WCK (!w->ref || w->kind == W_NULL, "reference", "it is a reference to %s", w->ref);
  WCK (!w->id, "reference", "it has an index %s", w->id);
  if (d->mt && d->mt->kind == MK_TPTR && w->kind == W_OBJ)
    { /* a part named by the type it points to */
      WCK (w->n == 1 && !w->text, "kind", "a pointer with a type has %d parts", w->n);
      const w_t * c = w->k[0];
      snprintf (path + at, sizeof (path) - at, ".(%s)", c->name);
      if (d->kind == D_NULL)
	WCK (c->kind == W_NULL, "null", "NULL is seen as kind %d, '%.60s'", c->kind, c->s ? c->s : "");
      else
	{
	  WCK (!strcmp (c->name, d->k[0].mt->name), "name", "its type %s is seen as '%s'", d->k[0].mt->name, c->name);
	  static const mt_t list = { .kind = MK_ARRAY };
	  dn_t l = *d;
	  l.mt = &list;
	  check_node (c, &l);
	}
      path[at] = 0;
      return;
    }
  switch (d->kind)
    {
    case D_NULL:
      WCK (w->kind == W_NULL, "null", "NULL is seen as kind %d, '%.60s'", w->kind, w->s ? w->s : "");
      break;
    case D_LEAF: case D_STR:
      check_leaf (w, d);
      break;
    case D_REC: case D_LIST:
      {
	WCK (w->kind == (XML || d->kind == D_REC ? W_OBJ : W_LIST), "kind", "a node of kind %d", w->kind);
	WCK (!w->text, "kind", "a text '%.60s' is there", w->s);
	int n = 0;
	for (int i = 0; i < d->n; ++i)
	  {
	    const dn_t * k = &d->k[i];
	    if (d->kind == D_REC && empty_node (k))
	      continue;
	    WCK (n < w->n, "count", "there are %d parts only", w->n);
	    const w_t * c = w->k[n++];
	    bool anon = d->kind == D_REC && (k->mf->flags & MF_ANON) && !k->mf->name[0];
	    if (d->kind == D_REC)
	      snprintf (path + at, sizeof (path) - at, ".%s", anon ? c->name : k->mf->name);
	    else
	      snprintf (path + at, sizeof (path) - at, "[%d]", i);
	    if (d->kind == D_REC && !anon)
	      WCK (c->name && !strcmp (c->name, k->mf->name), "name", "its name is seen as '%s'", c->name);
	    else if (XML && d->kind == D_LIST && w->name)
	      WCK (!strcmp (c->name, w->name), "name", "its name is seen as '%s'", c->name);
	    check_node (c, k);
	    path[at] = 0;
	  }
	WCK (n == w->n, "count", "there are %d parts instead of %d", w->n, n);
	break;
      }
    }
}

static void
collect_ids (const w_t * w, const w_t ** ids, int * n, int lim)
{
  if (w->id && *n < lim)
    ids[(*n)++] = w;
  for (int i = 0; i < w->n; ++i)
    collect_ids (w->k[i], ids, n, lim);
}

static unsigned
count_nulls (const w_t * w)
{
  unsigned n = w->kind == W_NULL || (w->kind == W_REF && !strncmp (w->ref, "ref_content", 11));
  for (int i = 0; i < w->n; ++i)
    n += count_nulls (w->k[i]);
  return (n);
}

static unsigned nulls; /* in YAML NULL and a repeated string are aliases and have no anchor: known, yaml-aliases */
static unsigned
check_refs (const w_t * w, const w_t ** ids, int n)
{
  unsigned refs = 0;
  if (w->kind == W_REF)
    {
      int hits = 0;
      const char * r = w->ref;
      if (fmt == F_YAML)
	{ /* an alias has the number of the anchor at the end */
	  const char * u = strrchr (r, '_');
	  WCK (u, "reference", "alias '%s'", r);
	  r = u + 1;
	}
      for (int i = 0; i < n; ++i)
	{
	  const char * a = ids[i]->id;
	  if (fmt == F_YAML)
	    a = strrchr (a, '_') ? strrchr (a, '_') + 1 : a;
	  hits += !strcmp (a, r);
	}
      WCK (hits == 1 || (hits == 0 && fmt == F_YAML && nulls), "reference", "'%s' addresses %d nodes", w->ref, hits);
      ++refs;
    }
  for (int i = 0; i < w->n; ++i)
    refs += check_refs (w->k[i], ids, n);
  return (refs);
}

static void
plain_char (const mcell_t * c, void * ctx)
{ /* XML has no way to write control characters, zero included */
  bool * stuck = ctx;
  if (c->mt->kind == MK_CHAR)
    {
      unsigned char x = *c->addr;
      if (x < ' ' && x != '\t' && x != '\n' && x != '\r')
	{
	  if (c->discr_or_size)
	    *stuck = true;
	  else
	    *c->addr = 'a' + x % 26;
	}
    }
}

void
p_wellformed (void)
{
  case_begin ();
  const mops_t * m = pick_root ();
  static const mfmt_t formats[] = { F_JSON, F_YAML, F_XML1, F_XML2 };
  fmt = PBT_PICK (formats);
  bool refs = pbt_chance (1, 4);
  gopt_t opt = pick_opt ();
  if (!refs)
    {
      opt.alias = 0;
      opt.no_str_alias = opt.no_voidptr = opt.no_interior = opt.no_overlap = true;
      opt.no_funcs = true;
    }
  opt.no_full_chararr = pbt_chance (1, 2);
  opt.str_mode = fmt == F_JSON ? (STR_ASCII | STR_SPECIAL | STR_UTF8 | STR_CTRL | STR_BYTES) : fmt == F_YAML ? (STR_ASCII | STR_SPECIAL | STR_UTF8 | STR_CTRL) : (STR_ASCII | STR_SPECIAL | STR_UTF8);
  opt.str_max = pbt_chance (1, 8) ? 300 : 20;
  mgraph_t g;
  graph_gen (&g, m->mt, &opt);
  if (fmt == F_YAML && graph_bad_utf8 (&g))
    pbt_reject ();
  if (XML)
    {
      bool stuck = false;
      model_walk (m->mt, g.root, plain_char, &stuck);
      if (stuck || graph_ctrl_chars (&g))
	pbt_reject ();
      if (fmt == F_XML2 && graph_high_bytes (&g))
	pbt_label ("XML2 with bytes of high values");
    }
  arena_snapshot (&g.arena);
  pbt_note ("%s as %s%s\n", m->name, fmt_name[fmt], refs ? " with references" : "");
  graph_note (&g);
  mbuf_t b = save_checked (m, fmt, &g);
  note_buf ("text", fmt, &b);
  w_t * w = fmt == F_JSON ? js_parse (&b) : fmt == F_YAML ? ya_parse (&b) : xm_parse (fmt, &b);
  snprintf (path, sizeof (path), "%s", m->name);
  if (!refs)
    {
      dn_t * t = model_tree (m->mt, g.root);
      if (fmt == F_JSON)
	{ /* the object is a single member or a value */
	}
      check_node (w, t);
      tree_free (t);
    }
  else if (fmt != F_JSON)
    {
      static const w_t * ids[20000];
      int n = 0;
      collect_ids (w, ids, &n, 20000);
      nulls = count_nulls (w);
      unsigned k = check_refs (w, ids, n);
      pbt_label (k ? "with references" : "no references");
      for (int i = 0; i < n && n < 2000; ++i)
	for (int j = 0; j < i; ++j)
	  WCK (strcmp (ids[i]->id, ids[j]->id), "reference", "index '%s' is given twice", ids[i]->id);
    }
  w_free (w);
  buf_free (&b);
  pbt_label ("format %s", fmt_name[fmt]);
  graph_labels (&g);
  if (graph_nontrivial (&g))
    pbt_nontrivial (pbt_mix (graph_shape (&g), fmt + 16 * refs));
  graph_free (&g);
}

/* ---------------------------------------------------------------- known findings */
TYPEDEF_STRUCT (kw_t, (string_t, s))

void
p_known_yaml_aliases (void)
{
  case_begin ();
  kw_t x = { NULL };
  char * s = MR_SAVE_YAML (kw_t, &x);
  yaml_parser_t p;
  yaml_document_t d;
  yaml_parser_initialize (&p);
  yaml_parser_set_input_string (&p, (unsigned char *)s, strlen (s));
  PBT_CHECK (yaml_parser_load (&p, &d), "not-composed", "%s", p.problem);
}

void
p_known_xml_control (void)
{
  case_begin ();
  kw_t x = { "\a" };
  char * s = MR_SAVE_XML1 (kw_t, &x);
  xmlSetStructuredErrorFunc (NULL, (void *)xm_error);
  PBT_CHECK (xmlReadMemory (s, strlen (s), NULL, NULL, XML_PARSE_NONET), "refused", "%s", xm_why);
}
