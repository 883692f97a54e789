/* P10, P11: any input is loaded or rejected cleanly. */
#define _GNU_SOURCE
#include "text.h"
#include <ctype.h>
#include <rpc/types.h>
#include <rpc/xdr.h>

/* ---------------------------------------------------------------- mutations */
typedef struct tx_t { char * s; size_t n, alloc; } tx_t;

static void
tx_splice (tx_t * t, size_t pos, size_t del, const void * ins, size_t n)
{
  if (pos > t->n)
    pos = t->n;
  if (del > t->n - pos)
    del = t->n - pos;
  if (t->n - del + n > 60000)
    return;
  char * copy = malloc (n + 1);
  memcpy (copy, ins, n);
  if (t->n - del + n + 1 > t->alloc)
    {
      t->alloc = 2 * (t->n - del + n + 1);
      t->s = realloc (t->s, t->alloc);
    }
  memmove (t->s + pos + n, t->s + pos + del, t->n - pos - del);
  memcpy (t->s + pos, copy, n);
  t->n += n - del;
  t->s[t->n] = 0;
  free (copy);
}

static const char * const dict_cinit[] = { "/* ref = 1 */", "/* ref_idx = 1 */", "/* ref_content = 1 */", "/* ref = 4294967295 */", "/* ref_idx = 4294967295 */", "/* ref = 99999999999 */",
  "(int)", "(string_t)", "(c_node_t)", "(void)", "(no_such_type)", "(int *)", "(c_us_t [])", "NULL", "{", "}", "(", ")", ",", ".", "=", "{}", "{ , }", "\"\"", "\"\\\"", "'", "'a'", "'\\x41'", "'\\0'",
  "''", "'ab'", "/*", "*/", "-", "+", "*", "/", "%", "|", "&", "^", "1/0", "i", "I", "1i", "nan", "-inf", "0x", "08", "\\", "\"\\x\"", "\"\\777\"", ".x = ", ".v = 1", ".next = { { } }", "true", "CE_A", "I", "{{{{" };
static const char * const dict_json[] = { "null", "true", "false", "{", "}", "[", "]", ",", ":", "\"\"", "\"v\": 1", "\"next\": ", "\"x\":", "[[", "{}", "[]", "-1", "0", "1", "2", "4294967295", "-4294967296", "18446744073709551616",
  "1e5", "1e99999", "nan", "-inf", "\"\\u0041\"", "\"\\u00\"", "\"\\\"", "\\", "\"", "\"\\uD800\"", "08", "1.", "-", "{\"\":1}", "\"true\"", "[[[[[[", "\"ref\"" };
static const char * const dict_yaml[] = { "~", "null", "true", "- ", "-\n", ": ", "\n", "\n  ", "  ", "\t", "{", "}", "[", "]", ",", "&a ", "*a ", "&1 ", "*1", "!!str ", "!!int ", "---\n", "...\n", "# c\n", "'", "\"", "|\n", ">\n", "? ", "%YAML 1.1\n",
  "v: 1", "next: ", "x: ", "1", "-1", "\"\\x41\"", "\"\\0\"", "<<: *1", "ref: 1", "\xef\xbb\xbf", "\xff", "[[[[", "{a: {b: " };
static const char * const dict_xml[] = { "<", ">", "/>", "</", "<x>", "</x>", "<x/>", "<v>1</v>", "<next>", "</next>", " ref=\"1\"", " ref_idx=\"1\"", " ref_content=\"1\"", " ref=\"4294967295\"", " ref_idx=\"4294967295\"",
  " isnull=\"true\"", " isnull=\"false\"", " ref=\"\"", " ref=\"-1\"", " ref=\"x\"", " size=\"3\"", "&amp;", "&#x41;", "&#x", "&#x00041;", "&#65;", "&", "&;", "&#;", "&unknown;", "&lt", "<!-- c -->", "<![CDATA[x]]>", "<?xml version=\"1.0\"?>", "<?pi?>",
  "<!DOCTYPE a [<!ENTITY b \"c\">]>", "&b;", "a:", "\"", "'", "=", "]]>", "<a:x>", "\xef\xbb\xbf", "\xff" };
static const char * const dict_scm[] = { "(", ")", "()", "nil", "t", "'", "`", "#\\a", "#\\x41", "#\\", "#x1F", "-#x10", "#o17", "#x", "\"\"", "\"\\x41;\"", "\"\\x\"", "\"\\\"", "\"", ";", ";; (ref . 1) ", ";; (ref_idx . 1) ", ";; (ref_content . 1) ", "; (ref . 4294967295)\n",
  "; (ref_idx . 4294967295)\n", " . ", "(v . 1)", "(next . ", "(x . ", "1e5", "nan", "-inf", "t)", "|", "(((((", ". ", "CE_A", "(1 2 3)" };
static const char * const dict_names[] = { "v", "next", "prev", "x", "y", "s1", "d1", "n1", "d2", "n2", "kids", "kids_size", "li", "ref", "ref_idx", "pi", "ua", "ub", "uc", "di", "tp", "type", "after", "nosuch", "a1", "l1", "m1", "p1" };
static const char * const dict_num[] = { "0", "1", "-1", "255", "256", "127", "-128", "65536", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "340282366920938463463374607431768211456", "1e400", "-1e4000",
  "0x7fffffffffffffff", "1e-5000", "00000000000000000000000000000001", "0.1", "1.5", "2", "3", "4", "5", "7", "8", "9", "10" };

static const char *
dict_pick (mfmt_t f)
{
  switch (pbt_draw (5))
    {
    case 0: return (PBT_PICK (dict_names));
    case 1: return (PBT_PICK (dict_num));
    default:
      switch (f)
	{
	case F_CINIT: return (PBT_PICK (dict_cinit));
	case F_JSON: return (PBT_PICK (dict_json));
	case F_YAML: return (PBT_PICK (dict_yaml));
	case F_SCM: return (PBT_PICK (dict_scm));
	default: return (PBT_PICK (dict_xml));
	}
    }
}

/* position of a token boundary most of the time */
static size_t
pick_pos (const tx_t * t)
{
  size_t p = pbt_draw (t->n + 1);
  if (pbt_chance (2, 3))
    while (p < t->n && (isalnum ((unsigned char)t->s[p]) || t->s[p] == '_'))
      ++p;
  return (p);
}

static void
mutate_text (tx_t * t, mfmt_t f, const tx_t * other)
{
  size_t p = pick_pos (t);
  switch (pbt_draw (12))
    {
    case 0:
      if (t->n)
	t->s[p % t->n] = 1 + pbt_draw (255);
      break;
    case 1:
      tx_splice (t, p, 1 + pbt_geom (40, 3, 4), "", 0);
      break;
    case 2:
      {
	char c = " \n\t(){}[]<>/\"'\\,.:;=-+*&#!|%0159aefintxN_~@`^?\x80\xff"[pbt_draw (52)];
	tx_splice (t, p, 0, &c, 1);
	break;
      }
    case 3: case 4:
      {
	const char * w = dict_pick (f);
	tx_splice (t, p, 0, w, strlen (w));
	break;
      }
    case 5: case 6:
      {
	/* replace a word */
	const char * w = dict_pick (f);
	size_t e = p;
	while (e < t->n && !isalnum ((unsigned char)t->s[e]))
	  ++e;
	p = e;
	while (e < t->n && (isalnum ((unsigned char)t->s[e]) || strchr ("_.+-", t->s[e])))
	  ++e;
	tx_splice (t, p, e - p, w, strlen (w));
	break;
      }
    case 7:
      if (t->n)
	{
	  size_t a = pick_pos (t), len = 1 + pbt_draw (60);
	  if (a < t->n)
	    tx_splice (t, p, 0, t->s + a, len < t->n - a ? len : t->n - a);
	}
      break;
    case 8:
      if (other->n)
	{
	  size_t a = pick_pos (other), len = 1 + pbt_draw (100);
	  if (a < other->n)
	    tx_splice (t, p, pbt_chance (1, 2) ? len : 0, other->s + a, len < other->n - a ? len : other->n - a);
	}
      break;
    case 9:
      if (pbt_chance (1, 4))
	tx_splice (t, p, t->n, "", 0);
      else
	{
	  /* lines exchanged */
	  char * nl = memchr (t->s + p, '\n', t->n - p);
	  if (nl)
	    {
	      size_t q = nl - t->s + 1;
	      char * e = memchr (t->s + q, '\n', t->n - q);
	      if (e)
		{
		  size_t len = e - t->s + 1 - q;
		  char line[400];
		  if (len < sizeof (line))
		    {
		      memcpy (line, t->s + q, len);
		      tx_splice (t, q, len, "", 0);
		      tx_splice (t, pbt_draw (t->n + 1), 0, line, len);
		    }
		}
	    }
	}
      break;
    case 10:
      if (t->n)
	{
	  /* a digit is changed */
	  size_t a = p;
	  while (a < t->n && !isdigit ((unsigned char)t->s[a]))
	    ++a;
	  if (a < t->n)
	    t->s[a] = '0' + pbt_draw (10);
	}
      break;
    default:
      {
	/* deep nesting or a long token */
	static const char * const rep[] = { "(", "{", "[", "- ", "((", "-", "[{", "{{", "\"", "a", "1", "<x>", " ", "\n", "/*", "\\", "{ .next = {", "<next>", "(next . ((", "{\"next\":[", "&amp;", "'" };
	const char * r = PBT_PICK (rep);
	int k = 1 + (int)pbt_draw (pbt_chance (1, 20) ? 3000 : 20);
	for (int i = 0; i < k; ++i)
	  tx_splice (t, p, 0, r, strlen (r));
	break;
      }
    }
}

/* ---------------------------------------------------------------- well formed objects */
typedef struct wf_t { const char * root; size_t root_size; void * seen[4096]; int n; const char * why; bool xdr; } wf_t;

static bool
has_free_union (const mt_t * mt, const mt_t ** stack, int depth)
{
  for (int i = 0; i < depth; ++i)
    if (stack[i] == mt)
      return (false);
  if (depth > 60)
    return (true);
  stack[depth] = mt;
  switch (mt->kind)
    {
    case MK_UNION: case MK_VOIDPTR: case MK_TPTR: return (true);
    case MK_STRUCT:
      for (int i = 0; i < mt->nf; ++i)
	if (!(mt->f[i].flags & MF_VOID) && has_free_union (mt->f[i].type, stack, depth + 1))
	  return (true);
      return (false);
    case MK_ARRAY: case MK_PTR: return (has_free_union (mt->elem, stack, depth + 1));
    default: return (false);
    }
}

/* a size that is kept by a pointer may be read */
static bool
size_readable (const mt_t * st, const char * base, int size_field)
{
  const mf_t * f = &st->f[size_field - 1];
  if (f->type->kind != MK_PTR)
    return (true);
  char * q = *(char * const *)(base + f->offset);
  size_t size;
  return (!q || (mem_block_of (q, &size) == q && size >= msize (f->type->elem)));
}

/* every pointer addresses a block of its own of the right size */
static bool
wf (const mt_t * mt, char * p, const mt_t * container, char * base, const mf_t * mf, wf_t * w)
{
  switch (mt->kind)
    {
    case MK_STRING: case MK_PTR:
      {
	char * q = *(char **)p;
	if (!q)
	  return (true);
	size_t size;
	const char * b = mem_block_of (q, &size);
	if (!b || b != q)
	  return (w->why = "pointer does not address a block", false);
	for (int i = 0; i < w->n; ++i)
	  if (w->seen[i] == q)
	    return (w->why = "shared", false);
	if (w->n >= 4096)
	  return (w->why = "too many", false);
	w->seen[w->n++] = q;
	if (mt->kind == MK_STRING)
	  return (memchr (q, 0, size) != NULL);
	if (mt->elem->kind == MK_CHARARR && mt->elem->size == 0)
	  return (true);
	size_t es = msize (mt->elem);
	if (!es)
	  return (w->why = "zero size", false);
	size_t n = 1;
	if (mf && mf->size_field)
	  {
	    if (!size_readable (container, base, mf->size_field))
	      return (w->why = "pointer does not address a block", false);
	    i128 s = size_value (container, base, mf->size_field);
	    if (s < 0 || s > (i128)size)
	      return (w->why = "size", false);
	    /* size that is kept by a pointer may contradict to the number of elements in the text,
	       XDR stream has two sizes that may contradict each other */
	    if ((w->xdr || container->f[mf->size_field - 1].type->kind == MK_PTR) && s != (i128)size)
	      return (w->why = "size", false);
	    n = (size_t)s / es;
	    /* XDR stream may have an opaque block at the place of an array */
	    if (w->xdr && n * es != (size_t)s)
	      return (w->why = "size", false);
	  }
	else if (size > es)
	  return (w->why = "several elements under a pointer without size", false);
	if (n * es > size)
	  return (w->why = "block is small", false);
	for (size_t i = 0; i < n; ++i)
	  if (!wf (mt->elem, q + i * es, NULL, NULL, NULL, w))
	    return (false);
	return (true);
      }
    case MK_STRUCT:
      for (int i = 0; i < mt->nf; ++i)
	if (!(mt->f[i].flags & MF_VOID) && !wf (mt->f[i].type, p + mt->f[i].offset, mt, p, &mt->f[i], w))
	  return (false);
      return (true);
    case MK_ARRAY:
      {
	size_t n = mt->count;
	if (mf && mf->size_field)
	  {
	    if (!size_readable (container, base, mf->size_field))
	      return (w->why = "pointer does not address a block", false);
	    i128 s = size_value (container, base, mf->size_field);
	    if (s < 0 || s > (i128)(n * msize (mt->elem)))
	      return (w->why = "size of an array", false);
	    /* elements over the size are not a part of the object */
	    for (size_t i = (size_t)s / msize (mt->elem) * msize (mt->elem); i < n * msize (mt->elem); ++i)
	      if (p[i])
		return (w->why = "element over the size", false);
	    n = (size_t)s / msize (mt->elem);
	  }
	for (size_t i = 0; i < n; ++i)
	  if (!wf (mt->elem, p + i * msize (mt->elem), NULL, NULL, NULL, w))
	    return (false);
	return (true);
      }
    default:
      return (true);
    }
}

static void
after_success (const mops_t * o, void * d, mfmt_t f)
{
  const mt_t * stack[64];
  if (has_free_union (o->mt, stack, 0))
    {
      pbt_count ("loaded, has unions", 1);
      mem_free_all ();
      return;
    }
  wf_t w = { .root = d, .xdr = (F_XDR == f) };
  if (!wf (o->mt, d, NULL, NULL, NULL, &w))
    {
      pbt_count ("loaded, shares objects or sizes", 1);
      mem_free_all ();
      return;
    }
  if (mem_live () != (size_t)w.n)
    pbt_fail ("leak-after-success", "%zu blocks are allocated, but %d belong to the loaded object: %s", mem_live (), w.n, mem_describe_live ());
  mfmt_t sf = pbt_chance (1, 2) ? F_XDR : pick_text ();
  mem_cap = 0;
  mbuf_t b = o->save (sf, d);
  buf_free (&b);
  PBT_CHECK (mem_live () == (size_t)w.n, "save-leak", "saving a loaded object to %s leaves blocks: %s", fmt_name[sf], mem_describe_live ());
  PBT_CHECK (o->free (d), "free-failed", "releasing of a loaded object failed");
  if (mem_live ())
    pbt_fail ("free-leak", "releasing of a loaded object leaves blocks: %s", mem_describe_live ());
  pbt_count ("loaded", 1);
}

static const mops_t *
pick_pointer_type (void)
{
  static const char * const n[] = { "c_node_t", "c_ptrs_t", "c_dyn_t", "c_tree_t", "c_strings_t", "c_misc_t", "c_limited_t", "c_names_t", "c_scalars_t", "c_uni_t", "c_anon_t", "c_arrays_t" };
  return (root_by_name (PBT_PICK (n)));
}

static void
gen_source (const mops_t * o, mgraph_t * g, gopt_t * opt)
{
  *opt = pick_opt ();
  opt->budget = 1 + (int)pbt_draw (10);
  opt->max_count = 4;
  opt->str_max = 20;
  graph_gen (g, o->mt, opt);
}

static void
save_to (const mops_t * o, mfmt_t f, mgraph_t * g, tx_t * t)
{
  mbuf_t b = o->save (f, g->root);
  if (b.ptr)
    tx_splice (t, 0, 0, b.ptr, b.size);
  buf_free (&b);
}

void
p_any_text (void)
{
  case_begin ();
  mfmt_t f = pick_text ();
  const mops_t * o = pbt_chance (1, 2) ? pick_pointer_type () : pick_root ();
  gopt_t opt;
  mgraph_t g, g2;
  tx_t t = { calloc (1, 16), 0, 16 }, other = { calloc (1, 16), 0, 16 };
  bool from_object = pbt_chance (9, 10);
  gen_source (o, &g, &opt);
  if (from_object)
    save_to (o, f, &g, &t);
  if (pbt_chance (1, 4))
    {
      const mops_t * o2 = pick_root ();
      gen_source (o2, &g2, &opt);
      save_to (o2, pbt_chance (3, 4) ? f : pick_text (), &g2, &other);
      graph_free (&g2);
    }
  graph_free (&g);
  PBT_CHECK (!mem_live (), "leak", "saving leaves blocks: %s", mem_describe_live ());
  int m = (from_object ? 0 : 1) + (int)pbt_geom (20, 3, 4);
  for (int i = 0; i < m; ++i)
    mutate_text (&t, f, &other);
  const mops_t * dst = pbt_chance (1, 12) ? pick_root () : o;
  /* exact size */
  size_t n = strlen (t.s);
  char * s = malloc (n + 1);
  memcpy (s, t.s, n + 1);
  free (t.s);
  free (other.s);
  pbt_note ("target %s", dst->name);
  mbuf_t b = { s, n, n + 1 };
  note_buf ("text", f, &b);
  char * copy = strdup (s);
  void * d = obj_alloc (dst->mt, 0xa5);
  mem_cap = 16 << 20;
  int rc = dst->load (f, &b, d);
  PBT_CHECK (0 == memcmp (copy, s, n + 1), "text-altered", "text was altered by loading");
  pbt_count (fmt_name[f], 1);
  if (n > 10)
    pbt_nontrivial (pbt_hash (f + 16 * dst->mt->kind + 1000 * dst->mt->size, copy, n));
  free (copy);
  if (rc)
    after_success (dst, d, f);
  else
    {
      pbt_count ("refused", 1);
      if (mem_live ())
	pbt_fail ("leak-after-failure", "%zu blocks are not released after refused %s text: %s", mem_live (), fmt_name[f], mem_describe_live ());
    }
  free (s);
  free (d);
  mem_cap = 0;
}

/* ---------------------------------------------------------------- XDR */
static void
mutate_xdr (tx_t * t, const tx_t * other)
{
  static const uint32_t words[] = { 0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 64, 255, 256, 0x7f, 0x80, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffc, 0xfffffffe, 0xffffffff, 1000, 40, 24, 12 };
  size_t p = 4 * pbt_draw (t->n / 4 + 1);
  uint32_t w = PBT_PICK (words);
  unsigned char b[4] = { w >> 24, w >> 16, w >> 8, w };
  switch (pbt_draw (9))
    {
    case 0: if (t->n) t->s[pbt_draw (t->n)] = pbt_draw (256); break;
    case 1: if (t->n) t->s[pbt_draw (t->n)] ^= 1 << pbt_draw (8); break;
    case 2: case 3: case 4: if (p + 4 <= t->n) memcpy (t->s + p, b, 4); break;
    case 5: tx_splice (t, p, 0, b, 4); break;
    case 6: tx_splice (t, p, 4 * (1 + pbt_draw (4)), "", 0); break;
    case 7:
      if (other->n)
	{
	  size_t a = 4 * pbt_draw (other->n / 4 + 1), len = 4 * (1 + pbt_draw (12));
	  if (a < other->n)
	    tx_splice (t, p, pbt_chance (1, 2) ? len : 0, other->s + a, len < other->n - a ? len : other->n - a);
	}
      break;
    default: tx_splice (t, pbt_draw (t->n + 1), t->n, "", 0); break;
    }
}

void
p_any_xdr (void)
{
  case_begin ();
  const mops_t * o = pbt_chance (1, 2) ? pick_pointer_type () : pick_root ();
  gopt_t opt;
  mgraph_t g, g2;
  tx_t t = { calloc (1, 16), 0, 16 }, other = { calloc (1, 16), 0, 16 };
  if (pbt_chance (9, 10))
    {
      gen_source (o, &g, &opt);
      save_to (o, F_XDR, &g, &t);
      graph_free (&g);
    }
  else
    {
      int n = pbt_draw (200);
      for (int i = 0; i < n; ++i)
	{
	  char c = pbt_chance (1, 2) ? 0 : pbt_chance (1, 2) ? 1 << pbt_draw (8) : (int)pbt_draw (256);
	  tx_splice (&t, t.n, 0, &c, 1);
	}
    }
  if (pbt_chance (1, 3))
    {
      const mops_t * o2 = pick_root ();
      gen_source (o2, &g2, &opt);
      save_to (o2, F_XDR, &g2, &other);
      graph_free (&g2);
    }
  PBT_CHECK (!mem_live (), "leak", "saving leaves blocks: %s", mem_describe_live ());
  int m = (int)pbt_geom (12, 3, 4);
  for (int i = 0; i < m; ++i)
    mutate_xdr (&t, &other);
  const mops_t * dst = pbt_chance (1, 12) ? pick_root () : o;
  size_t n = t.n;
  char * s = malloc (n + !n);
  memcpy (s, t.s, n);
  free (t.s);
  free (other.s);
  pbt_note ("target %s", dst->name);
  mbuf_t b = { s, n, n };
  pbt_note_bytes ("bytes", s, n);
  if (n > 8)
    pbt_nontrivial (pbt_hash (dst->mt->kind + 1000 * dst->mt->size, s, n));
  void * d = obj_alloc (dst->mt, 0xa5);
  mem_cap = 16 << 20;
  int rc, stream = (int)pbt_draw (3);
  XDR xdrs;
  switch (stream)
    {
    case 0:
      rc = dst->load (F_XDR, &b, d);
      break;
    case 1:
      xdrmem_create (&xdrs, s, n, XDR_DECODE);
      rc = dst->xload (&xdrs, d);
      xdr_destroy (&xdrs);
      break;
    default:
      {
	FILE * fp = n ? fmemopen (s, n, "rb") : fopen ("/dev/null", "rb");
	xdrstdio_create (&xdrs, fp, XDR_DECODE);
	rc = dst->xload (&xdrs, d);
	xdr_destroy (&xdrs);
	fclose (fp);
	break;
      }
    }
  if (rc)
    after_success (dst, d, F_XDR);
  else
    {
      pbt_count ("refused", 1);
      if (mem_live ())
	pbt_fail ("leak-after-failure", "%zu blocks are not released after refused XDR: %s", mem_live (), mem_describe_live ());
    }
  free (s);
  free (d);
  mem_cap = 0;
}
