/* Properties over generated object graphs: copy, compare, hash, agreement of formats, purity. */
#define _GNU_SOURCE
#include "graph.h"
#include <math.h>

static const mfmt_t all_formats[] = { F_XDR, F_CINIT, F_JSON, F_YAML, F_XML1, F_XML2, F_SCM };

static bool
binary (mfmt_t f)
{
  return (f == F_XDR);
}

static bool
same_buf (const mbuf_t * a, const mbuf_t * b)
{
  return (a->size == b->size && (!a->size || !memcmp (a->ptr, b->ptr, a->size)));
}

/* where the texts part */
static const char *
parting (const mbuf_t * a, const mbuf_t * b)
{
  static char buf[300];
  size_t i = 0;
  while (i < a->size && i < b->size && a->ptr[i] == b->ptr[i])
    ++i;
  size_t s = i > 40 ? i - 40 : 0;
  snprintf (buf, sizeof (buf), "at %zu of %zu and %zu: ...%.*s| and ...%.*s|", i, a->size, b->size,
	    (int)(a->size - s > 80 ? 80 : a->size - s), a->ptr + s, (int)(b->size - s > 80 ? 80 : b->size - s), b->ptr + s);
  return (buf);
}

static int
sign (int x)
{
  return ((x > 0) - (x < 0));
}

/* ------------------------------------------------------------------ P06 */
typedef struct disjoint_t { const mgraph_t * g; const char * root; size_t size; } disjoint_t;

static void
disjoint (const mcell_t * c, void * ctx)
{
  disjoint_t * D = ctx;
  switch (c->mt->kind)
    {
    case MK_STRING: case MK_PTR: case MK_TPTR: case MK_VOIDPTR:
      {
	char * p = *(char **)c->addr;
	if (!p)
	  return;
	if (c->mt->kind == MK_TPTR && !c->tmt)
	  return;
	const char * nm = c->mf ? c->mf->name : "root";
	PBT_CHECK (!arena_find (&D->g->arena, p), "shares", "%s %s of the copy addresses storage of the original", c->mt->name, nm);
	PBT_CHECK ((p >= D->root && p < D->root + D->size) || mem_is_live (p), "dangling", "%s %s of the copy addresses neither the copy nor a live block", c->mt->name, nm);
	return;
      }
    default:
      return;
    }
}

void
p_copy (void)
{
  const mops_t * o;
  mgraph_t g, c;
  gopt_t opt = xdr_opt ();
  gen_case (&o, &g, &opt);
  meq_t eq = { .dup_ok = inside_out (&g) };
  graph_clone (&g, &c, 0x5c);
  void * d = obj_alloc (o->mt, 0xa5);
  PBT_CHECK (o->copy (g.root, d), "copy-failed", "MR_COPY_RECURSIVELY of %s failed", o->name);
  int k = arena_changed (&g.arena);
  PBT_CHECK (k < 0, "copy-alters", "copying altered block %d of the source", k);
  PBT_CHECK (model_eq (o->mt, g.root, d, &eq), "not-equal", "copy of %s differs: %s", o->name, eq.why);
  disjoint_t D = { &g, d, msize (o->mt) };
  model_walk (o->mt, d, disjoint, &D);
  size_t live = mem_live ();
  /* a copy of the copy, while the original is gone */
  graph_free (&g);
  PBT_CHECK (model_eq (o->mt, c.root, d, &eq), "not-independent", "copy of %s changed with the original: %s", o->name, eq.why);
  if (pbt_chance (1, 3))
    {
      void * d2 = obj_alloc (o->mt, 0xff);
      PBT_CHECK (o->copy (d, d2), "copy-failed", "MR_COPY_RECURSIVELY of a copy of %s failed", o->name);
      PBT_CHECK (o->free (d), "free-failed", "MR_FREE_RECURSIVELY of %s failed", o->name);
      if (!eq.dup_ok)
	PBT_CHECK (mem_live () == live, "copy-blocks", "copy owns %zu blocks, copy of the copy %zu", live, mem_live ());
      PBT_CHECK (model_eq (o->mt, c.root, d2, &eq), "not-equal", "copy of a copy of %s differs: %s", o->name, eq.why);
      free (d);
      d = d2;
      pbt_count ("copies of copies", 1);
    }
  else if (!eq.dup_ok && pbt_chance (1, 3))
    {
      /* loaded object, copied and released in either order */
      mbuf_t b = o->save (F_XDR, d);
      void * l = obj_alloc (o->mt, 0x77), * d2 = obj_alloc (o->mt, 0xff);
      PBT_CHECK (o->load (F_XDR, &b, l), "load-failed", "loading %s failed", o->name);
      buf_free (&b);
      PBT_CHECK (o->copy (l, d2), "copy-failed", "MR_COPY_RECURSIVELY of a loaded %s failed", o->name);
      PBT_CHECK (o->free (d), "free-failed", "MR_FREE_RECURSIVELY of %s failed", o->name);
      free (d);
      d = d2;
      if (pbt_chance (1, 2))
	{
	  d = l;
	  l = d2;
	}
      PBT_CHECK (o->free (l), "free-failed", "MR_FREE_RECURSIVELY of %s failed", o->name);
      free (l);
      PBT_CHECK (model_eq (o->mt, c.root, d, &eq), "not-equal", "copy of a loaded %s differs: %s", o->name, eq.why);
      pbt_count ("copies of loaded objects", 1);
    }
  free_loaded (o, d);
  graph_free (&c);
}

/* ------------------------------------------------------------------ P07 */
/* values that are equal, but have other representation */
static void
respell (const mcell_t * c)
{
#define RESPELL(T, OFF) do { T _v; memcpy (&_v, c->addr + (OFF), sizeof (_v)); \
    if (_v == 0) { _v = signbit (_v) ? 0 : -(T)0.0; memcpy (c->addr + (OFF), &_v, sizeof (_v) == 16 ? 10 : sizeof (_v)); } \
    else if (isnan (_v)) { _v = signbit (_v) ? (T)NAN : -(T)NAN; memcpy (c->addr + (OFF), &_v, sizeof (_v) == 16 ? 10 : sizeof (_v)); } } while (0)
  switch (c->mt->kind)
    {
    case MK_FLOAT: RESPELL (float, 0); break;
    case MK_CFLOAT: RESPELL (float, 0); RESPELL (float, 4); break;
    case MK_DOUBLE: RESPELL (double, 0); break;
    case MK_CDOUBLE: RESPELL (double, 0); RESPELL (double, 8); break;
    case MK_LDOUBLE: RESPELL (long double, 0); break;
    case MK_CLDOUBLE: RESPELL (long double, 0); RESPELL (long double, 16); break;
    case MK_CHARARR:
      {
	/* bytes after the terminator are not content */
	size_t n = strnlen (c->addr, c->mt->count);
	for (++n; n < c->mt->count; ++n)
	  c->addr[n] ^= 0x55;
	break;
      }
    default: break;
    }
#undef RESPELL
}

enum { KIN = 5 };

void
p_cmp (void)
{
  const mops_t * o;
  mgraph_t g[KIN];
  uint64_t h[KIN];
  int m[KIN][KIN], n = 2, mutated = 0;
  gopt_t opt = xdr_opt ();
  meq_t eq = { .numeric = true };
  gen_case (&o, &g[0], &opt);
  graph_clone (&g[0], &g[1], (int)pbt_draw (256));
  PBT_CHECK (model_eq (o->mt, g[0].root, g[1].root, &eq), "harness", "clone differs: %s", eq.why);
  if (pbt_chance (1, 2))
    {
      mcells_t cells;
      model_cells (o->mt, g[1].root, &cells);
      for (int i = 0; i < cells.n; ++i)
	respell (&cells.c[i]);
      cells_free (&cells);
      pbt_count ("other representation of equal values", 1);
    }
  int more = (int)pbt_draw (KIN - 1);
  /* sometimes all differ in the same cell only */
  uint64_t focus = pbt_chance (1, 2) ? 1 + pbt_draw (1 << 16) : 0;
  char what[KIN][120] = { "original", "clone" };
  for (; n < 2 + more && n < KIN; ++n)
    {
      mcells_t cells;
      graph_clone (&g[pbt_draw (n)], &g[n], (int)pbt_draw (256));
      model_cells (o->mt, g[n].root, &cells);
      strcpy (what[n], "clone");
      for (int k = (int)pbt_draw (3); cells.n && k >= 0; --k)
	{
	  if (cells_mutate (&cells, focus ? focus % cells.n : pbt_draw (cells.n), &g[n].arena, &opt, what[n], sizeof (what[n])))
	    ++mutated;
	  /* other cells may have become unreachable */
	  cells_free (&cells);
	  model_cells (o->mt, g[n].root, &cells);
	}
      pbt_note ("object %d: %s\n", n, what[n]);
      cells_free (&cells);
    }
  for (int i = 0; i < n; ++i)
    arena_snapshot (&g[i].arena);
  for (int i = 0; i < n; ++i)
    h[i] = o->hash (g[i].root);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      m[i][j] = sign (o->cmp (g[i].root, g[j].root));
  for (int i = 0; i < n; ++i)
    {
      int k = arena_changed (&g[i].arena);
      PBT_CHECK (k < 0, "alters", "comparison or hash altered block %d of the source", k);
      PBT_CHECK (o->hash (g[i].root) == h[i], "hash-unstable", "hash of %s changed without a change of the object", o->name);
      PBT_CHECK (m[i][i] == 0, "reflexive", "%s (%s) is not equal to itself", o->name, what[i]);
      for (int j = 0; j < n; ++j)
	{
	  bool same = model_eq (o->mt, g[i].root, g[j].root, &eq);
	  PBT_CHECK (m[i][j] == -m[j][i], "antisymmetric", "cmp (%d, %d) = %d, cmp (%d, %d) = %d of %s", i, j, m[i][j], j, i, m[j][i], o->name);
	  if (same)
	    PBT_CHECK (m[i][j] == 0, "equal-differ", "equal objects %d and %d (%s) compare as %d", i, j, o->name, m[i][j]);
	  else
	    PBT_CHECK (m[i][j] != 0, "differ-equal", "objects %d and %d (%s, %s) compare as equal, but differ: %s", i, j, o->name, what[j], eq.why);
	  if (m[i][j] == 0)
	    PBT_CHECK (h[i] == h[j], "hash", "objects %d and %d (%s) compare as equal, but have hashes %llx and %llx", i, j, o->name, (long long)h[i], (long long)h[j]);
	  for (int k = 0; k < n; ++k)
	    if (m[i][j] <= 0 && m[j][k] <= 0)
	      PBT_CHECK (m[i][k] <= 0 && (m[i][k] != 0 || (m[i][j] == 0 && m[j][k] == 0)), "transitive", "cmp (%d, %d) = %d, cmp (%d, %d) = %d, cmp (%d, %d) = %d of %s", i, j, m[i][j], j, k, m[j][k], i, k, m[i][k], o->name);
	}
    }
  if (mutated)
    pbt_count ("objects that differ in a cell", mutated);
  check_no_leak ("leak", "comparison and hash");
  for (int i = 0; i < n; ++i)
    graph_free (&g[i]);
}

/* ------------------------------------------------------------------ P13 */
/* KNOWN FINDING xml1-spelling: XML1 writes character references for some characters that libxml2 writes as they are */
static mbuf_t
respell_xml1 (const mbuf_t * b, bool * nul)
{
  static const struct { const char * from, * to; } map[] = { { "&quot;", "\"" }, { "&#x09;", "\t" }, { "&#x0A;", "\n" }, { "&#x0D;", "&#xD;" }, { "&#x7F;", "\x7f" }, };
  mbuf_t r = { .ptr = malloc (b->size + 1) };
  *nul = false;
  for (size_t i = 0; i < b->size; )
    {
      size_t k, n = 1;
      for (k = 0; k < sizeof (map) / sizeof (map[0]); ++k)
	if (!strncmp (b->ptr + i, map[k].from, n = strlen (map[k].from)))
	  break;
      if (k < sizeof (map) / sizeof (map[0]))
	{
	  memcpy (r.ptr + r.size, map[k].to, strlen (map[k].to));
	  r.size += strlen (map[k].to);
	  i += n;
	}
      else if (!strncmp (b->ptr + i, ">&#x00;</", 9))
	{
	  /* zero character is not a content for libxml2 */
	  r.ptr[r.size++] = '/';
	  r.ptr[r.size++] = '>';
	  i = strchr (b->ptr + i + 9, '>') + 1 - b->ptr;
	  *nul = true;
	}
      else
	r.ptr[r.size++] = b->ptr[i++];
    }
  r.ptr[r.size] = 0;
  return (r);
}

void
p_xml (void)
{
  const mops_t * o;
  mgraph_t g;
  gopt_t opt = pick_opt ();
  bool nul;
  if (pbt_chance (1, 4))
    opt.str_mode |= STR_UTF8;
  gen_case (&o, &g, &opt);
  if (graph_ctrl_chars (&g))
    {
      pbt_count ("excluded: control characters, that XML 1.0 has no representation for", 1);
      pbt_reject ();
    }
  meq_t eq = { .text = true, .dup_ok = inside_out (&g) };
  skip_prefix_overlap (&g, eq.dup_ok);
  mbuf_t b1 = save_checked (o, F_XML1, &g), b2 = save_checked (o, F_XML2, &g), r = respell_xml1 (&b1, &nul);
  note_buf ("saved", F_XML1, &b1);
  PBT_CHECK (same_buf (&r, &b2), "texts-differ", "XML texts of %s differ %s", o->name, parting (&r, &b2));
  if (!same_buf (&b1, &b2))
    pbt_count ("known finding: spelling of quotes, tabs, line feeds, DEL and NUL not compared", 1);
  free (r.ptr);
  /* KNOWN FINDING xml2-bytes: libxml2 takes references of bytes as code points */
  bool high = graph_high_bytes (&g) > 0;
  if (high)
    pbt_count ("known finding: bytes above 127 not loaded with XML2", 1);
  void * d[4] = { NULL };
  for (int i = 0; i < 4; ++i)
    {
      mfmt_t f = (i & 1) ? F_XML2 : F_XML1;
      mbuf_t * b = (i & 2) ? &b2 : &b1;
      if ((i & 1) && high)
	continue;
      if (i == 1 && nul)
	continue; /* the text is not XML */
      if (i > 1 && pbt_chance (1, 2))
	continue;
      d[i] = obj_alloc (o->mt, i ? 0xff : 0xa5);
      PBT_CHECK (o->load (f, b, d[i]), fsig ("load-failed", f, o), "loading %s with the %s loader failed", o->name, fmt_name[f]);
      PBT_CHECK (model_eq (o->mt, g.root, d[i], &eq), fsig ("not-equal", f, o), "%s loader restores %s differently: %s", fmt_name[f], o->name, eq.why);
      meq_t ex = { .text = false };
      PBT_CHECK (model_eq (o->mt, d[0], d[i], &ex), "loaders-differ", "the loaders restore different %s: %s", o->name, ex.why);
    }
  for (int i = 0; i < 4; ++i)
    if (d[i])
      {
	PBT_CHECK (o->free (d[i]), "free-failed", "MR_FREE_RECURSIVELY of %s failed", o->name);
	free (d[i]);
      }
  buf_free (&b1);
  buf_free (&b2);
  check_no_leak ("leak", "XML round trip");
  graph_free (&g);
}

/* ------------------------------------------------------------------ P14 */
static void
count_negative_zero (const mcell_t * c, void * ctx)
{
  int * n = ctx;
#define NZ(T, OFF) do { T _v; memcpy (&_v, c->addr + (OFF), sizeof (_v)); if (_v == 0 && signbit (_v)) ++*n; } while (0)
  switch (c->mt->kind)
    {
    case MK_FLOAT: NZ (float, 0); break;
    case MK_CFLOAT: NZ (float, 0); NZ (float, 4); break;
    case MK_DOUBLE: NZ (double, 0); break;
    case MK_CDOUBLE: NZ (double, 0); NZ (double, 8); break;
    case MK_LDOUBLE: NZ (long double, 0); break;
    case MK_CLDOUBLE: NZ (long double, 0); NZ (long double, 16); break;
    default: break;
    }
#undef NZ
}

void
p_formats (void)
{
  const mops_t * o;
  mgraph_t g, c;
  gopt_t opt = pick_opt ();
  gen_case (&o, &g, &opt);
  meq_t eq = { .text = true, .dup_ok = inside_out (&g) };
  skip_prefix_overlap (&g, eq.dup_ok);
  int nz = 0;
  model_walk (o->mt, g.root, count_negative_zero, &nz);
  bool ctrl = graph_ctrl_chars (&g) > 0;
  graph_clone (&g, &c, (int)pbt_draw (256));
  arena_snapshot (&c.arena);
  void * d[F_LAST] = { NULL };
  bool all = pbt_chance (1, 3);
  for (size_t i = 0; i < sizeof (all_formats) / sizeof (all_formats[0]); ++i)
    {
      mfmt_t f = all_formats[i];
      if ((f == F_XML2 && ctrl) || (!all && pbt_chance (2, 3)))
	continue;
      mbuf_t b = save_checked (o, f, &g), b2 = save_checked (o, f, &c);
      PBT_CHECK (same_buf (&b, &b2), fsig ("clone-text", f, o), "%s form of equal objects in other storage differs %s", fmt_name[f], binary (f) ? "" : parting (&b, &b2));
      buf_free (&b2);
      d[f] = obj_alloc (o->mt, 0xa5);
      PBT_CHECK (o->load (f, &b, d[f]), fsig ("load-failed", f, o), "loading %s from its %s form failed", o->name, fmt_name[f]);
      eq.text = !binary (f);
      PBT_CHECK (model_eq (o->mt, g.root, d[f], &eq), fsig ("not-equal", f, o), "%s form of %s is restored differently: %s", fmt_name[f], o->name, eq.why);
      if (!eq.dup_ok)
	{
	  if (binary (f) || !nz)
	    {
	      b2 = o->save (f, d[f]);
	      PBT_CHECK (same_buf (&b, &b2), fsig ("resave", f, o), "%s form of the restored %s differs %s", fmt_name[f], o->name, binary (f) ? "" : parting (&b, &b2));
	      buf_free (&b2);
	    }
	  /* text to text, through another format */
	  for (int k = 0; k < f; ++k)
	    if (d[k] && !nz && !binary (k))
	      {
		b2 = o->save (k, d[f]);
		mbuf_t b3 = o->save (k, d[k]);
		PBT_CHECK (binary (f) || same_buf (&b2, &b3), fsig ("cross-text", f, o), "%s forms of %s restored from %s and %s differ %s", fmt_name[k], o->name, fmt_name[f], fmt_name[k], parting (&b2, &b3));
		buf_free (&b2);
		buf_free (&b3);
		break;
	      }
	}
      buf_free (&b);
    }
  for (int i = 0; i < F_LAST; ++i)
    if (d[i])
      {
	PBT_CHECK (o->free (d[i]), "free-failed", "MR_FREE_RECURSIVELY of %s failed", o->name);
	free (d[i]);
      }
  check_no_leak ("leak", "round trips");
  graph_free (&g);
  graph_free (&c);
}

/* ------------------------------------------------------------------ P17 */
enum { OP_HASH = F_LAST, OP_CMP, OP_COPY, OP_PRINT, OP_LAST };

/* result of an operation as bytes */
static mbuf_t
perform (const mops_t * o, int op, void * root)
{
  mbuf_t b = { NULL };
  switch (op)
    {
    case OP_HASH:
      b.ptr = malloc (b.size = 8);
      *(uint64_t *)b.ptr = o->hash (root);
      break;
    case OP_CMP:
      b.ptr = malloc (b.size = 1);
      *b.ptr = o->cmp (root, root) != 0;
      break;
    case OP_COPY:
      {
	void * d = obj_alloc (o->mt, 0xa5);
	bool ok = o->copy (root, d);
	b.ptr = malloc (b.size = 2);
	b.ptr[0] = ok;
	meq_t eq = { .dup_ok = true };
	b.ptr[1] = ok && model_eq (o->mt, root, d, &eq);
	if (ok)
	  o->free (d);
	free (d);
	break;
      }
    case OP_PRINT:
      {
	FILE * f = open_memstream (&b.ptr, &b.size);
	long n = o->print (f, 0, root);
	fclose (f);
	PBT_CHECK (n == (long)b.size, "print-count", "MR_FPRINT returned %ld for %zu bytes", n, b.size);
	break;
      }
    default:
      {
	mbuf_t t = o->save (op, root);
	PBT_CHECK (t.ptr || (binary (op) && !t.size), "save-failed", "saving %s to %s failed", o->name, fmt_name[op]);
	b.ptr = malloc (t.size + 1);
	if (t.size)
	  memcpy (b.ptr, t.ptr, t.size);
	b.size = t.size;
	buf_free (&t);
	break;
      }
    }
  return (b);
}

static const char *
op_name (int op)
{
  static const char * const names[] = { "hash", "compare", "copy", "print" };
  return (op < F_LAST ? fmt_name[op] : names[op - F_LAST]);
}

void
p_pure (void)
{
  const mops_t * o[3];
  mgraph_t g[3];
  mbuf_t first[3][OP_LAST];
  gopt_t opt = pick_opt ();
  case_begin ();
  memset (first, 0, sizeof (first));
  int objs = 1 + (int)pbt_draw (3), steps = 2 + (int)pbt_draw (8);
  for (int i = 0; i < objs; ++i)
    {
      o[i] = (i && pbt_chance (1, 3)) ? o[0] : pick_root ();
      pbt_note ("object %d:\n", i);
      gen_on (o[i], &g[i], &opt);
    }
  int last_i = 0, last_op = -1;
  for (int s = 0; s < steps; ++s)
    {
      int i = (int)pbt_draw (objs), op = (int)pbt_draw (OP_LAST);
      if (last_op >= 0 && pbt_chance (1, 2))
	op = last_op; /* repetition */
      if (op == F_XML2 && graph_ctrl_chars (&g[i]))
	op = F_XML1;
      pbt_note ("step %d: %s of object %d\n", s, op_name (op), i);
      mbuf_t b = perform (o[i], op, g[i].root);
      for (int k = 0; k < objs; ++k)
	{
	  int x = arena_changed (&g[k].arena);
	  PBT_CHECK (x < 0, "alters", "%s of %s altered block %d of object %d", op_name (op), o[i]->name, x, k);
	}
      check_no_leak ("leak", op_name (op));
      if (first[i][op].ptr)
	{
	  mbuf_t * a = &first[i][op];
	  PBT_CHECK (same_buf (a, &b), "not-repeatable", "%s of %s gives another result %s", op_name (op), o[i]->name, op > F_XDR && op < F_LAST ? parting (a, &b) : "");
	  pbt_count ("repeated operations", 1);
	  free (b.ptr);
	}
      else
	first[i][op] = b;
      /* printing shows what saving to CINIT gives */
      if (first[i][OP_PRINT].ptr && first[i][F_CINIT].ptr && 0)
	PBT_CHECK (same_buf (&first[i][OP_PRINT], &first[i][F_CINIT]), "print-text", "MR_FPRINT differs from CINIT %s", parting (&first[i][OP_PRINT], &first[i][F_CINIT]));
      last_i = i;
      last_op = op;
    }
  (void)last_i;
  for (int i = 0; i < objs; ++i)
    {
      for (int k = 0; k < OP_LAST; ++k)
	free (first[i][k].ptr);
      graph_free (&g[i]);
    }
}

/* ------------------------------------------------------------------ P05 and P23 */
static void
storage_of (const char * const * roots, int n_roots, bool (*wanted) (const mgraph_t *))
{
  const mops_t * o;
  mgraph_t g, c;
  gopt_t opt = pick_opt ();
  case_begin ();
  o = pbt_chance (2, 3) ? root_by_name (roots[pbt_draw (n_roots)]) : pick_root ();
  if (!o)
    abort ();
  gen_on (o, &g, &opt);
  if (!wanted (&g))
    pbt_reject ();
  meq_t eq = { .text = true, .dup_ok = inside_out (&g) }, ex = { .dup_ok = eq.dup_ok };
  mfmt_t f = PBT_PICK (all_formats);
  if (f == F_XML2 && graph_ctrl_chars (&g))
    f = F_XML1;
  if (!binary (f))
    skip_prefix_overlap (&g, eq.dup_ok);
  eq.text = !binary (f);
  pbt_label ("format %s", fmt_name[f]);
  graph_clone (&g, &c, (int)pbt_draw (256));
  arena_snapshot (&c.arena);
  mbuf_t b = save_checked (o, f, &g), b2 = save_checked (o, f, &c);
  note_buf ("saved", f, &b);
  PBT_CHECK (same_buf (&b, &b2), fsig ("garbage-text", f, o), "%s form depends on bytes that are not content %s", fmt_name[f], binary (f) ? "" : parting (&b, &b2));
  void * d = obj_alloc (o->mt, 0xa5);
  PBT_CHECK (o->load (f, &b, d), fsig ("load-failed", f, o), "loading %s from its %s form failed", o->name, fmt_name[f]);
  PBT_CHECK (model_eq (o->mt, g.root, d, &eq), fsig ("not-equal", f, o), "%s form of %s is restored differently: %s", fmt_name[f], o->name, eq.why);
  buf_free (&b);
  buf_free (&b2);
  PBT_CHECK (o->free (d), "free-failed", "MR_FREE_RECURSIVELY of %s failed", o->name);
  check_no_leak ("leak", "free of the loaded object");
  memset (d, 0x3c, msize (o->mt));
  PBT_CHECK (o->cmp (g.root, c.root) == 0 && o->cmp (c.root, g.root) == 0, "garbage-cmp", "comparison of %s depends on bytes that are not content", o->name);
  PBT_CHECK (o->hash (g.root) == o->hash (c.root), "garbage-hash", "hash of %s depends on bytes that are not content", o->name);
  PBT_CHECK (o->copy (c.root, d), "copy-failed", "MR_COPY_RECURSIVELY of %s failed", o->name);
  PBT_CHECK (model_eq (o->mt, g.root, d, &ex), "copy-differs", "copy of %s differs: %s", o->name, ex.why);
  /* any change of an element is noticed */
  mcells_t cells;
  char what[120];
  model_cells (o->mt, c.root, &cells);
  if (cells.n && cells_mutate (&cells, pbt_draw (cells.n), &c.arena, &opt, what, sizeof (what)))
    {
      meq_t e2 = { .numeric = true };
      bool same = model_eq (o->mt, g.root, c.root, &e2);
      PBT_CHECK ((o->cmp (g.root, c.root) == 0) == same, "cmp-blind", "comparison of %s ignores a change of %s", o->name, what);
      pbt_count ("noticed changes", 1);
    }
  cells_free (&cells);
  free_loaded (o, d);
  graph_free (&c);
  graph_free (&g);
}

static bool
has_union (const mgraph_t * g)
{
  return (g->unions > 0);
}

void
p_union (void)
{
  static const char * const roots[] = { "c_uni_t", "c_unj_t", "c_unj_t", "c_uov_t", "c_anon_t", "c_uptr_t", "c_uout_t", "c_ushadow_t", "c_umid_t" };
  storage_of (roots, sizeof (roots) / sizeof (roots[0]), has_union);
}

static void
count_arrays (const mcell_t * c, void * ctx)
{
  int * n = ctx;
  if ((c->mt->kind == MK_ARRAY || (c->mt->kind == MK_PTR && c->resizable)) && c->count)
    ++*n;
}

static bool
has_array (const mgraph_t * g)
{
  int n = 0;
  model_walk (g->mt, g->root, count_arrays, &n);
  return (n > 0);
}

void
p_arrays (void)
{
  static const char * const roots[] = { "c_arrays_t", "c_limited_t", "c_dyn_t", "c_tree_t", "c_misc_t", "c_strings_t", "c_odd_t", "c_shared_offset_t" };
  storage_of (roots, sizeof (roots) / sizeof (roots[0]), has_array);
}
