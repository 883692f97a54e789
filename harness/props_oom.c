/* P12: every allocation of an operation fails once; the operation fails cleanly or gives its complete result. */
#define _GNU_SOURCE
#include "common.h"
#include "graph.h"

enum { OP_SAVE, OP_LOAD, OP_COPY, OP_FREE, OP_CMP, OP_HASH, OP_PRINT, OP_LAST };
static const char * const op_name[] = { "save", "load", "copy", "free", "cmp", "hash", "print" };

static bool
same_object (const mops_t * o, void * a, void * b, mfmt_t f, const char ** how)
{
  mbuf_t x = o->save (f, a), y = o->save (f, b);
  bool same = (x.ptr && y.ptr) ? x.size == y.size && 0 == memcmp (x.ptr, y.ptr, x.size) : x.ptr == y.ptr;
  *how = "";
  if (!same && pbt_verbose && f != F_XDR)
    printf ("complete: %s\npartial: %s\n", x.ptr, y.ptr);
  buf_free (&x);
  buf_free (&y);
  return (same);
}

void
p_oom (void)
{
  const mops_t * o;
  mgraph_t g;
  case_begin ();
  o = pick_root ();
  gopt_t opt = pick_opt ();
  opt.str_mode = STR_ASCII | STR_SPECIAL;
  opt.str_max = 60;
  opt.no_nan = true;
  int op = pbt_draw (OP_LAST + 2);
  if (op >= OP_LAST)
    op = op - OP_LAST; /* saving and loading are more frequent */
  mfmt_t f = pbt_chance (1, 6) ? F_XDR : pick_text ();
  opt.no_funcs = true;
  gen_on (o, &g, &opt);
  mbuf_t ref = { 0 };
  void * base = NULL; /* object loaded without failures, owned by the library */
  char s[120];
  if (op == OP_FREE)
    f = F_XDR;
  if (op != OP_PRINT)
    {
      ref = o->save (f, g.root);
      if (!ref.ptr && f != F_XDR)
	pbt_reject ();
      if (op == OP_LOAD || op == OP_FREE)
	{ /* also warms caches of the library up */
	  base = obj_alloc (o->mt, 0);
	  if (!o->load (f, &ref, base))
	    pbt_reject (); /* known findings of other properties */
	}
    }
  size_t live0 = mem_live ();
  long total = -1;
  bool persistent = pbt_chance (1, 3);
  unsigned shift = pbt_draw (7);
  pbt_note ("%s %s %s, %s\n", op_name[op], o->name, op == OP_SAVE || op == OP_LOAD ? fmt_name[f] : "", persistent ? "all allocations fail from some point on" : "one allocation fails");
  if (op == OP_SAVE || op == OP_LOAD)
    snprintf (s, sizeof (s), "%s %s", op_name[op], fmt_name[f]);
  else
    snprintf (s, sizeof (s), "%s", op_name[op]);
  pbt_label ("%s", s);
  long done = 0, k = -1;
  /* first run counts allocations */
  for (;;)
    {
      char what[200];
      snprintf (what, sizeof (what), "%s %s of %s with allocation %ld of %ld failed%s", op_name[op], op == OP_SAVE || op == OP_LOAD ? fmt_name[f] : "", o->name, k, total, persistent ? " and all after it" : "");
      mbuf_t b = { 0 };
      void * d = NULL;
      int ok = 1;
      if (op == OP_LOAD || op == OP_COPY)
	d = obj_alloc (o->mt, 0x5a);
      if (op == OP_FREE)
	{
	  d = obj_alloc (o->mt, 0);
	  mem_fail_at (-1, false);
	  if (!o->load (f, &ref, d))
	    pbt_fail ("harness", "load is not repeatable");
	}
      char * text = NULL;
      if (op == OP_LOAD && f != F_XDR)
	{ /* loaders get their own copy */
	  text = malloc (ref.size + 1);
	  memcpy (text, ref.ptr, ref.size + 1);
	}
      mbuf_t in = text ? (mbuf_t){ text, ref.size, ref.size + 1 } : ref;
      size_t live = mem_live ();
      FILE * null = op == OP_PRINT ? fopen ("/dev/null", "w") : NULL;
      mem_fail_at (k, persistent);
      switch (op)
	{
	case OP_SAVE: b = o->save (f, g.root); ok = b.ptr != NULL || (f == F_XDR && b.size == 0 && ref.ptr == NULL); break;
	case OP_LOAD: ok = o->load (f, &in, d); break;
	case OP_COPY: ok = o->copy (g.root, d); break;
	case OP_FREE: ok = o->free (d); break;
	case OP_CMP: ok = 0; o->cmp (g.root, g.root); break;
	case OP_HASH: ok = 0; o->hash (g.root); break;
	case OP_PRINT: ok = o->print (null, 0, g.root) >= 0; break;
	}
      long n = mem_allocs (), failed = mem_failed ();
      mem_fail_at (-1, false);
      if (k >= 0)
	snprintf (what, sizeof (what), "%s %s of %s with allocation %ld of %ld failed in %s%s", op_name[op], op == OP_SAVE || op == OP_LOAD ? fmt_name[f] : "", o->name, k, total, mem_failed_at, persistent ? " and all after it" : "");
      if (null)
	fclose (null);
      int x = arena_changed (&g.arena);
      PBT_CHECK (x < 0, "source-altered", "%s alters block %d of the source", what, x);
      if (text)
	PBT_CHECK (0 == memcmp (text, ref.ptr, ref.size + 1), "text-altered", "%s alters its text", what);
      if (k >= 0)
	PBT_CHECK (failed > 0, "not-repeatable", "%s needs only %ld allocations when it is repeated", what, n);
      const char * how = "";
      char sig[240];
      if (k < 0)
	mem_failed_at[0] = 0;
      int fn = strcspn (mem_failed_at, ":");
      if (ok)
	switch (op)
	  {
	  case OP_SAVE:
	    snprintf (sig, sizeof (sig), "incomplete %s, %.*s", s, fn, mem_failed_at);
	    PBT_CHECK (b.size == ref.size && (b.size == 0 || 0 == memcmp (b.ptr, ref.ptr, b.size)), sig, "%s returns success, but the text is not complete:\n%.300s\ninstead of\n%.300s", what, f == F_XDR ? "" : b.ptr, f == F_XDR ? "" : ref.ptr);
	    buf_free (&b);
	    break;
	  case OP_LOAD:
	  case OP_COPY:
	    snprintf (sig, sizeof (sig), "incomplete %s, %.*s", s, fn, mem_failed_at);
	    PBT_CHECK (same_object (o, op == OP_LOAD ? base : g.root, d, f, &how), sig, "%s returns success, but the object is not complete", what);
	    PBT_CHECK (o->free (d), "free-failed", "%s: result is not released", what);
	    break;
	  default:
	    break;
	  }
      else if (k < 0 && op != OP_CMP && op != OP_HASH)
	pbt_reject (); /* fails without any fault: matter of other properties */
      else if (op == OP_FREE)
	{ /* nothing is lost when release fails */
	  snprintf (sig, sizeof (sig), "free-half %.*s", fn, mem_failed_at);
	  PBT_CHECK (mem_live () == live, sig, "%s fails, but %zd blocks are already released", what, live - mem_live ());
	  PBT_CHECK (o->free (d), "free-failed", "%s: object is not released afterwards", what);
	}
      else if (op == OP_SAVE)
	buf_free (&b);
      if (mem_live () != (op == OP_FREE ? live0 : live))
	{
	  snprintf (sig, sizeof (sig), "leak %s, %.*s", s, fn, mem_failed_at);
	  pbt_fail (sig, "%zd blocks are not released after %s (returned %s): %s", mem_live () - (op == OP_FREE ? live0 : live), what, ok ? "success" : "failure", mem_describe_live ());
	}
      free (d);
      free (text);
      if (k < 0)
	{
	  total = n;
	  if (total == 0)
	    break;
	}
      else
	++done;
      /* all failure points of small objects, evenly spread ones of big objects */
      long step = total <= 60 ? 1 : total / 40;
      k = k < 0 ? (step > 1 ? (long)(shift % step) : 0) : k + step;
      if (k >= total)
	break;
    }
  pbt_count ("failed allocations", done);
  pbt_label ("%s allocations", total == 0 ? "no" : total < 5 ? "1-4" : total < 20 ? "5-19" : total < 61 ? "20-60" : "over 60");
  if (done >= 5)
    pbt_nontrivial (op * 16 + f * 2 + persistent);
  if (base)
    o->free (base), free (base);
  buf_free (&ref);
  check_no_leak ("leak-end", "the case");
  graph_free (&g);
}
