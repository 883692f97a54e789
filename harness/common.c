#include "common.h"

extern const mops_t * const r0_roots[] __attribute__ ((weak));
extern const mops_t * const r1_roots[] __attribute__ ((weak));
extern const mops_t * const r2_roots[] __attribute__ ((weak));
extern const mops_t * const r3_roots[] __attribute__ ((weak));
extern const mops_t * const r4_roots[] __attribute__ ((weak));
extern const mops_t * const r5_roots[] __attribute__ ((weak));

static const mops_t * const *
root_set (int i)
{
  const mops_t * const * sets[] = { core_roots, r0_roots, r1_roots, r2_roots, r3_roots, r4_roots, r5_roots };
  return (i < (int)(sizeof (sets) / sizeof (sets[0])) ? sets[i] : NULL);
}

const mops_t *
pick_root (void)
{
  int sets = 1;
  while (root_set (sets))
    ++sets;
  int s = (sets > 1 && pbt_chance (2, 5)) ? 1 + (int)pbt_draw (sets - 1) : 0;
  const mops_t * const * r = root_set (s);
  int n = 0;
  while (r[n])
    ++n;
  const mops_t * o = r[pbt_draw (n)];
  return (o);
}

const mops_t *
root_by_name (const char * name)
{
  for (int s = 0; root_set (s); ++s)
    for (const mops_t * const * r = root_set (s); *r; ++r)
      if (!strcmp ((*r)->name, name))
	return (*r);
  return (NULL);
}

void
case_begin (void)
{
  static bool installed;
  if (!installed)
    {
      /* library's own lazily built state is not a part of any case */
      mr_get_td_by_name ("int");
      mem_install ();
      installed = true;
    }
  mr_conf.cache_func_resolve = false;
  mem_fail_at (-1, false);
  mem_cap = 0;
  mem_reset ();
}

gopt_t
pick_opt (void)
{
  gopt_t o = gopt_default ();
  o.budget = pbt_chance (1, 8) ? 40 : 12;
  o.depth = pbt_chance (1, 8) ? 20 : 6;
  o.alias = pbt_chance (1, 6) ? 70 : 30;
  o.max_count = pbt_chance (1, 12) ? 40 : 5;
  o.no_full_chararr = pbt_chance (2, 3);
  return (o);
}

void *
obj_alloc (const mt_t * mt, int fill)
{
  size_t n = msize (mt);
  void * p = malloc (n);
  if (n)
    memset (p, fill, n);
  return (p);
}

void
check_no_leak (const char * sig, const char * after)
{
  if (mem_live ())
    pbt_fail (sig, "%zu blocks of the library are not released after %s: %s", mem_live (), after, mem_describe_live ());
}

void
buf_free (mbuf_t * b)
{
  if (b->ptr)
    MR_FREE (b->ptr);
  b->ptr = NULL;
}

mfmt_t
pick_text (void)
{
  static const mfmt_t f[] = { F_CINIT, F_JSON, F_YAML, F_XML1, F_XML2, F_SCM };
  return (PBT_PICK (f));
}

void
note_buf (const char * title, mfmt_t f, const mbuf_t * b)
{
  char t[80];
  snprintf (t, sizeof (t), "%s %s", title, fmt_name[f]);
  pbt_note_bytes (t, b->ptr, b->size);
}

mbuf_t
save_checked (const mops_t * o, mfmt_t f, mgraph_t * g)
{
  size_t live = mem_live ();
  mbuf_t b = o->save (f, g->root);
  if (!b.ptr && !(f == F_XDR && b.size == 0))
    pbt_fail ("save-failed", "saving %s to %s failed", o->name, fmt_name[f]);
  if (mem_live () != live + (b.ptr ? 1 : 0))
    pbt_fail ("save-leak", "saving %s to %s left blocks: %s", o->name, fmt_name[f], mem_describe_live ());
  int k = arena_changed (&g->arena);
  if (k >= 0)
    pbt_fail ("save-alters", "saving %s to %s altered block %d of the source", o->name, fmt_name[f], k);
  if (pbt_verbose && f == F_XDR)
    {
      mbuf_t x = o->save (F_XML1, g->root);
      printf ("as XML1: %s\n", x.ptr ? x.ptr : "");
      buf_free (&x);
    }
  return (b);
}
