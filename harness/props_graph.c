/* Properties over generated object graphs. */
#define _GNU_SOURCE
#include "common.h"
#include "graph.h"
#include <rpc/types.h>
#include <rpc/xdr.h>

void
gen_on (const mops_t * o, mgraph_t * g, gopt_t * opt)
{
  graph_gen (g, o->mt, opt);
  arena_snapshot (&g->arena);
  pbt_label ("%s", o->name);
  graph_labels (g);
  if (graph_nontrivial (g))
    pbt_nontrivial (graph_shape (g));
  if (pbt_verbose || pbt_replaying () || pbt_index < 3)
    graph_note (g);
}

void
gen_case (const mops_t ** o, mgraph_t * g, gopt_t * opt)
{
  case_begin ();
  *o = pick_root ();
  gen_on (*o, g, opt);
}

/* KNOWN FINDING inside-out: such graphs keep values, but lose identity of the part (see known_findings.json) */
bool
inside_out (const mgraph_t * g)
{
  if (!g->interior && !g->overlaps && !g->aliases)
    return (false);
  bool x = graph_inside_out (g);
  if (x)
    pbt_count ("known finding: identity not required (object reached through its own part)", 1);
  return (x);
}

/* KNOWN FINDING prefix-overlap: text formats hold one list of elements for overlapping arrays, its holder gets the count of all */
void
skip_prefix_overlap (const mgraph_t * g, bool inside_out)
{
  if (g->overlaps && graph_prefix_overlap (g, inside_out))
    {
      pbt_count ("known finding: excluded (array overlaps a longer one)", 1);
      pbt_reject ();
    }
}

void
free_loaded (const mops_t * o, void * d)
{
  PBT_CHECK (o->free (d), "free-failed", "MR_FREE_RECURSIVELY of %s failed", o->name);
  check_no_leak ("leak", "free of the loaded object");
  free (d);
}

const char *
fsig (const char * sig, mfmt_t f, const mops_t * o)
{
  static char buf[100];
  snprintf (buf, sizeof (buf), "%s %s %s", sig, fmt_name[f], o->name);
  return (buf);
}

/* ------------------------------------------------------------------ P03 */
gopt_t
xdr_opt (void)
{
  gopt_t opt = pick_opt ();
  opt.str_mode = STR_ASCII | STR_SPECIAL | STR_UTF8 | STR_CTRL | STR_BYTES;
  if (pbt_chance (1, 10))
    opt.str_max = 300;
  return (opt);
}

static void
p_xdr (void)
{
  const mops_t * o;
  mgraph_t g;
  gopt_t opt = xdr_opt ();
  meq_t eq = { .text = false };
  gen_case (&o, &g, &opt);
  eq.dup_ok = inside_out (&g);
  mbuf_t b = save_checked (o, F_XDR, &g);
  note_buf ("saved", F_XDR, &b);
  /* growable array interface */
  void * d = obj_alloc (o->mt, 0xa5);
  PBT_CHECK (o->load (F_XDR, &b, d), "load-failed", "loading %s from its XDR form failed", o->name);
  PBT_CHECK (model_eq (o->mt, g.root, d, &eq), "not-equal", "XDR form of %s is restored differently: %s", o->name, eq.why);
  int k = arena_changed (&g.arena);
  PBT_CHECK (k < 0, "load-alters", "loading altered block %d of the original", k);
  mbuf_t b2 = o->save (F_XDR, d);
  PBT_CHECK (b2.ptr || !b2.size, "resave", "saving the restored object failed");
  PBT_CHECK (o->free (d), "free-failed", "MR_FREE_RECURSIVELY of %s failed", o->name);
  free (d);
  PBT_CHECK (eq.dup_ok || (b.size == b2.size && !memcmp (b.ptr, b2.ptr, b.size)), "resave", "restored object has another XDR form: %zu and %zu bytes", b.size, b2.size);
  buf_free (&b2);
  /* stream of several objects: each load consumes exactly what its save produced */
  if (pbt_chance (1, 2))
    {
      const mops_t * o2 = pbt_chance (1, 2) ? o : pick_root ();
      mgraph_t g2;
      graph_gen (&g2, o2->mt, &opt);
      arena_snapshot (&g2.arena);
      meq_t eq2 = { .dup_ok = inside_out (&g2) };
      if (pbt_verbose || pbt_replaying ())
	{
	  pbt_note ("second object:");
	  graph_note (&g2);
	}
      size_t cap = 1 << 20;
      char * mem = malloc (cap);
      memset (mem, 0xee, cap);
      XDR x;
      xdrmem_create (&x, mem, cap, XDR_ENCODE);
      PBT_CHECK (o->xsave (&x, g.root), "stream-save", "saving to XDR stream failed");
      size_t p1 = xdr_getpos (&x);
      PBT_CHECK (p1 == b.size && !memcmp (mem, b.ptr, p1), "stream-bytes", "stream form has %zu bytes, array form %zu, or bytes differ", p1, b.size);
      PBT_CHECK (o2->xsave (&x, g2.root), "stream-save", "saving second object to XDR stream failed");
      size_t p2 = xdr_getpos (&x);
      xdr_destroy (&x);
      for (size_t i = p2; i < p2 + 64; ++i)
	PBT_CHECK ((unsigned char)mem[i] == 0xee, "stream-bytes", "bytes after the end of stream were written");
      char * exact = malloc (p2);
      memcpy (exact, mem, p2);
      free (mem);
      xdrmem_create (&x, exact, p2, XDR_DECODE);
      void * d1 = obj_alloc (o->mt, 0x5a), * d2 = obj_alloc (o2->mt, 0xff);
      PBT_CHECK (o->xload (&x, d1), "stream-load", "loading first object from XDR stream failed");
      PBT_CHECK (xdr_getpos (&x) == p1, "stream-consumed", "load consumed %zu bytes of %zu", (size_t)xdr_getpos (&x), p1);
      PBT_CHECK (o2->xload (&x, d2), "stream-load", "loading second object from XDR stream failed");
      PBT_CHECK (xdr_getpos (&x) == p2, "stream-consumed", "load consumed %zu bytes of %zu", (size_t)xdr_getpos (&x), p2);
      xdr_destroy (&x);
      PBT_CHECK (model_eq (o->mt, g.root, d1, &eq), "not-equal", "XDR stream of %s is restored differently: %s", o->name, eq.why);
      PBT_CHECK (model_eq (o2->mt, g2.root, d2, &eq2), "not-equal", "XDR stream of %s is restored differently: %s", o2->name, eq2.why);
      o->free (d1);
      o2->free (d2);
      free (d1);
      free (d2);
      free (exact);
      graph_free (&g2);
      pbt_count ("streams of two objects", 1);
    }
  /* a strict prefix is not the object */
  if (b.size && pbt_chance (1, 4))
    {
      mbuf_t t = b;
      t.size = pbt_draw (b.size);
      char * exact = malloc (t.size + 1);
      memcpy (exact, b.ptr, t.size);
      t.ptr = exact;
      d = obj_alloc (o->mt, 0);
      PBT_CHECK (!o->load (F_XDR, &t, d), "prefix-accepted", "%zu of %zu bytes were accepted as complete", t.size, b.size);
      free (exact);
      free (d);
      pbt_count ("truncated forms", 1);
      mem_free_all (); /* P11 checks leaks of failed loads */
      b.ptr = NULL;
    }
  buf_free (&b);
  check_no_leak ("leak", "XDR round trip");
  graph_free (&g);
}

/* ------------------------------------------------------------------ P04 */
static void
p_text (void)
{
  const mops_t * o;
  mgraph_t g;
  gopt_t opt = pick_opt ();
  meq_t eq = { .text = true };
  gen_case (&o, &g, &opt);
  eq.dup_ok = inside_out (&g);
  skip_prefix_overlap (&g, eq.dup_ok);
  mfmt_t f = pick_text ();
  if (f == F_XML2 && graph_ctrl_chars (&g)) /* XML 1.0 has no such characters */
    f = F_XML1;
  pbt_label ("format %s", fmt_name[f]);
  mbuf_t b = save_checked (o, f, &g);
  note_buf ("saved", f, &b);
  void * d = obj_alloc (o->mt, 0xa5);
  PBT_CHECK (o->load (f, &b, d), fsig ("load-failed", f, o), "loading %s from its %s form failed", o->name, fmt_name[f]);
  PBT_CHECK (model_eq (o->mt, g.root, d, &eq), fsig ("not-equal", f, o), "%s form of %s is restored differently: %s", fmt_name[f], o->name, eq.why);
  buf_free (&b);
  free_loaded (o, d);
  graph_free (&g);
}

extern void p_scalars (void), p_output_formats (void), p_strings (void), p_known_inside_out (void), p_known_prefix_overlap (void), p_known_void_size (void), p_known_xml1_spelling (void), p_known_xml2_bytes (void), p_known_yaml_bytes (void);

static const pbt_prop_t props[] = {
  { "P01", p_scalars },
  { "P01-formats", p_output_formats },
  { "P02", p_strings },
  { "P03", p_xdr },
  { "P04", p_text },
  { "P05", p_union },
  { "P06", p_copy },
  { "P07", p_cmp },
  { "P12", p_oom },
  { "P13", p_xml },
  { "P14", p_formats },
  { "P17", p_pure },
  { "P23", p_arrays },
  { "known-inside-out", p_known_inside_out },
  { "known-prefix-overlap", p_known_prefix_overlap },
  { "known-void-size", p_known_void_size },
  { "known-xml1-spelling", p_known_xml1_spelling },
  { "known-xml2-bytes", p_known_xml2_bytes },
  { "known-yaml-bytes", p_known_yaml_bytes },
  { "known-xml2-depth", p_known_xml2_depth },
  { "known-xdr-depth", p_known_xdr_depth },
  { "P03-big", p_big_xdr },
  { "P04-big", p_big_text },
  { "P06-big", p_big_copy },
  { NULL },
};

int
main (int argc, char * argv[])
{
  return (pbt_main (argc, argv, props));
}
