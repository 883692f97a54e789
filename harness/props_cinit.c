/* P19: a C compiler takes CINIT texts as initializers and gets equal objects. */
#include "common.h"
#include "text.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <math.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#define BATCH 24

static void
plain_value (const mcell_t * c, void * ctx)
{ /* C has no literals for other values */
  (void)ctx;
  switch (c->mt->kind)
    {
    case MK_LDOUBLE: case MK_CLDOUBLE:
      for (size_t i = 0; i < msize (c->mt) / sizeof (long double); ++i)
	{
	  long double x;
	  memcpy (&x, c->addr + i * sizeof (x), sizeof (x));
	  double d = x;
	  if (__builtin_isinf (d) || (fabs (d) >= 0x1p63 && fabs (d) < 1e20)) /* known: cinit-long-double */
	    d = 1;
	  x = d;
	  memcpy (c->addr + i * sizeof (x), &x, sizeof (x));
	}
      break;
    default:
      break;
    }
}

static bool
absent (const dn_t * d)
{ /* parts without content have no text */
  if (d->ptr || d->kind == D_LEAF || d->kind == D_STR || d->kind == D_NULL)
    return (false);
  for (int i = 0; i < d->n; ++i)
    if (d->kind == D_LIST || !absent (&d->k[i]))
      return (false);
  return (true);
}

static bool
displaced (const dn_t * d)
{ /* known: cinit-anonymous */
  const mf_t * f = d->mt ? d->mt->f : NULL;
  for (int i = 0; i < d->n; ++i)
    {
      const dn_t * k = &d->k[i];
      if (displaced (k))
	return (true);
      if (d->kind == D_REC && (k->mf->flags & MF_ANON) && !k->mf->name[0] && !absent (k) && k->mf != f
	  && (d->mt->kind == MK_UNION || i == 0 || d->k[i - 1].mf != k->mf - 1 || absent (&d->k[i - 1])))
	return (true);
    }
  return (false);
}

extern char ** environ;

/* returns NULL or the first complaint */
static const char *
compile (const char * dir, const char * decl)
{
  static char inc[300], src[300], out[300], err[300], text[3000];
  snprintf (inc, sizeof (inc), "%s/decl.h", decl);
  snprintf (src, sizeof (src), "%s/v.c", dir);
  snprintf (out, sizeof (out), "%s/v.so", dir);
  snprintf (err, sizeof (err), "%s/v.err", dir);
  char * argv[] = { "gcc", "-std=gnu11", "-w", "-O0", "-fPIC", "-pipe", "-include", inc, "-shared", "-nostdlib", "-fmax-errors=3", "-fdiagnostics-color=never", "-o", out, src, NULL };
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init (&fa);
  posix_spawn_file_actions_addopen (&fa, 2, err, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  pid_t pid;
  int status = -1;
  if (posix_spawnp (&pid, "gcc", &fa, NULL, argv, environ) || waitpid (pid, &status, 0) != pid)
    {
      fprintf (stderr, "the compiler can not be run\n");
      _exit (3);
    }
  posix_spawn_file_actions_destroy (&fa);
  if (WIFEXITED (status) && WEXITSTATUS (status) == 0)
    return (NULL);
  FILE * f = fopen (err, "r");
  size_t n = f ? fread (text, 1, sizeof (text) - 1, f) : 0;
  text[n] = 0;
  if (f)
    fclose (f);
  return (text);
}

static char dir[200];
static void
cleanup (void)
{
  static const char * const names[] = { "v.c", "v.so", "v.err" };
  for (int i = 0; i < 3; ++i)
    {
      char p[300];
      snprintf (p, sizeof (p), "%s/%s", dir, names[i]);
      unlink (p);
    }
  rmdir (dir);
}

/* compiles texts as initializers, returns the object file */
static void *
compiled (const char * const * types, const mbuf_t * texts, int n)
{
  const char * decl = getenv ("CINIT_DECL"), * tmp = getenv ("CINIT_TMP");
  if (!decl || !tmp)
    {
      fprintf (stderr, "CINIT_DECL and CINIT_TMP are not set\n");
      _exit (3);
    }
  snprintf (dir, sizeof (dir), "%s/cinit-XXXXXX", tmp);
  if (!mkdtemp (dir))
    {
      fprintf (stderr, "no directory %s\n", dir);
      _exit (3);
    }
  char path[300];
  snprintf (path, sizeof (path), "%s/v.c", dir);
  FILE * f = fopen (path, "w");
  for (int i = 0; i < n; ++i)
    fprintf (f, "#line 1 \"object%d\"\n%s v%d = %s;\n", i, types[i], i, texts[i].ptr);
  fclose (f);
  const char * why = compile (dir, decl);
  if (why)
    {
      cleanup ();
      pbt_fail ("refused", "the compiler refuses the text: %s", why);
    }
  snprintf (path, sizeof (path), "%s/v.so", dir);
  void * h = dlopen (path, RTLD_NOW | RTLD_LOCAL);
  cleanup ();
  if (!h)
    pbt_fail ("not-loaded", "the object file is not loaded: %s", dlerror ());
  return (h);
}

void
p_cinit (void)
{
  case_begin ();
  static mgraph_t g[BATCH];
  static const mops_t * m[BATCH];
  static mbuf_t b[BATCH];
  static const char * types[BATCH];
  int n = 1 + pbt_draw (BATCH);
  uint64_t shape = n;
  bool nontrivial = false;
  for (int i = 0; i < n; ++i)
    {
      m[i] = pick_root ();
      types[i] = m[i]->name;
      gopt_t opt = pick_opt ();
      opt.alias = 0;
      opt.no_tptr = opt.no_str_alias = opt.no_voidptr = opt.no_interior = opt.no_overlap = true;
      opt.no_nan = opt.no_inf = opt.no_funcs = opt.no_wide = true;
      opt.no_full_chararr = pbt_chance (1, 2);
      opt.str_mode = STR_ASCII | STR_SPECIAL | STR_UTF8 | STR_CTRL | STR_BYTES;
      opt.str_max = pbt_chance (1, 8) ? 300 : 20;
      graph_gen (&g[i], m[i]->mt, &opt);
      model_walk (m[i]->mt, g[i].root, plain_value, NULL);
      dn_t * t = model_tree (m[i]->mt, g[i].root);
      bool moved = displaced (t);
      tree_free (t);
      if (moved)
	pbt_reject ();
      arena_snapshot (&g[i].arena);
      pbt_note ("%s\n", m[i]->name);
      graph_note (&g[i]);
      b[i] = save_checked (m[i], F_CINIT, &g[i]);
      note_buf ("text", F_CINIT, &b[i]);
      shape = pbt_mix (shape, graph_shape (&g[i]));
      nontrivial |= graph_nontrivial (&g[i]);
      graph_labels (&g[i]);
    }
  void * h = compiled (types, b, n);
  for (int i = 0; i < n; ++i)
    {
      char name[20];
      snprintf (name, sizeof (name), "v%d", i);
      void * v = dlsym (h, name);
      PBT_CHECK (v, "no-object", "object %d is not there", i);
      meq_t eq = { .text = true, .nosharing = true, .no_sizes = true };
      if (!model_eq (m[i]->mt, g[i].root, v, &eq))
	pbt_fail ("differs", "object %d of type %s is initialized to another value: %s", i, m[i]->name, eq.why);
    }
  dlclose (h);
  for (int i = 0; i < n; ++i)
    {
      buf_free (&b[i]);
      graph_free (&g[i]);
    }
  pbt_label ("objects %s", n < 5 ? "1-4" : n < 13 ? "5-12" : "13-24");
  if (nontrivial)
    pbt_nontrivial (shape);
}

/* ---------------------------------------------------------------- known findings */
TYPEDEF_STRUCT (kc_anon_t, (int, a), VOID (int, v), ANON_UNION (), (int, p), (float, q), END_ANON_UNION ("a"))
TYPEDEF_STRUCT (kc_ld_t, (long_double_t, x))

/* an initializer without a designator belongs to the next member, which is not the union */
void
p_known_cinit_anonymous (void)
{
  case_begin ();
  kc_anon_t x = { .a = 0, .v = 1, .p = 7 };
  mbuf_t b = { .ptr = MR_SAVE_CINIT (kc_anon_t, &x) };
  const char * type = "struct { int a; int v; union { int p; float q; }; }";
  int * v = dlsym (compiled (&type, &b, 1), "v0");
  PBT_CHECK (v[0] == 0 && v[2] == 7, "differs", "the member of the union is %d", v[2]);
}

/* constants have no suffix L */
void
p_known_cinit_long_double (void)
{
  case_begin ();
  kc_ld_t x = { 1e400L };
  mbuf_t b = { .ptr = MR_SAVE_CINIT (kc_ld_t, &x) };
  const char * type = "struct { long double x; }";
  long double * v = dlsym (compiled (&type, &b, 1), "v0");
  PBT_CHECK (fabsl (*v / x.x - 1) < 1e-15, "differs", "%Lg is initialized to %Lg", x.x, *v);
}
