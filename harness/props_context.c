/* P05-context: one object that is reached from several places. Its unions have their discriminators outside of it:
   the branch that is selected depends on the way by which it is reached. */
#define _GNU_SOURCE
#include "common.h"
#include <math.h>
#include <stdio.h>

#define CX_KS 14
TYPEDEF_UNION (cx_u_t, (int32_t, ua), (double, ub), (float, uc))
TYPEDEF_STRUCT (cx_sm_t, (cx_u_t, v0, , "k0"), (int, y), (cx_u_t, v1, , "k1"))
TYPEDEF_STRUCT (cx_in_t,
		(cx_u_t, u0, , "k0"), (cx_u_t, u1, , "k1"), (cx_u_t, u2, , "k2"), (cx_u_t, u3, , "k3"), (cx_u_t, u4, , "k4"), (cx_u_t, u5, , "k5"), (cx_u_t, u6, , "k6"),
		(int, z),
		(cx_u_t, u7, , "k7"), (cx_u_t, u8, , "k8"), (cx_u_t, u9, , "k9"), (cx_u_t, u10, , "k10"), (cx_u_t, u11, , "k11"), (cx_u_t, u12, , "k12"), (cx_u_t, u13, , "k13"))
/* what has no discriminators of its own passes on those of its owner */
TYPEDEF_STRUCT (cx_via_t, (cx_sm_t *, sp), (cx_in_t *, p), (cx_sm_t, semb), (int, w), (cx_via_t *, more))
TYPEDEF_STRUCT (cx_own_t,
		(cx_via_t *, via),
		(cx_in_t *, p),
		(uint8_t, k0), (uint8_t, k1), (uint8_t, k2), (uint8_t, k3), (uint8_t, k4), (uint8_t, k5), (uint8_t, k6),
		(uint8_t, k7), (uint8_t, k8), (uint8_t, k9), (uint8_t, k10), (uint8_t, k11), (uint8_t, k12), (uint8_t, k13),
		(cx_own_t *, next),
		(cx_in_t, emb),
		(cx_sm_t *, sp),
		(cx_sm_t *, r, , , { "rn" }, "string"),
		(ssize_t, rn),
		(cx_via_t, vemb),
		(cx_sm_t, sarr, [2]),
		(cx_own_t *, other))

static const size_t in_off[CX_KS] = { offsetof (cx_in_t, u0), offsetof (cx_in_t, u1), offsetof (cx_in_t, u2), offsetof (cx_in_t, u3), offsetof (cx_in_t, u4), offsetof (cx_in_t, u5), offsetof (cx_in_t, u6),
  offsetof (cx_in_t, u7), offsetof (cx_in_t, u8), offsetof (cx_in_t, u9), offsetof (cx_in_t, u10), offsetof (cx_in_t, u11), offsetof (cx_in_t, u12), offsetof (cx_in_t, u13) };

typedef struct pairs_t { const void * a[4000], * b[4000]; const uint8_t * k[4000]; int kind[4000]; int n; bool sharing; char why[300]; } pairs_t;

static uint8_t *
own_k (const cx_own_t * o)
{
  return ((uint8_t *)&o->k0);
}

static int
branch (uint8_t k)
{
  return (k < 3 ? k : 0);
}

/* true if this pair was seen already */
static bool
seen (pairs_t * P, const void * a, const void * b, const uint8_t * k, int kind, bool * bad)
{
  for (int i = 0; i < P->n; ++i)
    if (P->kind[i] == kind)
      {
	if (P->sharing && (P->a[i] == a) != (P->b[i] == b))
	  {
	    snprintf (P->why, sizeof (P->why), "sharing of objects of kind %d differs", kind);
	    *bad = true;
	    return (true);
	  }
	if (P->a[i] == a && P->b[i] == b && P->k[i] == k)
	  return (true);
      }
  P->a[P->n] = a;
  P->b[P->n] = b;
  P->k[P->n] = k;
  P->kind[P->n++] = kind;
  return (false);
}

static bool
same_union (pairs_t * P, const void * a, const void * b, uint8_t k, const char * what, int i)
{
  const cx_u_t * x = a, * y = b;
  bool rv;
  switch (branch (k))
    {
    case 0: rv = x->ua == y->ua; break;
    case 1: rv = x->ub == y->ub; break;
    default: rv = fabsf (x->uc - y->uc) <= 1e-6f * fabsf (x->uc); break;
    }
  if (!rv)
    snprintf (P->why, sizeof (P->why), "union %d of %s with discriminator %d differs", i, what, k);
  return (rv);
}

static bool
same_sm (pairs_t * P, const cx_sm_t * a, const cx_sm_t * b, const uint8_t * k)
{
  bool bad = false;
  if (seen (P, a, b, k, 1, &bad))
    return (!bad);
  if (a->y != b->y)
    {
      snprintf (P->why, sizeof (P->why), "number of small object is %d instead of %d", b->y, a->y);
      return (false);
    }
  return (same_union (P, &a->v0, &b->v0, k[0], "small object", 0) && same_union (P, &a->v1, &b->v1, k[1], "small object", 1));
}

static bool
same_in (pairs_t * P, const cx_in_t * a, const cx_in_t * b, const uint8_t * k)
{
  bool bad = false;
  if (seen (P, a, b, k, 2, &bad))
    return (!bad);
  if (a->z != b->z)
    {
      snprintf (P->why, sizeof (P->why), "number of big object is %d instead of %d", b->z, a->z);
      return (false);
    }
  for (int i = 0; i < CX_KS; ++i)
    if (!same_union (P, (char *)a + in_off[i], (char *)b + in_off[i], k[i], "big object", i))
      return (false);
  return (true);
}

#define NULLS(F) if ((a->F == NULL) != (b->F == NULL)) { snprintf (P->why, sizeof (P->why), "pointer " #F " is %s", b->F ? "not NULL" : "NULL"); return (false); }

static bool
same_via (pairs_t * P, const cx_via_t * a, const cx_via_t * b, const uint8_t * k)
{
  bool bad = false;
  if (seen (P, a, b, k, 3, &bad))
    return (!bad);
  if (a->w != b->w)
    {
      snprintf (P->why, sizeof (P->why), "number of passing object is %d instead of %d", b->w, a->w);
      return (false);
    }
  NULLS (sp);
  NULLS (p);
  NULLS (more);
  return (same_sm (P, &a->semb, &b->semb, k) && (!a->sp || same_sm (P, a->sp, b->sp, k)) && (!a->p || same_in (P, a->p, b->p, k)) && (!a->more || same_via (P, a->more, b->more, k)));
}

static bool
same_own (pairs_t * P, const cx_own_t * a, const cx_own_t * b)
{
  bool bad = false;
  if (seen (P, a, b, NULL, 4, &bad))
    return (!bad);
  const uint8_t * k = own_k (a);
  if (memcmp (k, own_k (b), CX_KS))
    {
      snprintf (P->why, sizeof (P->why), "discriminators differ");
      return (false);
    }
  NULLS (via);
  NULLS (p);
  NULLS (next);
  NULLS (sp);
  NULLS (r);
  NULLS (other);
  if (a->r && a->rn != b->rn)
    {
      snprintf (P->why, sizeof (P->why), "array has %zd bytes instead of %zd", b->rn, a->rn);
      return (false);
    }
  if (!same_in (P, &a->emb, &b->emb, k) || !same_via (P, &a->vemb, &b->vemb, k) || !same_sm (P, &a->sarr[0], &b->sarr[0], k) || !same_sm (P, &a->sarr[1], &b->sarr[1], k))
    return (false);
  for (size_t i = 0; a->r && i < a->rn / sizeof (a->r[0]); ++i)
    if (!same_sm (P, &a->r[i], &b->r[i], k))
      return (false);
  return ((!a->via || same_via (P, a->via, b->via, k)) && (!a->p || same_in (P, a->p, b->p, k)) && (!a->sp || same_sm (P, a->sp, b->sp, k))
	  && (!a->next || same_own (P, a->next, b->next)) && (!a->other || same_own (P, a->other, b->other)));
}

static uint64_t
raw_value (void)
{ /* a value of each branch */
  return (0x4000000040000000ULL | (pbt_draw (0) & 0x007fffff007fffffULL));
}

static void
fill_sm (cx_sm_t * s)
{
  uint64_t x = raw_value ();
  memcpy (&s->v0, &x, sizeof (x));
  x = raw_value ();
  memcpy (&s->v1, &x, sizeof (x));
  s->y = pbt_draw (1000);
}

static void
fill_in (cx_in_t * s)
{
  for (int i = 0; i < CX_KS; ++i)
    {
      uint64_t x = raw_value ();
      memcpy ((char *)s + in_off[i], &x, sizeof (x));
    }
  s->z = pbt_draw (1000);
}

enum { CLASSES = 3, EACH = 4 };
typedef struct pool_t
{
  cx_own_t own[EACH];
  cx_via_t via[EACH];
  cx_in_t in[EACH];
  cx_sm_t sm[EACH], arr[EACH];
} pool_t;

void
p_context (void)
{
  case_begin ();
  static pool_t pool[CLASSES];
  static pairs_t P;
  memset (pool, 0, sizeof (pool));
  int classes = 1 + pbt_draw (CLASSES), owners = 1 + pbt_draw (EACH);
  bool agree = !pbt_chance (1, 3);
  int spread = pbt_draw (3); /* how many discriminators differ */
  uint8_t base[CX_KS];
  for (int i = 0; i < CX_KS; ++i)
    base[i] = pbt_draw (3);
  uint64_t h = classes * 8 + owners;
  int shared = 0;
  for (int c = 0; c < classes; ++c)
    {
      uint8_t k[CX_KS];
      memcpy (k, base, sizeof (k));
      for (int i = 0; i < CX_KS; ++i)
	if (c && pbt_chance (1, spread == 0 ? 14 : spread == 1 ? 4 : 2))
	  k[i] = pbt_draw (3);
      for (int i = 0; i < EACH; ++i)
	{
	  pool_t * p = &pool[c];
	  fill_in (&p->in[i]);
	  fill_sm (&p->sm[i]);
	  fill_sm (&p->arr[i]);
	  fill_sm (&p->via[i].semb);
	  p->via[i].w = pbt_draw (1000);
	  cx_own_t * o = &p->own[i];
	  fill_in (&o->emb);
	  fill_sm (&o->vemb.semb);
	  o->vemb.w = pbt_draw (1000);
	  fill_sm (&o->sarr[0]);
	  fill_sm (&o->sarr[1]);
	  for (int j = 0; j < CX_KS; ++j)
	    own_k (o)[j] = k[j] ? k[j] : pbt_chance (1, 8) ? 3 + pbt_draw (200) : 0;
	  h = pbt_hash (h, own_k (o), CX_KS);
	}
    }
#define CLASS(C) (agree ? (C) : (int)pbt_draw (classes))
  for (int c = 0; c < classes; ++c)
    for (int i = 0; i < owners; ++i)
      for (int v = 0; v < 3; ++v)
	{ /* pointers of an owner, of the part in it, and of a passing object */
	  cx_own_t * o = &pool[c].own[i];
	  cx_via_t * via = v == 1 ? &o->vemb : &pool[c].via[i];
	  cx_in_t * in[3] = { &pool[CLASS (c)].in[pbt_draw (EACH)], &pool[CLASS (c)].own[pbt_draw (owners)].emb, NULL };
	  pool_t * q = &pool[CLASS (c)];
	  cx_own_t * qo = &q->own[pbt_draw (owners)];
	  cx_sm_t * sm[7] = { &q->sm[pbt_draw (EACH)], &qo->vemb.semb, &qo->sarr[pbt_draw (2)], &q->arr[pbt_draw (EACH)], &q->via[pbt_draw (EACH)].semb, NULL, &q->sm[0] };
	  int x = pbt_draw (3), y = pbt_draw (7);
	  h = pbt_mix (h, x * 8 + y);
	  shared += x < 2;
	  if (v == 0)
	    {
	      o->p = in[x];
	      o->sp = sm[y];
	      q = &pool[c]; /* what has pointers is saved before the objects behind them are known: it has one context */
	      x = pbt_draw (3);
	      o->via = x == 0 ? NULL : x == 1 ? &q->via[pbt_draw (EACH)] : &q->own[pbt_draw (owners)].vemb;
	      int cn = pbt_draw (classes), co = pbt_draw (classes);
	      o->next = pbt_draw (4) ? &pool[cn].own[pbt_draw (owners)] : NULL;
	      o->other = pbt_draw (2) ? &pool[co].own[pbt_draw (owners)] : NULL;
	      if (i == 0 && c + 1 < classes)
		o->next = &pool[c + 1].own[0];
	      if (pbt_draw (2))
		{
		  int f = pbt_draw (EACH);
		  o->r = pbt_draw (2) ? q->arr : &pool[CLASS (c)].sm[f];
		  o->rn = (o->r == q->arr ? EACH : 1) * sizeof (o->r[0]);
		}
	      else
		o->rn = 0;
	    }
	  else
	    {
	      via->p = in[x];
	      via->sp = sm[y];
	      q = &pool[c];
	      x = pbt_draw (4);
	      via->more = x ? NULL : &q->via[pbt_draw (EACH)];
	    }
	}
  static pool_t keep[CLASSES];
  memcpy (keep, pool, sizeof (pool));
  cx_own_t * root = &pool[0].own[0], out;
  int fmt = pbt_draw (8);
  memset (&out, 0x5a, sizeof (out));
  char * text = NULL;
  mr_rarray_t ra = { .data = { NULL } };
  mr_status_t rv = MR_FAILURE;
  switch (fmt)
    {
    case 0: text = MR_SAVE_CINIT (cx_own_t, root); break;
    case 1: text = MR_SAVE_JSON (cx_own_t, root); break;
    case 2: text = MR_SAVE_YAML (cx_own_t, root); break;
    case 3: text = MR_SAVE_XML1 (cx_own_t, root); break;
    case 4: text = MR_SAVE_XML2 (cx_own_t, root); break;
    case 5: text = MR_SAVE_SCM (cx_own_t, root); break;
    case 6: ra = MR_SAVE_XDR_RA (cx_own_t, root); break;
    default: rv = MR_COPY_RECURSIVELY (cx_own_t, root, &out);
    }
  pbt_note ("%s contexts, %d classes of %d owners\n%s\n", agree ? "agreeing" : "different", classes, owners, text ? text : "");
  PBT_CHECK (fmt == 7 || text || ra.data.ptr, "save", "saving fails");
  PBT_CHECK (0 == memcmp (keep, pool, sizeof (pool)), "source", "the source is altered");
  switch (fmt)
    {
    case 0: rv = MR_LOAD_CINIT (cx_own_t, text, &out); break;
    case 1: rv = MR_LOAD_JSON (cx_own_t, text, &out); break;
    case 2: rv = MR_LOAD_YAML (cx_own_t, text, &out); break;
    case 3: rv = MR_LOAD_XML1 (cx_own_t, text, &out); break;
    case 4: rv = MR_LOAD_XML2 (cx_own_t, text, &out); break;
    case 5: rv = MR_LOAD_SCM (cx_own_t, text, &out); break;
    case 6: rv = MR_LOAD_XDR_RA (cx_own_t, &ra, &out); break;
    }
  PBT_CHECK (rv == MR_SUCCESS, "load", "loading (copying) fails");
  P.n = 0;
  P.sharing = agree;
  P.why[0] = 0;
  if (!same_own (&P, root, &out))
    pbt_fail (agree ? "differs" : "context", "%s: %s", fmt == 7 ? "copy" : "restored object", P.why);
  if (agree)
    {
      MR_FREE_RECURSIVELY (cx_own_t, &out);
      if (text)
	MR_FREE (text);
      if (ra.data.ptr)
	MR_FREE (ra.data.ptr);
      check_no_leak ("leak", "the case");
    }
  else
    mem_free_all ();
  pbt_label ("%s contexts, %d classes", agree ? "agreeing" : "different", classes);
  if (shared > 1)
    pbt_nontrivial (h * 8 + fmt);
}
