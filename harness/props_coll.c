/* P08, P09, P22: indexed collections against sets, sorting, shapes of search trees. */
#include "common.h"
#include <mr_ic.h>
#include <mr_btree.h>
#include <mr_hsort.h>

/* ---------------------------------------------------------------- keys */
typedef enum key_mode_t { KM_INT, KM_REC, KM_STR, KM_TYPE, KM_LAST } key_mode_t;
typedef struct rec_t { long key; int serial; } rec_t;
typedef enum hash_mode_t { HM_GOOD, HM_CONST, HM_MOD, HM_IDENT, HM_HIGH, HM_LAST } hash_mode_t;
typedef struct ctx_t { uint64_t magic; key_mode_t mode; hash_mode_t hash; unsigned mod; long cmps, hashes; bool reverse; } ctx_t;
#define MAGIC 0x1234567890abcdefULL

static uint64_t
key_bits (const ctx_t * c, mr_ptr_t x)
{
  switch (c->mode)
    {
    case KM_INT: return (x.uintptr);
    case KM_REC: return (((rec_t*)x.ptr)->key);
    default: return (pbt_hash (0, x.ptr, strlen (x.ptr)));
    }
}

static mr_hash_value_t
key_hash (mr_ptr_t x, const void * context)
{
  ctx_t * c = (void*)context;
  if (c->magic != MAGIC)
    pbt_fail ("context", "hash function is called with a wrong context");
  ++c->hashes;
  uint64_t b = key_bits (c, x);
  switch (c->hash)
    {
    case HM_CONST: return (c->mod);
    case HM_MOD: return (b % c->mod);
    case HM_IDENT: return (b);
    case HM_HIGH: return (~(mr_hash_value_t)0 - b % 3);
    default: return (b * 0x9e3779b97f4a7c15ULL >> 17);
    }
}

static int
key_order (const ctx_t * c, mr_ptr_t x, mr_ptr_t y)
{
  int r;
  switch (c->mode)
    {
    case KM_INT: r = (x.uintptr > y.uintptr) - (x.uintptr < y.uintptr); break;
    case KM_REC: { long a = ((rec_t*)x.ptr)->key, b = ((rec_t*)y.ptr)->key; r = (a > b) - (a < b); break; }
    default: r = strcmp (x.ptr, y.ptr);
    }
  return (c->reverse ? -r : r);
}

static int
key_cmp (mr_ptr_t x, mr_ptr_t y, const void * context)
{
  ctx_t * c = (void*)context;
  if (c->magic != MAGIC)
    pbt_fail ("context", "comparison is called with a wrong context");
  ++c->cmps;
  /* magnitude of result has no meaning */
  return (key_order (c, x, y) * (1 + (int)(c->cmps % 5)));
}

/* keys as objects of a declared type, compared and hashed by the library */
TYPEDEF_STRUCT (coll_key_t, (int, k), (char *, s), (double, d))
static struct { coll_key_t rec; char str[16]; } typed[96];

/* ---------------------------------------------------------------- universe of keys: classes of equal keys, several keys each */
#define MAX_CLASS 400
typedef struct univ_t { ctx_t ctx; bool typed; int classes, dups; mr_ptr_t key[MAX_CLASS][3]; void * mem; } univ_t;

static void
univ_make (univ_t * U)
{
  memset (U, 0, sizeof (*U));
  U->ctx.magic = MAGIC;
  U->ctx.mode = (key_mode_t)pbt_draw (KM_LAST);
  U->ctx.hash = (hash_mode_t)pbt_draw (HM_LAST);
  U->ctx.mod = 1 + pbt_draw (7);
  U->ctx.reverse = pbt_chance (1, 4);
  U->typed = (U->ctx.mode == KM_TYPE);
  U->classes = 1 + pbt_draw (pbt_chance (1, 6) ? MAX_CLASS : pbt_chance (1, 3) ? 60 : 12);
  if (U->typed && U->classes > 96)
    U->classes = 96;
  U->dups = U->ctx.mode == KM_INT ? 1 : 1 + (int)pbt_draw (U->typed ? 1 : 3);
  unsigned spread = pbt_draw (4);
  rec_t * recs = U->mem = calloc (MAX_CLASS * 3, sizeof (recs[0]) > 16 ? sizeof (recs[0]) : 16);
  for (int i = 0; i < U->classes; ++i)
    for (int j = 0; j < U->dups; ++j)
      switch (U->ctx.mode)
	{
	case KM_INT:
	  {
	    uint64_t x;
	    switch (spread)
	      {
	      case 0: x = i; break;                         /* 0 is an ordinary key */
	      case 1: x = 1 + i; break;
	      case 2: x = (uint64_t)i << 32; break;
	      default: x = -(uint64_t)i; break;
	      }
	    U->key[i][j].uintptr = x;
	    break;
	  }
	case KM_REC:
	  recs[i * 3 + j] = (rec_t){ spread == 3 ? -(long)i : i * (spread + 1), i * 3 + j };
	  U->key[i][j].ptr = &recs[i * 3 + j];
	  break;
	case KM_STR:
	  {
	    char * s = &((char*)recs)[(i * 3 + j) * 16];
	    snprintf (s, 16, spread & 1 ? "k%d" : "%07d", i);
	    U->key[i][j].ptr = s;
	    break;
	  }
	default:
	  typed[i].rec = (coll_key_t){ i / 3, typed[i].str, (i % 3 == 2) ? 0.5 : 0 };
	  snprintf (typed[i].str, sizeof (typed[i].str), (i % 3 == 1) ? "x%d" : "7", i);
	  U->key[i][j].ptr = &typed[i].rec;
	  break;
	}
}

/* ---------------------------------------------------------------- P08 */
typedef struct seen_t { univ_t * U; int n, limit, per[MAX_CLASS]; int key[MAX_CLASS]; bool unknown; } seen_t;

static int
class_of (univ_t * U, mr_ptr_t x, int * dup)
{
  for (int i = 0; i < U->classes; ++i)
    for (int j = 0; j < U->dups; ++j)
      if (U->key[i][j].uintptr == x.uintptr)
	{
	  *dup = j;
	  return (i);
	}
  return (-1);
}

static mr_status_t
visitor (mr_ptr_t x, void * context)
{
  seen_t * S = context;
  int dup = 0, c = class_of (S->U, x, &dup);
  if (c < 0)
    S->unknown = true;
  else
    {
      ++S->per[c];
      S->key[c] = dup;
    }
  return (++S->n == S->limit ? MR_FAILURE : MR_SUCCESS);
}

static const struct { mr_ic_type_t type; const char * name; } kinds[] = {
  { MR_IC_STATIC_ARRAY, "static array" }, { MR_IC_HASH, "hash" }, { MR_IC_SORTED_ARRAY, "sorted array" }, { MR_IC_UNSORTED_ARRAY, "unsorted array" },
  { MR_IC_RBTREE, "red-black tree" }, { MR_IC_AVLTREE, "AVL tree" } };

static void
check_all (mr_ic_t * ic, univ_t * U, const int * member, int size, const char * after)
{
  PBT_CHECK ((int)ic->items_count == size, "items-count", "collection has %u items after %s, but the set has %d", ic->items_count, after, size);
  static seen_t S;
  memset (&S, 0, sizeof (S));
  S.U = U;
  PBT_CHECK (MR_SUCCESS == mr_ic_foreach (ic, visitor, &S), "foreach-status", "enumeration fails after %s", after);
  PBT_CHECK (!S.unknown, "foreach-unknown", "enumeration shows a key that was never added after %s", after);
  for (int i = 0; i < U->classes; ++i)
    {
      PBT_CHECK (S.per[i] == (member[i] >= 0), "foreach-members", "key %d is shown %d times after %s, but the set has %d", i, S.per[i], after, member[i] >= 0);
      if (member[i] >= 0)
	PBT_CHECK (S.key[i] == member[i], "foreach-instance", "key %d is shown as instance %d after %s, but instance %d was added first", i, S.key[i], after, member[i]);
    }
  if (size > 1)
    {
      memset (&S, 0, sizeof (S));
      S.U = U;
      S.limit = 1 + (int)pbt_draw (size);
      mr_status_t st = mr_ic_foreach (ic, visitor, &S);
      PBT_CHECK (st != MR_SUCCESS && S.n == S.limit, "foreach-stop", "enumeration is not stopped by its visitor: %d visits instead of %d", S.n, S.limit);
    }
}

/* an allocation of the next operation may fail in a history with faults */
static bool oom;
static long faults;

static void
fault_begin (void)
{
  if (oom && pbt_chance (1, 3))
    {
      int k = pbt_draw (pbt_chance (1, 4) ? 8 : 2);
      bool persistent = pbt_chance (1, 3);
      pbt_note ("allocation %d%s fails: ", k, persistent ? " and all after it" : "");
      mem_fail_at (k, persistent);
    }
}

static bool
fault_end (void)
{
  bool failed = oom && mem_failed () > 0;
  mem_fail_at (-1, false);
  faults += failed;
  return (failed);
}

static void
collections (void)
{
  static univ_t U;
  case_begin ();
  univ_make (&U);
  faults = 0;
  if (oom && U.typed)
    pbt_reject (); /* comparison of structures allocates, but has no way to report a failure */
  int k = pbt_draw (sizeof (kinds) / sizeof (kinds[0]));
  int member[MAX_CLASS], size = 0, ops = 0, maximum = 0;
  unsigned used = 0;
  uint64_t h = pbt_hash (k, &U.ctx.mode, sizeof (U.ctx.mode));
  for (int i = 0; i < MAX_CLASS; ++i)
    member[i] = -1;
  mr_ic_t ic;
  mr_res_t context = { .data = { &U.ctx }, .type = "ctx_t", .MR_SIZE = sizeof (U.ctx) };
  mr_status_t st = U.typed
    ? mr_ic_new (&ic, NULL, NULL, "coll_key_t", kinds[k].type, NULL)
    : mr_ic_new (&ic, key_hash, key_cmp, "key", kinds[k].type, &context);
  PBT_CHECK (MR_SUCCESS == st, "new", "collection %s is not created", kinds[k].name);
  pbt_note ("%s, keys of mode %d in %d classes by %d, hash %d mod %u\n", kinds[k].name, U.ctx.mode, U.classes, U.dups, U.ctx.hash, U.ctx.mod);
  mr_ptr_t * arr = NULL, * arr_copy = NULL;
  size_t arr_size = 0;
  unsigned left = 1 + pbt_geom (400, 60, 61);
  bool grow = true;
  check_all (&ic, &U, member, size, "creation");
  while (left--)
    {
      unsigned op = pbt_draw (16);
      int c = pbt_draw (U.classes), d = pbt_draw (U.dups);
      char what[64];
      if (pbt_chance (1, 16))
	grow = !grow;
      if (op < 10)
	op = (op < 7) == grow ? 0 : 1;
      h = pbt_mix (h, op * 1000 + c * 3 + d);
      ++ops;
      mr_ptr_t key = U.key[c][d];
      switch (op)
	{
	case 0: default:
	  {
	    snprintf (what, sizeof (what), "add %d.%d", c, d);
	    pbt_note ("%s\n", what);
	    fault_begin ();
	    mr_ptr_t * r = mr_ic_add (&ic, key);
	    if (fault_end () && !r)
	      break;
	    PBT_CHECK (r, "add-null", "%s gives NULL", what);
	    if (member[c] < 0)
	      {
		member[c] = d;
		++size;
	      }
	    else
	      used |= 1;
	    PBT_CHECK (r->uintptr == U.key[c][member[c]].uintptr, "add-result", "%s gives another key", what);
	    break;
	  }
	case 1:
	  snprintf (what, sizeof (what), "del %d.%d", c, d);
	  pbt_note ("%s\n", what);
	  fault_begin ();
	  st = mr_ic_del (&ic, key);
	  if (fault_end () && MR_SUCCESS != st)
	    break;
	  PBT_CHECK ((MR_SUCCESS == st) == (member[c] >= 0), "del-status", "%s returns %s, but the key is %s", what, st == MR_SUCCESS ? "success" : "failure", member[c] >= 0 ? "there" : "not there");
	  if (member[c] >= 0)
	    {
	      member[c] = -1;
	      --size;
	      used |= 2;
	    }
	  break;
	case 10: case 11: case 12:
	  {
	    snprintf (what, sizeof (what), "find %d.%d", c, d);
	    pbt_note ("%s\n", what);
	    mr_ptr_t * r = mr_ic_find (&ic, key);
	    PBT_CHECK ((r != NULL) == (member[c] >= 0), "find", "%s %s, but the key is %s", what, r ? "succeeds" : "fails", member[c] >= 0 ? "there" : "not there");
	    if (r)
	      PBT_CHECK (r->uintptr == U.key[c][member[c]].uintptr, "find-result", "%s gives another key", what);
	    break;
	  }
	case 13:
	  { /* all keys of the universe in a row */
	    int from = pbt_draw (U.classes), n = 1 + (int)pbt_draw (U.classes), step = pbt_chance (1, 2) ? 1 : U.classes - 1;
	    bool add = pbt_chance (2, 3);
	    snprintf (what, sizeof (what), "%s %d from %d step %d", add ? "add" : "del", n, from, step);
	    pbt_note ("%s\n", what);
	    for (int i = 0, x = from; i < n; ++i, x = (x + step) % U.classes)
	      if (add)
		{
		  fault_begin ();
		  mr_ptr_t * r = mr_ic_add (&ic, U.key[x][d]);
		  if (fault_end () && !r)
		    continue;
		  PBT_CHECK (r, "add-null", "%s gives NULL", what);
		  if (member[x] < 0)
		    {
		      member[x] = d;
		      ++size;
		    }
		  PBT_CHECK (r->uintptr == U.key[x][member[x]].uintptr, "add-result", "%s gives another key for %d", what, x);
		}
	      else
		{
		  fault_begin ();
		  st = mr_ic_del (&ic, U.key[x][d]);
		  if (fault_end () && MR_SUCCESS != st)
		    continue;
		  PBT_CHECK ((MR_SUCCESS == st) == (member[x] >= 0), "del-status", "%s returns %d for %d, but the key is %s", what, st, x, member[x] >= 0 ? "there" : "not there");
		  if (member[x] >= 0)
		    --size;
		  member[x] = -1;
		}
	    used |= 4;
	    break;
	  }
	case 14:
	  {
	    /* only arrays without equal keys are sets for the collection that refers to the given array */
	    bool distinct = kinds[k].type == MR_IC_UNSORTED_ARRAY;
	    int n = pbt_draw (U.classes < 30 ? 2 * U.classes + 1 : U.classes), m = 0;
	    free (arr);
	    free (arr_copy);
	    arr = calloc (n + 1, sizeof (arr[0]));
	    snprintf (what, sizeof (what), "index of %d keys", n);
	    pbt_note ("%s:", what);
	    size = 0;
	    for (int i = 0; i < MAX_CLASS; ++i)
	      member[i] = -1;
	    for (int i = 0; i < n; ++i)
	      {
		int x = pbt_draw (U.classes), y = pbt_draw (U.dups);
		if (distinct && member[x] >= 0)
		  continue;
		pbt_note (" %d.%d", x, y);
		arr[m++] = U.key[x][y];
		if (member[x] < 0)
		  {
		    member[x] = y;
		    ++size;
		  }
	      }
	    pbt_note ("\n");
	    arr_size = m * sizeof (arr[0]);
	    arr = realloc (arr, arr_size ? arr_size : 1); /* exact size */
	    arr_copy = malloc (arr_size + 1);
	    memcpy (arr_copy, arr, arr_size);
	    fault_begin ();
	    st = mr_ic_index (&ic, arr, arr_size);
	    if (fault_end () && MR_SUCCESS != st)
	      { /* content is lost, but the collection is usable */
		for (int i = 0; i < MAX_CLASS; ++i)
		  member[i] = -1;
		size = 0;
		if (pbt_chance (1, 2))
		  {
		    mr_ic_free (&ic);
		    check_no_leak ("leak-index", "release after failed indexing");
		  }
		else
		  { /* whatever it shows are keys it was given */
		    static seen_t S;
		    memset (&S, 0, sizeof (S));
		    S.U = &U;
		    PBT_CHECK (MR_SUCCESS == mr_ic_foreach (&ic, visitor, &S), "foreach-status", "enumeration fails after failed indexing");
		    PBT_CHECK (!S.unknown, "foreach-unknown", "enumeration shows a key that was never added after failed indexing");
		    for (int i = 0; i < U.classes; ++i)
		      if (S.per[i])
			{
			  PBT_CHECK (S.per[i] == 1, "foreach-members", "key %d is shown %d times after failed indexing", i, S.per[i]);
			  member[i] = S.key[i];
			  ++size;
			}
		  }
	      }
	    else
	      PBT_CHECK (MR_SUCCESS == st, "index-status", "%s fails", what);
	    used |= 8;
	    break;
	  }
	case 15:
	  if (!pbt_chance (1, 4))
	    continue;
	  strcpy (what, "free");
	  pbt_note ("%s\n", what);
	  mr_ic_free (&ic);
	  for (int i = 0; i < MAX_CLASS; ++i)
	    member[i] = -1;
	  size = 0;
	  check_no_leak ("leak", "release of the collection");
	  used |= 16;
	  break;
	}
      if (size > maximum)
	maximum = size;
      if (U.classes <= 20 || op >= 13 || pbt_chance (1, 16))
	check_all (&ic, &U, member, size, what);
      else
	PBT_CHECK ((int)ic.items_count == size, "items-count", "collection has %u items after %s, but the set has %d", ic.items_count, what, size);
      if (arr)
	PBT_CHECK (0 == memcmp (arr, arr_copy, arr_size), "array-altered", "array given for indexing is altered by %s", what);
    }
  check_all (&ic, &U, member, size, "the history");
  for (int i = 0; i < U.classes; ++i)
    for (int j = 0; j < U.dups; ++j)
      {
	mr_ptr_t * r = mr_ic_find (&ic, U.key[i][j]);
	PBT_CHECK ((r != NULL) == (member[i] >= 0), "find", "search for %d.%d %s at the end, but the key is %s", i, j, r ? "succeeds" : "fails", member[i] >= 0 ? "there" : "not there");
	if (r)
	  PBT_CHECK (r->uintptr == U.key[i][member[i]].uintptr, "find-result", "search for %d.%d gives another key at the end", i, j);
      }
  mr_ic_free (&ic);
  PBT_CHECK (0 == ic.items_count, "items-count", "released collection has %u items", ic.items_count);
  check_no_leak ("leak", "release of the collection");
  free (arr);
  free (arr_copy);
  free (U.mem);
  pbt_label ("%s", kinds[k].name);
  pbt_label ("at most %s members", maximum < 4 ? "3" : maximum < 16 ? "15" : maximum < 64 ? "63" : "400");
  pbt_count ("failed operations", faults);
  if (ops >= 3 && maximum >= 2 && (used & 14) && (!oom || faults))
    pbt_nontrivial (h);
}

static void p_collections (void) { oom = false; collections (); }
static void p_collections_oom (void) { oom = true; collections (); oom = false; }

/* ---------------------------------------------------------------- P22 */
typedef struct walk_t { univ_t * U; int n, key[MAX_CLASS]; } walk_t;

static mr_status_t
walker (mr_ptr_t x, void * context)
{
  walk_t * W = context;
  int dup;
  if (W->n == MAX_CLASS)
    return (MR_FAILURE);
  W->key[W->n++] = class_of (W->U, x, &dup);
  return (MR_SUCCESS);
}

typedef struct shape_t { mr_tree_t * t; univ_t * U; bool rb; char * visited; unsigned n, nodes; const char * after; int rank[MAX_CLASS]; } shape_t;

/* walks nodes by their own links; returns height (AVL) or black height (RB) */
static int
shape_node (shape_t * S, unsigned idx, int lo, int hi, bool parent_red)
{
  if (0 == idx)
    return (0);
  PBT_CHECK (idx < S->n, "tree-link", "link to node %u of %u after %s", idx, S->n, S->after);
  PBT_CHECK (!S->visited[idx], "tree-loop", "node %u is linked twice after %s", idx, S->after);
  S->visited[idx] = 1;
  ++S->nodes;
  mr_tree_node_t * x = &S->t->pool[idx];
  int dup, c = class_of (S->U, x->key, &dup);
  PBT_CHECK (c >= 0, "tree-key", "node %u holds an unknown key after %s", idx, S->after);
  int r = S->U->ctx.reverse ? -c - 1 : c;
  PBT_CHECK (r > lo && r < hi, "tree-order", "node %u with key %d is out of order after %s", idx, c, S->after);
  bool red = S->rb && x->rb.red;
  PBT_CHECK (!(red && parent_red), "rb-red", "red node %u has a red parent after %s", idx, S->after);
  int a = shape_node (S, x->next[MR_LEFT].idx, lo, r, red);
  int b = shape_node (S, x->next[MR_RIGHT].idx, r, hi, red);
  if (S->rb)
    {
      PBT_CHECK (a == b, "rb-height", "black heights of node %u are %d and %d after %s", idx, a, b, S->after);
      return (a + !red);
    }
  PBT_CHECK (a - b <= 1 && b - a <= 1, "avl-height", "heights of node %u are %d and %d after %s", idx, a, b, S->after);
  PBT_CHECK (x->avl.balanced == (a == b), "avl-mark", "node %u has heights %d and %d, but it is marked as %sbalanced after %s", idx, a, b, x->avl.balanced ? "" : "not ", S->after);
  if (a != b)
    PBT_CHECK (x->avl.longer == (a > b ? MR_LEFT : MR_RIGHT), "avl-mark", "node %u has heights %d and %d, but the other side is marked as longer after %s", idx, a, b, S->after);
  return (1 + (a > b ? a : b));
}

static int
tree_height (mr_tree_t * t, unsigned idx)
{
  if (0 == idx)
    return (0);
  int a = tree_height (t, t->pool[idx].next[MR_LEFT].idx), b = tree_height (t, t->pool[idx].next[MR_RIGHT].idx);
  return (1 + (a > b ? a : b));
}

static void
check_tree (mr_tree_t * t, univ_t * U, bool rb, const int * member, int size, const char * after)
{
  shape_t S = { .t = t, .U = U, .rb = rb, .after = after };
  S.n = t->size / sizeof (t->pool[0]);
  PBT_CHECK (t->size % sizeof (t->pool[0]) == 0 && t->size <= t->alloc_size, "tree-size", "size of the pool is %zd of %zd after %s", (size_t)t->size, (size_t)t->alloc_size, after);
  PBT_CHECK (S.n == (unsigned)size + 1 || (size == 0 && S.n == 0), "tree-size", "pool has %u nodes after %s, but there are %d members", S.n, after, size);
  S.visited = calloc (1, S.n + 1);
  if (S.n)
    {
      unsigned root = t->pool->root.idx;
      shape_node (&S, root, -MAX_CLASS - 2, MAX_CLASS + 2, false);
      if (rb && root)
	PBT_CHECK (!t->pool[root].rb.red, "rb-root", "root is red after %s", after);
      PBT_CHECK (S.nodes == (unsigned)size, "tree-nodes", "%u nodes are linked after %s, but there are %d members", S.nodes, after, size);
      /* height is logarithmic */
      int height = tree_height (t, root), bound = 0;
      for (unsigned x = S.n; x > 1; x >>= 1)
	++bound;
      PBT_CHECK (height <= 2 * (bound + 1), "tree-height", "height is %d after %s with %d members", height, after, size);
    }
  free (S.visited);
  /* enumeration in order */
  walk_t W = { .U = U };
  PBT_CHECK (MR_SUCCESS == mr_tree_walk (t, walker, &W), "walk-status", "walk fails after %s", after);
  int n = 0;
  for (int j = 0; j < U->classes; ++j)
    {
      int i = U->ctx.reverse ? U->classes - 1 - j : j;
      if (member[i] >= 0)
	{
	  PBT_CHECK (n < W.n && W.key[n] == i, "walk-order", "member %d of the walk is %d instead of %d after %s", n, n < W.n ? W.key[n] : -1, i, after);
	  ++n;
	}
    }
  PBT_CHECK (n == W.n, "walk-order", "walk shows %d members instead of %d after %s", W.n, n, after);
  PBT_CHECK ((rb ? mr_rbtree_is_valid : mr_avltree_is_valid) (t, key_cmp, &U->ctx), "validator", "library's validator does not accept a valid tree after %s", after);
}

static void
p_trees (void)
{
  static univ_t U;
  case_begin ();
  do
    univ_make (&U);
  while (0);
  if (U.ctx.mode == KM_TYPE || U.ctx.mode == KM_STR)
    { /* order of classes has to be order of keys */
      free (U.mem);
      U.ctx.mode = KM_REC;
      U.typed = false;
      rec_t * recs = U.mem = calloc (MAX_CLASS * 3, sizeof (recs[0]));
      for (int i = 0; i < U.classes; ++i)
	for (int j = 0; j < U.dups; ++j)
	  {
	    recs[i * 3 + j] = (rec_t){ i, j };
	    U.key[i][j].ptr = &recs[i * 3 + j];
	  }
    }
  else
    for (int i = 0; i < U.classes; ++i)
      for (int j = 0; j < U.dups; ++j)
	if (U.ctx.mode == KM_INT)
	  U.key[i][j].uintptr = i;
	else
	  ((rec_t*)U.key[i][j].ptr)->key = i;
  bool rb = pbt_chance (1, 2);
  mr_tree_t t;
  mr_tree_init (&t);
  int member[MAX_CLASS], size = 0, ops = 0, maximum = 0, deleted = 0;
  uint64_t h = pbt_hash (rb, &U.ctx.reverse, sizeof (U.ctx.reverse));
  for (int i = 0; i < MAX_CLASS; ++i)
    member[i] = -1;
  pbt_note ("%s tree, %d keys%s\n", rb ? "red-black" : "AVL", U.classes, U.ctx.reverse ? ", reverse order" : "");
  unsigned left = 1 + pbt_geom (600, 80, 81), pattern = pbt_draw (4);
  bool grow = true;
  int cursor = pbt_draw (U.classes);
  while (left--)
    {
      if (pbt_chance (1, 20))
	{
	  grow = !grow;
	  pattern = pbt_draw (4);
	}
      int c, d = pbt_draw (U.dups);
      switch (pattern)
	{
	case 0: c = pbt_draw (U.classes); break;
	case 1: c = cursor = (cursor + 1) % U.classes; break;
	case 2: c = cursor = (cursor + U.classes - 1) % U.classes; break;
	default: c = cursor = (cursor + 5) % U.classes; break;
	}
      unsigned op = pbt_draw (12);
      char what[64];
      op = op < 10 ? ((op < 8) == grow ? 0 : 1) : op;
      h = pbt_mix (h, op * 1000 + c * 3 + d);
      ++ops;
      switch (op)
	{
	case 0:
	  {
	    snprintf (what, sizeof (what), "add %d", c);
	    pbt_note ("%s\n", what);
	    mr_ptr_t * r = (rb ? mr_rbtree_add : mr_avltree_add) (U.key[c][d], &t, key_cmp, &U.ctx);
	    PBT_CHECK (r, "add-null", "%s gives NULL", what);
	    if (member[c] < 0)
	      {
		member[c] = d;
		++size;
	      }
	    PBT_CHECK (r->uintptr == U.key[c][member[c]].uintptr, "add-result", "%s gives another key", what);
	    break;
	  }
	case 1:
	  {
	    snprintf (what, sizeof (what), "del %d", c);
	    pbt_note ("%s\n", what);
	    mr_status_t st = (rb ? mr_rbtree_del : mr_avltree_del) (U.key[c][d], &t, key_cmp, &U.ctx);
	    PBT_CHECK ((MR_SUCCESS == st) == (member[c] >= 0), "del-status", "%s returns %d, but the key is %s", what, st, member[c] >= 0 ? "there" : "not there");
	    if (member[c] >= 0)
	      {
		member[c] = -1;
		--size;
		++deleted;
	      }
	    break;
	  }
	case 10:
	  { /* neighbours of a key that may be missing */
	    mr_child_idx_t dir = pbt_chance (1, 2) ? MR_LEFT : MR_RIGHT;
	    int steps = 1 + (int)pbt_draw (5);
	    snprintf (what, sizeof (what), "%s of %d", dir == MR_LEFT ? "previous" : "next", c);
	    pbt_note ("%s\n", what);
	    mr_tree_traverse_t tr;
	    mr_tree_find (U.key[c][d], &t, key_cmp, &U.ctx, &tr);
	    PBT_CHECK (tr.equal == (member[c] >= 0), "find", "search for %d %s, but the key is %s", c, tr.equal ? "succeeds" : "fails", member[c] >= 0 ? "there" : "not there");
	    bool down = (dir == MR_LEFT) != U.ctx.reverse;
	    int x = c;
	    while (steps--)
	      {
		mr_tree_next (&t, &tr, dir);
		do
		  x += down ? -1 : 1;
		while (x >= 0 && x < U.classes && member[x] < 0);
		int n = tr.size / sizeof (tr.path[0]);
		if (x < 0 || x >= U.classes)
		  {
		    PBT_CHECK (n <= 1, "next-end", "%s does not stop at the end", what);
		    break;
		  }
		PBT_CHECK (n > 1, "next-early", "%s stops before %d", what, x);
		int dup;
		PBT_CHECK (class_of (&U, t.pool[tr.path[n - 1].idx].key, &dup) == x, "next", "%s gives %d instead of %d", what, class_of (&U, t.pool[tr.path[n - 1].idx].key, &dup), x);
	      }
	    break;
	  }
	default:
	  {
	    if (!pbt_chance (1, 8))
	      continue;
	    unsigned n = pbt_draw (300);
	    bool reset = pbt_chance (1, 4);
	    snprintf (what, sizeof (what), "reserve %u%s", n, reset ? " with reset" : "");
	    pbt_note ("%s\n", what);
	    PBT_CHECK (MR_SUCCESS == mr_tree_reserve (&t, n, reset), "reserve", "%s fails", what);
	    if (reset)
	      {
		for (int i = 0; i < MAX_CLASS; ++i)
		  member[i] = -1;
		size = 0;
	      }
	    break;
	  }
	}
      if (size > maximum)
	maximum = size;
      if (size < 40 || pbt_chance (1, 8))
	check_tree (&t, &U, rb, member, size, what);
    }
  check_tree (&t, &U, rb, member, size, "the history");
  mr_tree_free (&t);
  check_no_leak ("leak", "release of the tree");
  free (U.mem);
  pbt_label (rb ? "red-black" : "AVL");
  pbt_label ("at most %s members", maximum < 4 ? "3" : maximum < 16 ? "15" : maximum < 64 ? "63" : "400");
  if (maximum >= 3 && ops >= 5)
    pbt_nontrivial (h);
  if (deleted >= 3)
    pbt_label ("deletions");
}

/* ---------------------------------------------------------------- long histories of wide collections */
#define BIG_MAX (1 << 15)

static mr_hash_value_t
big_hash (mr_ptr_t x, const void * context)
{
  const unsigned * mode = context;
  switch (*mode)
    {
    case 0: return (x.uintptr);
    case 1: return (x.uintptr * 0x9E3779B97F4A7C15ULL >> 13);
    case 2: return (x.uintptr >> 4); /* runs of equal hashes */
    default: return (-x.uintptr);
    }
}

static long big_cmps;

static int
big_cmp (mr_ptr_t x, mr_ptr_t y, const void * context)
{
  ++big_cmps;
  return ((x.uintptr > y.uintptr) - (x.uintptr < y.uintptr));
}

typedef struct big_t { uint8_t * member; int n, size, last, sorted; uint64_t base; const char * what; } big_t;

static int
big_class (big_t * B, mr_ptr_t x)
{
  return (x.uintptr < B->base || x.uintptr - B->base >= (uint64_t)B->n ? -1 : (int)(x.uintptr - B->base));
}

static mr_status_t
big_visit (mr_ptr_t x, void * context)
{
  big_t * B = context;
  int c = big_class (B, x);
  if (c < 0 || B->member[c] != 1)
    pbt_fail ("foreach-members", "enumeration after %s shows key %d that is not there or was already shown", B->what, c);
  if (c <= B->last)
    B->sorted = 0;
  B->last = c;
  B->member[c] = 2;
  ++B->size;
  return (MR_SUCCESS);
}

/* in-order walk by the links; returns height */
static int
big_walk (mr_tree_t * t, unsigned idx, uint64_t lo, uint64_t hi, bool rb, bool red, int * black, unsigned * nodes)
{
  if (0 == idx)
    {
      *black = 0;
      return (0);
    }
  PBT_CHECK (idx < t->size / sizeof (t->pool[0]), "tree-link", "link to node %u", idx);
  mr_tree_node_t * x = &t->pool[idx];
  uint64_t k = x->key.uintptr;
  PBT_CHECK (k >= lo && k < hi, "tree-order", "node %u with key %llu is out of order", idx, (unsigned long long)k);
  PBT_CHECK (++*nodes < t->size / sizeof (t->pool[0]), "tree-loop", "too many nodes are linked");
  PBT_CHECK (!(rb && red && x->rb.red), "rb-red", "red node %u has a red parent", idx);
  int ba, bb, a = big_walk (t, x->next[MR_LEFT].idx, lo, k, rb, x->rb.red, &ba, nodes), b = big_walk (t, x->next[MR_RIGHT].idx, k + 1, hi, rb, x->rb.red, &bb, nodes);
  if (rb)
    {
      PBT_CHECK (ba == bb, "rb-height", "black heights of node %u are %d and %d", idx, ba, bb);
      *black = ba + !x->rb.red;
    }
  else
    {
      PBT_CHECK (a - b <= 1 && b - a <= 1, "avl-height", "heights of node %u are %d and %d", idx, a, b);
      PBT_CHECK (x->avl.balanced == (a == b), "avl-mark", "node %u has heights %d and %d, but it is marked as %sbalanced", idx, a, b, x->avl.balanced ? "" : "not ");
      if (a != b)
	PBT_CHECK (x->avl.longer == (a > b ? MR_LEFT : MR_RIGHT), "avl-mark", "node %u has heights %d and %d, but the other side is marked as longer", idx, a, b);
    }
  return (1 + (a > b ? a : b));
}

static void
big_check (mr_ic_t * ic, big_t * B, int size)
{
  PBT_CHECK ((int)ic->items_count == size, "items-count", "collection has %u items after %s, but the set has %d", ic->items_count, B->what, size);
  B->size = 0;
  B->last = -1;
  B->sorted = 1;
  PBT_CHECK (MR_SUCCESS == mr_ic_foreach (ic, big_visit, B), "foreach-status", "enumeration fails after %s", B->what);
  PBT_CHECK (B->size == size, "foreach-members", "enumeration shows %d keys after %s, but the set has %d", B->size, B->what, size);
  for (int i = 0; i < B->n; ++i)
    B->member[i] = B->member[i] != 0;
  bool rb = ic->ic_type == MR_IC_RBTREE;
  if ((rb || ic->ic_type == MR_IC_AVLTREE) && ic->tree.size > 0)
    {
      int black;
      unsigned nodes = 0;
      PBT_CHECK (ic->tree.size / sizeof (ic->tree.pool[0]) == (unsigned)size + 1, "tree-size", "pool does not match %d members after %s", size, B->what);
      PBT_CHECK (!(rb && ic->tree.pool[ic->tree.pool->root.idx].rb.red), "rb-root", "root is red after %s", B->what);
      int height = big_walk (&ic->tree, ic->tree.pool->root.idx, B->base, B->base + B->n, rb, false, &black, &nodes), bound = 0;
      PBT_CHECK (nodes == (unsigned)size, "tree-nodes", "%u nodes are linked after %s, but there are %d members", nodes, B->what, size);
      for (unsigned x = size + 1; x; x >>= 1)
	++bound;
      PBT_CHECK (height <= 2 * bound && (rb || height * 100 <= 145 * bound + 100), "tree-height", "height is %d after %s with %d members", height, B->what, size);
      /* the walk in order */
      B->size = 0;
      B->last = -1;
      B->sorted = 1;
      PBT_CHECK (MR_SUCCESS == mr_tree_walk (&ic->tree, big_visit, B) && B->size == size && B->sorted, "walk-order", "walk after %s shows %d of %d keys%s", B->what, B->size, size, B->sorted ? "" : " out of order");
      for (int i = 0; i < B->n; ++i)
	B->member[i] = B->member[i] != 0;
    }
}

static void
big_history (bool trees)
{
  case_begin ();
  static const mr_ic_type_t all[] = { MR_IC_HASH, MR_IC_RBTREE, MR_IC_AVLTREE, MR_IC_SORTED_ARRAY, MR_IC_STATIC_ARRAY };
  mr_ic_type_t type = trees ? all[1 + pbt_draw (2)] : all[pbt_draw (5)];
  unsigned mode = pbt_draw (4);
  /* hashing that makes long runs takes quadratic time */
  bool fast = type == MR_IC_HASH ? mode == 1 : type != MR_IC_SORTED_ARRAY && type != MR_IC_STATIC_ARRAY;
  big_t B = { .n = 16 + (int)pbt_draw (1 << (6 + pbt_draw (fast ? 10 : type == MR_IC_HASH ? 5 : 7))), .base = pbt_chance (1, 2) ? 0 : pbt_chance (1, 2) ? 1 : 1 + pbt_draw (0) % 1000000007ULL };
  B.member = calloc (B.n, 1);
  mr_res_t context = { .data = { &mode }, .type = "unsigned", .MR_SIZE = sizeof (mode) };
  mr_ic_t ic;
  PBT_CHECK (MR_SUCCESS == mr_ic_new (&ic, big_hash, big_cmp, "key", type, &context), "new", "collection is not created");
  pbt_note ("%s, %d keys from %llu, hash %u\n", kinds[type == MR_IC_HASH ? 1 : type == MR_IC_RBTREE ? 4 : type == MR_IC_AVLTREE ? 5 : type == MR_IC_SORTED_ARRAY ? 2 : 0].name, B.n, (unsigned long long)B.base, mode);
  int size = 0, maximum = 0, phases = 1 + (int)pbt_draw (8), cursor = 0;
  long ops = 0;
  uint64_t h = pbt_hash (B.n, &B.base, sizeof (B.base));
  char what[96];
  B.what = what;
  while (phases--)
    {
      unsigned op = pbt_draw (8), pattern = pbt_draw (6);
      int n = 1 + (int)pbt_draw (B.n), step = 1 + (int)pbt_draw (B.n);
      uint64_t seed = pbt_draw (0);
      h = pbt_mix (h, seed ^ op ^ pattern << 4 ^ (uint64_t)n << 8);
      if (op == 7)
	{
	  mr_ptr_t * arr = malloc (n * sizeof (arr[0]));
	  snprintf (what, sizeof (what), "index of %d keys, pattern %u", n, pattern);
	  pbt_note ("%s\n", what);
	  memset (B.member, 0, B.n);
	  size = 0;
	  for (int i = 0; i < n; ++i)
	    {
	      seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
	      int c = pattern < 2 ? (int)((seed >> 33) % B.n) : pattern < 4 ? i % B.n : B.n - 1 - i % B.n;
	      size += !B.member[c];
	      B.member[c] = 1;
	      arr[i].uintptr = B.base + c;
	    }
	  PBT_CHECK (MR_SUCCESS == mr_ic_index (&ic, arr, n * sizeof (arr[0])), "index-status", "%s fails", what);
	  free (arr);
	  ops += n;
	}
      else
	{
	  bool add = op < 4, any = op == 6;
	  snprintf (what, sizeof (what), "%s %d keys, pattern %u", any ? "toggle" : add ? "add" : "delete", n, pattern);
	  pbt_note ("%s\n", what);
	  for (int i = 0; i < n; ++i)
	    {
	      int c;
	      switch (pattern)
		{
		case 0: case 1: seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; c = (int)((seed >> 33) % B.n); break;
		case 2: c = cursor = (cursor + 1) % B.n; break;
		case 3: c = cursor = (cursor + B.n - 1) % B.n; break;
		case 4: c = cursor = (cursor + step) % B.n; break;
		default: c = i & 1 ? i / 2 : B.n - 1 - i / 2; break;
		}
	      bool insert = any ? !B.member[c] : add;
	      mr_ptr_t key = { .uintptr = B.base + c };
	      if (insert)
		{
		  mr_ptr_t * r = mr_ic_add (&ic, key);
		  PBT_CHECK (r && r->uintptr == key.uintptr, "add-result", "addition of %d gives %s", c, r ? "another key" : "NULL");
		  size += !B.member[c];
		  B.member[c] = 1;
		}
	      else
		{
		  mr_status_t st = mr_ic_del (&ic, key);
		  PBT_CHECK ((MR_SUCCESS == st) == !!B.member[c], "del-status", "deletion of %d returns %d, but the key is %s", c, st, B.member[c] ? "there" : "not there");
		  size -= B.member[c];
		  B.member[c] = 0;
		}
	      if (size > maximum)
		maximum = size;
	      if ((i & 63) == 0)
		{
		  int x = (c + step) % B.n;
		  mr_ptr_t * r = mr_ic_find (&ic, (mr_ptr_t){ .uintptr = B.base + x });
		  PBT_CHECK (!!r == !!B.member[x], "find", "search for %d %s, but the key is %s", x, r ? "succeeds" : "fails", B.member[x] ? "there" : "not there");
		}
	    }
	  ops += n;
	}
      if (size > maximum)
	maximum = size;
      big_check (&ic, &B, size);
    }
  for (int i = 0; i < B.n; ++i)
    {
      mr_ptr_t * r = mr_ic_find (&ic, (mr_ptr_t){ .uintptr = B.base + i });
      PBT_CHECK (!!r == !!B.member[i], "find", "search for %d %s at the end, but the key is %s", i, r ? "succeeds" : "fails", B.member[i] ? "there" : "not there");
      if (r)
	PBT_CHECK (r->uintptr == B.base + i, "find-result", "search for %d gives another key at the end", i);
    }
  mr_ic_free (&ic);
  check_no_leak ("leak", "release of the collection");
  free (B.member);
  pbt_label ("at most %s members", maximum < 64 ? "63" : maximum < 1024 ? "1023" : maximum < 16384 ? "16383" : "65536");
  pbt_count ("operations", ops);
  if (maximum >= 64 && ops >= 100)
    pbt_nontrivial (h);
}

static void p_big (void) { big_history (false); }
static void p_big_trees (void) { big_history (true); }

/* ---------------------------------------------------------------- P09 */
typedef struct sort_ctx_t { uint64_t magic; size_t size; int mode; long cmps; const char * lo, * hi; } sort_ctx_t;

static int
bytes_order (const sort_ctx_t * c, const unsigned char * x, const unsigned char * y)
{
  switch (c->mode)
    {
    case 0: return (memcmp (x, y, c->size));
    case 1: return ((x[0] > y[0]) - (x[0] < y[0])); /* only the first byte counts */
    case 2: return ((x[c->size - 1] < y[c->size - 1]) - (x[c->size - 1] > y[c->size - 1])); /* the last byte, descending */
    default: return (0);
    }
}

static int
bytes_cmp (mr_ptr_t x, mr_ptr_t y, const void * context)
{
  sort_ctx_t * c = (void*)context;
  if (c->magic != MAGIC)
    pbt_fail ("context", "comparison is called with a wrong context");
  ++c->cmps;
  volatile char probe = *(char*)x.ptr ^ *(char*)y.ptr;
  (void)probe;
  int r = bytes_order (c, x.ptr, y.ptr);
  return (r * (1 + (int)(c->cmps & 3)));
}

static size_t plain_size;
static int
plain_cmp (const void * x, const void * y)
{
  return (memcmp (x, y, plain_size));
}

static void
check_permutation (const void * before, const void * after, size_t count, size_t size, const char * what)
{
  void * a = malloc (count * size + 1), * b = malloc (count * size + 1);
  memcpy (a, before, count * size);
  memcpy (b, after, count * size);
  plain_size = size;
  qsort (a, count, size, plain_cmp);
  qsort (b, count, size, plain_cmp);
  PBT_CHECK (0 == memcmp (a, b, count * size), "permutation", "elements differ after sorting of %s", what);
  free (a);
  free (b);
}

static size_t
pick_count (void)
{
  return (pbt_draw (pbt_chance (1, 8) ? 600 : pbt_chance (1, 2) ? 40 : 9));
}

/* values with many equal ones, sorted and reversed runs */
static uint64_t
pick_value (size_t i, size_t count, int shape)
{
  switch (shape)
    {
    case 0: return (pbt_draw (0));
    case 1: return (pbt_draw (4));
    case 2: return (i);
    case 3: return (count - i);
    case 4: return (i < count / 2 ? i : count - i);
    default: return (pbt_draw (3) ? i : pbt_draw (count + 1));
    }
}

static mr_type_t
type_of_kind (const mt_t * mt)
{
  switch (mt->kind)
    {
    case MK_CHAR: return (MR_TYPE_CHAR);
    case MK_BOOL: return (MR_TYPE_BOOL);
    case MK_FLOAT: return (MR_TYPE_FLOAT);
    case MK_DOUBLE: return (MR_TYPE_DOUBLE);
    case MK_LDOUBLE: return (MR_TYPE_LONG_DOUBLE);
    case MK_STRING: return (MR_TYPE_STRING);
    case MK_CHARARR: return (MR_TYPE_CHAR_ARRAY);
    case MK_INT:
      switch (mt->size)
	{
	case 1: return (mt->is_signed ? MR_TYPE_INT8 : MR_TYPE_UINT8);
	case 2: return (mt->is_signed ? MR_TYPE_INT16 : MR_TYPE_UINT16);
	case 4: return (mt->is_signed ? MR_TYPE_INT32 : MR_TYPE_UINT32);
	case 8: return (mt->is_signed ? MR_TYPE_INT64 : MR_TYPE_UINT64);
	default: return (mt->is_signed ? MR_TYPE_INT128 : MR_TYPE_UINT128);
	}
    default: return (MR_TYPE_NONE);
    }
}

static int
value_order (const mt_t * mt, char * x, char * y)
{
#define ORD(T) ({ T a, b; memcpy (&a, x, sizeof (a)); memcpy (&b, y, sizeof (b)); (a > b) - (a < b); })
  switch (type_of_kind (mt))
    {
    case MR_TYPE_CHAR: return (ORD (char));
    case MR_TYPE_BOOL: return (ORD (bool));
    case MR_TYPE_FLOAT: return (ORD (float));
    case MR_TYPE_DOUBLE: return (ORD (double));
    case MR_TYPE_LONG_DOUBLE: return (ORD (long double));
    case MR_TYPE_INT8: return (ORD (int8_t));
    case MR_TYPE_UINT8: return (ORD (uint8_t));
    case MR_TYPE_INT16: return (ORD (int16_t));
    case MR_TYPE_UINT16: return (ORD (uint16_t));
    case MR_TYPE_INT32: return (ORD (int32_t));
    case MR_TYPE_UINT32: return (ORD (uint32_t));
    case MR_TYPE_INT64: return (ORD (int64_t));
    case MR_TYPE_UINT64: return (ORD (uint64_t));
    case MR_TYPE_INT128: return (ORD (__int128));
    case MR_TYPE_UINT128: return (ORD (unsigned __int128));
    case MR_TYPE_CHAR_ARRAY: return (strcmp (x, y));
    case MR_TYPE_STRING:
      {
	char * a = *(char**)x, * b = *(char**)y;
	return (a && b ? strcmp (a, b) : (a != NULL) - (b != NULL));
      }
    default: pbt_fail ("harness", "unexpected kind");
    }
}

static void
p_sort (void)
{
  static const char * const basic[] = { "char", "bool", "int8_t", "uint8_t", "int16_t", "uint16_t", "int", "uint32_t", "int64_t", "uint64_t", "mr_int128_t", "mr_uint128_t",
					"float", "double", "long double", "string_t", "ca16_t" };
  case_begin ();
  size_t count = pick_count ();
  int shape = pbt_draw (6);
  uint64_t h = pbt_mix (count, shape);
  switch (pbt_draw (3))
    {
    case 0: /* any elements in any order */
      {
	static const size_t sizes[] = { 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 24, 33, 64, 100 };
	size_t size = PBT_PICK (sizes);
	sort_ctx_t c = { .magic = MAGIC, .size = size, .mode = (int)pbt_draw (4) };
	unsigned char * a = malloc (count * size), * b = malloc (count * size + 1); /* exact size */
	for (size_t i = 0; i < count; ++i)
	  {
	    uint64_t v = pick_value (i, count, shape);
	    memset (&a[i * size], 0, size);
	    for (size_t j = 0; j < size && j < 8; ++j)
	      a[i * size + j] = v >> (8 * (size < 8 ? size - 1 - j : 7 - j));
	    if (size > 8)
	      a[i * size + size - 1] = pbt_draw (5);
	  }
	memcpy (b, a, count * size);
	pbt_note ("%zu elements of %zu bytes, order %d, shape %d", count, size, c.mode, shape);
	pbt_note_bytes ("elements", a, count * size > 400 ? 400 : count * size);
	mr_hsort (a, count, size, bytes_cmp, &c);
	for (size_t i = 1; i < count; ++i)
	  PBT_CHECK (bytes_order (&c, &a[(i - 1) * size], &a[i * size]) <= 0, "order", "elements %zu and %zu are out of order", i - 1, i);
	check_permutation (b, a, count, size, "bytes");
	h = pbt_hash (pbt_mix (h, c.mode * 1000 + size), b, count * size);
	free (a);
	free (b);
	pbt_label ("given order");
	break;
      }
    case 1: /* basic types */
      {
	const mops_t * o = root_by_name (PBT_PICK (basic));
	const mt_t * mt = o->mt;
	size_t size = mt->size;
	gopt_t opt = gopt_default ();
	opt.no_nan = true;
	opt.no_full_chararr = true;
	mgraph_t * g = calloc (count + 1, sizeof (g[0]));
	char * a = malloc (count * size), * b = malloc (count * size + 1), one[16];
	memset (one, 0, sizeof (one));
	for (size_t i = 0; i < count; ++i)
	  if (i && pbt_chance (1, 6))
	    memcpy (&a[i * size], &a[pbt_draw (i) * size], size);
	  else
	    {
	      graph_gen (&g[i], mt, &opt);
	      memcpy (&a[i * size], g[i].root, size);
	      if (mt->kind == MK_LDOUBLE)
		memset (&a[i * size + 10], 0, 6);
	      if (mt->kind == MK_BOOL)
		a[i * size] = a[i * size] != 0;
	    }
	memcpy (b, a, count * size);
	pbt_note ("%zu values of %s", count, o->name);
	pbt_note_bytes ("values", a, count * size > 400 ? 400 : count * size);
	PBT_CHECK (MR_SUCCESS == mr_basic_types_sort (a, count, (char*)o->name, type_of_kind (mt), size), "status", "sorting of %s fails", o->name);
	for (size_t i = 1; i < count; ++i)
	  PBT_CHECK (value_order (mt, &a[(i - 1) * size], &a[i * size]) <= 0, "order-basic", "%s values %zu and %zu are out of order", o->name, i - 1, i);
	check_permutation (b, a, count, size, o->name);
	h = mt->kind == MK_STRING ? pbt_mix (h, pbt_index) : pbt_hash (pbt_mix (h, mt->kind), b, count * size);
	for (size_t i = 0; i < count; ++i)
	  graph_free (&g[i]);
	free (g);
	free (a);
	free (b);
	pbt_label ("%s", o->name);
	break;
      }
    default: /* structures by the library's own order */
      {
	static const char * const recs[] = { "c_us_t", "c_scalars_t", "c_bits_t", "c_strings_t", "c_elem_t", "c_dyn_t", "c_uni_t", "ce_plain_t", "c_node_t", "c_arrays_t" };
	const mops_t * o = root_by_name (PBT_PICK (recs));
	if (!o)
	  pbt_reject ();
	const mt_t * mt = o->mt;
	size_t size = mt->size;
	gopt_t opt = gopt_default ();
	opt.no_nan = true;
	opt.budget = 3;
	if (count > 40)
	  count = 40;
	mgraph_t * g = calloc (count + 1, sizeof (g[0]));
	char * a = malloc (count * size), * b = malloc (count * size + 1);
	for (size_t i = 0; i < count; ++i)
	  if (i && pbt_chance (1, 6))
	    memcpy (&a[i * size], &a[pbt_draw (i) * size], size);
	  else
	    {
	      graph_gen (&g[i], mt, &opt);
	      memcpy (&a[i * size], g[i].root, size);
	    }
	memcpy (b, a, count * size);
	pbt_note ("%zu objects of %s", count, o->name);
	if (pbt_chance (1, 8))
	  {
	    char unknown[120];
	    snprintf (unknown, sizeof (unknown), "%s%s", o->name, PBT_PICK (((const char * const []){ "x", "_", "1" })));
	    mr_status_t status = pbt_chance (1, 2) ? mr_generic_sort (a, count, unknown) : mr_basic_types_sort (a, count, unknown, MR_TYPE_NONE, size);
	    PBT_CHECK (MR_SUCCESS != status, "unknown-type", "objects of a type %s that does not exist are sorted", unknown);
	    PBT_CHECK (0 == memcmp (a, b, count * size), "unknown-type-alters", "a refused sort alters its array");
	  }
	if (pbt_chance (1, 2))
	  PBT_CHECK (MR_SUCCESS == mr_generic_sort (a, count, (char*)o->name), "status", "sorting of %s fails", o->name);
	else
	  PBT_CHECK (MR_SUCCESS == mr_basic_types_sort (a, count, (char*)o->name, MR_TYPE_NONE, size), "status", "sorting of %s fails", o->name);
	for (size_t i = 1; i < count; ++i)
	  PBT_CHECK (o->cmp (&a[(i - 1) * size], &a[i * size]) <= 0, "order-generic", "%s objects %zu and %zu are out of order", o->name, i - 1, i);
	check_permutation (b, a, count, size, o->name);
	h = pbt_mix (h, pbt_index);
	for (size_t i = 0; i < count; ++i)
	  graph_free (&g[i]);
	free (g);
	free (a);
	free (b);
	pbt_label ("%s", o->name);
	check_no_leak ("leak", "sorting");
	break;
      }
    }
  pbt_label ("%s elements", count < 2 ? "0-1" : count < 8 ? "2-7" : count < 40 ? "8-39" : "40-600");
  if (count >= 3)
    pbt_nontrivial (h);
}

static const pbt_prop_t props[] = {
  { "P08", p_collections },
  { "P12-coll", p_collections_oom },
  { "P09", p_sort },
  { "P22", p_trees },
  { "P08-big", p_big },
  { "P22-big", p_big_trees },
  { NULL, NULL },
};

int
main (int argc, char * argv[])
{
  return (pbt_main (argc, argv, props));
}
