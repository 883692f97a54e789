/* Round trips of big objects: long chains, long strings, arrays of thousands of elements (P03, P04, P06, P07). */
#define _GNU_SOURCE
#include "common.h"
#include <stdio.h>

TYPEDEF_STRUCT (pb_node_t, (int32_t, id), (string_t, name), (struct pb_node_t *, next), (struct pb_node_t *, other))
TYPEDEF_STRUCT (pb_item_t, (int16_t, id), (double, d), (string_t, s), (pb_node_t *, at), (uint32_t, lo, : 11), (uint32_t, hi, : 13))
TYPEDEF_STRUCT (pb_t,
		(string_t, text),
		(pb_item_t *, items, , , { "items_size" }, "string"), (ssize_t, items_size),
		(pb_node_t *, list),
		(int64_t *, nums, , , { "nums_size" }, "string"), (ssize_t, nums_size),
		(string_t *, strs, , , { "strs_size" }, "string"), (ssize_t, strs_size),
		(uint8_t *, bytes, , , { "bytes_size" }, "string"), (uint32_t, bytes_size))

#include "ops.h"
MODEL_OPS (pb_t, NULL, pb)

typedef struct plan_t { size_t text, list, items, nums, strs, bytes; uint64_t seed; } plan_t;
typedef struct big_t { plan_t plan; pb_t root; pb_node_t * nodes; int * other, * at, * same; char ** own; size_t own_n; } big_t;

static uint64_t
next_rnd (uint64_t * s)
{
  *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17;
  return (*s * 0x2545f4914f6cdd1dULL >> 11);
}

static size_t
draw_size (size_t max, bool big)
{
  if (!big)
    return (pbt_draw (4));
  unsigned bits = 1;
  while (((size_t)1 << bits) <= max)
    ++bits;
  bits = 2 + pbt_draw (bits - 1);
  size_t n = ((size_t)1 << bits) - 3 + pbt_draw (pbt_chance (1, 2) ? 6 : (uint64_t)1 << bits);
  return (n > max ? max : n);
}

static char *
rnd_text (big_t * b, uint64_t * s, size_t n)
{
  static const char special[] = "\"'\\<>&\n\t ,:;#{}[]()|%x0123a";
  char * t = malloc (n + 1);
  for (size_t i = 0; i < n; ++i)
    {
      uint64_t r = next_rnd (s);
      t[i] = (r & 7) ? 'a' + (r >> 8) % 26 : special[(r >> 8) % (sizeof (special) - 1)];
    }
  t[n] = 0;
  b->own = realloc (b->own, (b->own_n + 1) * sizeof (b->own[0]));
  return (b->own[b->own_n++] = t);
}

static void
big_make (big_t * b)
{
  uint64_t s = b->plan.seed | 1;
  const plan_t * p = &b->plan;
  memset (&b->root, 0, sizeof (b->root));
  b->root.text = rnd_text (b, &s, p->text);
  b->nodes = calloc (p->list + 1, sizeof (b->nodes[0]));
  b->other = calloc (p->list + 1, sizeof (b->other[0]));
  for (size_t i = 0; i < p->list; ++i)
    {
      pb_node_t * n = &b->nodes[i];
      n->id = (int32_t)next_rnd (&s);
      n->name = (next_rnd (&s) & 3) ? rnd_text (b, &s, next_rnd (&s) % 6) : NULL;
      n->next = i + 1 < p->list ? &b->nodes[i + 1] : NULL;
      b->other[i] = (next_rnd (&s) & 3) ? (int)(next_rnd (&s) % p->list) : -1;
      n->other = b->other[i] < 0 ? NULL : &b->nodes[b->other[i]];
    }
  b->root.list = p->list ? b->nodes : NULL;
  b->root.items = p->items ? calloc (p->items, sizeof (b->root.items[0])) : NULL;
  b->root.items_size = p->items * sizeof (b->root.items[0]);
  b->at = calloc (p->items + 1, sizeof (b->at[0]));
  for (size_t i = 0; i < p->items; ++i)
    {
      pb_item_t * x = &b->root.items[i];
      x->id = next_rnd (&s);
      x->d = (double)(int64_t)next_rnd (&s) / 1024;
      x->s = (next_rnd (&s) & 1) ? rnd_text (b, &s, next_rnd (&s) % 10) : NULL;
      b->at[i] = (p->list && (next_rnd (&s) & 3) == 0) ? (int)(next_rnd (&s) % p->list) : -1;
      x->at = b->at[i] < 0 ? NULL : &b->nodes[b->at[i]];
      x->lo = next_rnd (&s);
      x->hi = next_rnd (&s);
    }
  b->root.nums = p->nums ? calloc (p->nums, sizeof (b->root.nums[0])) : NULL;
  b->root.nums_size = p->nums * sizeof (b->root.nums[0]);
  for (size_t i = 0; i < p->nums; ++i)
    b->root.nums[i] = (int64_t)(next_rnd (&s) << 11) >> (next_rnd (&s) & 63);
  b->root.strs = p->strs ? calloc (p->strs, sizeof (b->root.strs[0])) : NULL;
  b->root.strs_size = p->strs * sizeof (b->root.strs[0]);
  b->same = calloc (p->strs + 1, sizeof (b->same[0]));
  for (size_t i = 0; i < p->strs; ++i)
    {
      b->same[i] = (i && (next_rnd (&s) & 3) == 0) ? (int)(next_rnd (&s) % i) : -1;
      b->root.strs[i] = b->same[i] >= 0 ? b->root.strs[b->same[i]] : rnd_text (b, &s, next_rnd (&s) % 8);
    }
  b->root.bytes = p->bytes ? malloc (p->bytes) : NULL;
  b->root.bytes_size = p->bytes;
  for (size_t i = 0; i < p->bytes; ++i)
    b->root.bytes[i] = next_rnd (&s);
}

static void
big_free (big_t * b)
{
  for (size_t i = 0; i < b->own_n; ++i)
    free (b->own[i]);
  free (b->own); free (b->nodes); free (b->other); free (b->at); free (b->same);
  free (b->root.items); free (b->root.nums); free (b->root.strs); free (b->root.bytes);
}

static bool
same_str (const char * a, const char * b)
{
  return ((a && b) ? 0 == strcmp (a, b) : a == b);
}

/* X is the object of B restored */
static void
big_same (const big_t * b, const pb_t * x, const char * how)
{
  const plan_t * p = &b->plan;
  PBT_CHECK (same_str (b->root.text, x->text), "text", "%s: text of %zu characters differs", how, p->text);
  pb_node_t ** nodes = calloc (p->list + 1, sizeof (nodes[0]));
  size_t n = 0;
  for (pb_node_t * i = x->list; i; i = i->next)
    {
      PBT_CHECK (n < p->list, "list", "%s: chain of %zu nodes became longer", how, p->list);
      nodes[n++] = i;
    }
  PBT_CHECK (n == p->list, "list", "%s: chain of %zu nodes has %zu", how, p->list, n);
  for (size_t i = 0; i < n; ++i)
    {
      PBT_CHECK (nodes[i]->id == b->nodes[i].id && same_str (nodes[i]->name, b->nodes[i].name), "list-value", "%s: node %zu of %zu has another value", how, i, n);
      PBT_CHECK (nodes[i]->other == (b->other[i] < 0 ? NULL : nodes[b->other[i]]), "list-link", "%s: node %zu of %zu is linked to another node", how, i, n);
    }
  PBT_CHECK (x->items_size == b->root.items_size && (!x->items) == (!p->items), "items", "%s: size of items is %zd instead of %zd", how, (ssize_t)x->items_size, (ssize_t)b->root.items_size);
  for (size_t i = 0; i < p->items; ++i)
    {
      const pb_item_t * u = &b->root.items[i], * v = &x->items[i];
      PBT_CHECK (u->id == v->id && u->d == v->d && same_str (u->s, v->s) && u->lo == v->lo && u->hi == v->hi, "items-value", "%s: item %zu of %zu has another value", how, i, p->items);
      PBT_CHECK (v->at == (b->at[i] < 0 ? NULL : nodes[b->at[i]]), "items-link", "%s: item %zu of %zu is linked to another node", how, i, p->items);
    }
  PBT_CHECK (x->nums_size == b->root.nums_size && (!p->nums || !memcmp (x->nums, b->root.nums, x->nums_size)), "nums", "%s: numbers differ", how);
  PBT_CHECK (x->bytes_size == b->root.bytes_size && (!p->bytes || !memcmp (x->bytes, b->root.bytes, x->bytes_size)), "bytes", "%s: bytes differ", how);
  PBT_CHECK (x->strs_size == b->root.strs_size, "strs", "%s: size of strings is %zd instead of %zd", how, (ssize_t)x->strs_size, (ssize_t)b->root.strs_size);
  for (size_t i = 0; i < p->strs; ++i)
    {
      PBT_CHECK (same_str (x->strs[i], b->root.strs[i]), "strs-value", "%s: string %zu of %zu differs", how, i, p->strs);
      PBT_CHECK (b->same[i] < 0 || x->strs[i] == x->strs[b->same[i]], "strs-shared", "%s: string %zu of %zu is not shared", how, i, p->strs);
    }
  free (nodes);
}

static void
big_plan (big_t * b, mfmt_t f)
{
  memset (b, 0, sizeof (*b));
  unsigned what = 1 + pbt_draw (63);
  /* a chain is as deep in texts as it is long: libxml2 refuses more than 256 levels (known finding xml2-depth) */
  b->plan.list = draw_size (f == F_XML2 ? 200 : 1500, what & 1);
  b->plan.text = draw_size (100000, what & 2);
  b->plan.items = draw_size (1500, what & 4);
  b->plan.nums = draw_size (9000, what & 8);
  b->plan.strs = draw_size (3000, what & 16);
  b->plan.bytes = draw_size (20000, what & 32);
  b->plan.seed = pbt_draw (0);
  big_make (b);
  size_t total = b->plan.list + b->plan.text + b->plan.items + b->plan.nums + b->plan.strs + b->plan.bytes;
  pbt_note ("chain %zu, text %zu, items %zu, numbers %zu, strings %zu, bytes %zu", b->plan.list, b->plan.text, b->plan.items, b->plan.nums, b->plan.strs, b->plan.bytes);
  if (total >= 100)
    pbt_nontrivial (pbt_hash (0, &b->plan, sizeof (b->plan)));
  pbt_label ("10^%d", total < 100 ? 1 : total < 1000 ? 2 : total < 10000 ? 3 : total < 100000 ? 4 : 5);
}

static void
big_round_trip (mfmt_t f)
{
  big_t b;
  pb_t * x = calloc (1, sizeof (*x));
  case_begin ();
  big_plan (&b, f);
  mbuf_t buf = ops_pb.save (f, &b.root);
  PBT_CHECK (buf.ptr, "save", "%s: save failed", fmt_name[f]);
  memset (x, 0x5a, sizeof (*x));
  PBT_CHECK (ops_pb.load (f, &buf, x), "load", "%s: load failed", fmt_name[f]);
  big_same (&b, x, fmt_name[f]);
  mbuf_t again = ops_pb.save (f, x);
  PBT_CHECK (again.ptr && again.size == buf.size && !memcmp (again.ptr, buf.ptr, buf.size), "resave", "%s: restored object is saved to another form", fmt_name[f]);
  buf_free (&buf);
  buf_free (&again);
  PBT_CHECK (ops_pb.free (x), "free", "releasing failed");
  free (x);
  check_no_leak ("leak", "a round trip");
  big_free (&b);
}

void p_big_xdr (void) { big_round_trip (F_XDR); }
void p_big_text (void) { big_round_trip (pick_text ()); }

void
p_big_copy (void)
{
  big_t b;
  pb_t * x = calloc (1, sizeof (*x)), * y = calloc (1, sizeof (*y));
  case_begin ();
  big_plan (&b, F_XDR);
  PBT_CHECK (ops_pb.copy (&b.root, x), "copy", "copy failed");
  big_same (&b, x, "copy");
  big_same (&b, &b.root, "source of a copy");
  PBT_CHECK (0 == ops_pb.cmp (&b.root, x) && ops_pb.hash (&b.root) == ops_pb.hash (x), "equal", "copy does not compare or hash as equal");
  PBT_CHECK (ops_pb.copy (x, y), "copy", "copy of a copy failed");
  PBT_CHECK (ops_pb.free (x), "free", "releasing failed");
  big_same (&b, y, "copy of a copy");
  /* one change anywhere is seen */
  uint64_t s = pbt_draw (0) | 1;
  size_t l = b.plan.list, i = b.plan.items, n = b.plan.nums, t = b.plan.strs, k = b.plan.bytes, total = l + i + n + t + k, at = total ? pbt_draw (total) : 0;
  if (!total)
    ;
  else if (at < l)
    { pb_node_t * node = y->list; while (at--) node = node->next; node->id ^= 1 + (s & 0xff); }
  else if ((at -= l) < i)
    y->items[at].hi ^= 1 + (s & 0xff);
  else if ((at -= i) < n)
    y->nums[at] ^= 1 + (s & 0xff);
  else if ((at -= n) < t)
    y->strs[at] = y->strs[at][0] ? "" : "x"; /* never released */
  else
    y->bytes[at - t] ^= 1;
  if (total)
    {
      int c = ops_pb.cmp (&b.root, y), d = ops_pb.cmp (y, &b.root);
      PBT_CHECK (c && d && (c > 0) == (d < 0), "change", "one change is not seen by comparison: %d, %d", c, d);
    }
  big_free (&b);
}

static mr_status_t
known_chain (bool xdr, int n)
{
  pb_node_t * nodes = calloc (n, sizeof (nodes[0])), * x = calloc (1, sizeof (*x));
  for (int i = 0; i < n; ++i)
    nodes[i] = (pb_node_t){ .id = i, .next = i + 1 < n ? &nodes[i + 1] : NULL };
  if (xdr)
    {
      mr_rarray_t ra = MR_SAVE_XDR_RA (pb_node_t, nodes);
      return (ra.data.ptr ? MR_LOAD_XDR_RA (pb_node_t, &ra, x) : MR_FAILURE);
    }
  char * s = MR_SAVE_XML2 (pb_node_t, nodes);
  return (s ? MR_LOAD_XML2 (pb_node_t, s, x) : MR_FAILURE);
}

/* libxml2 refuses a document with more than 256 levels unless it is told otherwise */
void
p_known_xml2_depth (void)
{
  case_begin ();
  PBT_CHECK (MR_SUCCESS == known_chain (false, 300), "load", "chain of 300 nodes is refused");
}

/* the loader calls itself for each node of a chain */
void
p_known_xdr_depth (void)
{
  case_begin ();
  PBT_CHECK (MR_SUCCESS == known_chain (true, 30000), "load", "chain of 30000 nodes is refused");
}
