/* Memory functions for the library: every block is tracked, allocations can be made to fail. */
#define _GNU_SOURCE
#include "model.h"
#include "pbt.h"
#include <metaresc.h>
#include <stdlib.h>
#include <string.h>

typedef struct ent_t { char * p; size_t size; const char * func; int line; } ent_t;
static ent_t * tab;
static size_t n_tab, n_used, alloc_tab, live_bytes;
static long fail_at = -1, count, failed;
static bool fail_persistent;
char mem_failed_at[100];
size_t mem_cap, mem_max_request, mem_total, mem_peak;
bool mem_quarantine;
#define TOMB ((char *)1)

static size_t
slot (const char * p, bool insert)
{
  size_t i = (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 20) & (alloc_tab - 1), tomb = (size_t)-1;
  for (;; i = (i + 1) & (alloc_tab - 1))
    {
      if (tab[i].p == p)
	return (i);
      if (!tab[i].p)
	return ((insert && tomb != (size_t)-1) ? tomb : i);
      if (tab[i].p == TOMB && tomb == (size_t)-1)
	tomb = i;
    }
}

static void
add (char * p, size_t size, const char * func, int line)
{
  if (2 * (n_used + 1) > alloc_tab)
    {
      ent_t * old = tab;
      size_t n = alloc_tab;
      alloc_tab = (4 * (n_tab + 1) > alloc_tab) ? (alloc_tab ? 2 * alloc_tab : 1024) : alloc_tab;
      tab = calloc (alloc_tab, sizeof (tab[0]));
      n_used = n_tab = 0;
      for (size_t i = 0; i < n; ++i)
	if (old[i].p && old[i].p != TOMB)
	  {
	    tab[slot (old[i].p, false)] = old[i];
	    ++n_used;
	    ++n_tab;
	  }
      free (old);
    }
  size_t i = slot (p, true);
  if (!tab[i].p)
    ++n_used;
  tab[i] = (ent_t){ p, size, func, line };
  ++n_tab;
  live_bytes += size;
  if (live_bytes > mem_peak)
    mem_peak = live_bytes;
}

static bool
fails (size_t size, const char * func, int line)
{
  if (size > mem_max_request)
    mem_max_request = size;
  mem_total += size;
  long k = count++;
  if (fail_at >= 0 && (k == fail_at || (fail_persistent && k > fail_at)))
    {
      if (!failed++)
	snprintf (mem_failed_at, sizeof (mem_failed_at), "%s:%d", func, line);
      return (true);
    }
  return (mem_cap && (size > mem_cap || live_bytes + size > 4 * mem_cap));
}

static void *
m_calloc (const char * file, const char * func, int line, size_t n, size_t size)
{
  size_t total;
  if (__builtin_mul_overflow (n, size, &total) || fails (total, func, line))
    return (NULL);
  void * p = calloc (1, total);
  if (p)
    add (p, total, func, line);
  return (p);
}

static ent_t *
find (void * p)
{
  if (!alloc_tab)
    return (NULL);
  size_t i = slot (p, false);
  return (tab[i].p == p ? &tab[i] : NULL);
}

static void *
m_realloc (const char * file, const char * func, int line, void * p, size_t size)
{
  ent_t * e = NULL;
  if (p)
    {
      e = find (p);
      if (!e)
	pbt_fail ("foreign-realloc", "%s:%d reallocates block %p which is not a live block of the library", func, line, p);
    }
  if (fails (size, func, line))
    return (NULL);
  /* always moves, so stale pointers are seen */
  char * q = malloc (size);
  if (!q)
    return (NULL);
  if (p)
    {
      memcpy (q, p, e->size < size ? e->size : size);
      live_bytes -= e->size;
      e->p = TOMB;
      --n_tab;
      free (p);
    }
  add (q, size, func, line);
  return (q);
}

static void
m_free (const char * file, const char * func, int line, void * p)
{
  if (!p)
    return;
  ent_t * e = find (p);
  if (!e)
    pbt_fail ("foreign-free", "%s:%d frees block %p which is not a live block of the library", func, line, p);
  live_bytes -= e->size;
  e->p = TOMB;
  --n_tab;
  free (p);
}

static void
quiet (const char * file, const char * func, int line, mr_log_level_t level, mr_message_id_t id, va_list args)
{
  if (pbt_verbose)
    {
      /* messages are formatted, too */
      char * msg = mr_message_format (id, args);
      fprintf (stderr, "message %s:%d: %s\n", func, line, msg ? msg : "(null)");
      if (msg)
	MR_FREE (msg);
    }
}

void
mem_install (void)
{
  mr_conf.mr_mem.calloc = m_calloc;
  mr_conf.mr_mem.realloc = m_realloc;
  mr_conf.mr_mem.free = m_free;
  mr_conf.msg_handler = quiet;
}

void
mem_reset (void)
{
  if (tab)
    memset (tab, 0, alloc_tab * sizeof (tab[0]));
  n_tab = n_used = live_bytes = 0;
  mem_max_request = mem_total = mem_peak = 0;
  fail_at = -1;
}

size_t mem_live (void) { return (n_tab); }
size_t mem_live_bytes (void) { return (live_bytes); }

const void *
mem_block_of (const void * p, size_t * size)
{
  for (size_t i = 0; i < alloc_tab; ++i)
    if (tab[i].p && tab[i].p != TOMB && (const char *)p >= tab[i].p && ((const char *)p < tab[i].p + tab[i].size || p == tab[i].p))
      {
	if (size)
	  *size = tab[i].size;
	return (tab[i].p);
      }
  return (NULL);
}

bool mem_is_live (const void * p) { return (mem_block_of (p, NULL) != NULL); }

void
mem_fail_at (long n, bool persistent)
{
  fail_at = n;
  fail_persistent = persistent;
  count = failed = 0;
}
long mem_allocs (void) { return (count); }
long mem_failed (void) { return (failed); }

const char *
mem_describe_live (void)
{
  static char buf[512];
  size_t k = 0;
  buf[0] = 0;
  for (size_t i = 0; i < alloc_tab && k < sizeof (buf) - 80; ++i)
    if (tab[i].p && tab[i].p != TOMB)
      k += snprintf (&buf[k], sizeof (buf) - k, "%zu bytes from %s:%d; ", tab[i].size, tab[i].func, tab[i].line);
  return (buf);
}

void
mem_free_all (void)
{
  for (size_t i = 0; i < alloc_tab; ++i)
    if (tab[i].p && tab[i].p != TOMB)
      free (tab[i].p);
  if (tab)
    memset (tab, 0, alloc_tab * sizeof (tab[0]));
  n_tab = n_used = live_bytes = 0;
}
