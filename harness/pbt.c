#define _GNU_SOURCE
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <errno.h>
#include <time.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>

#define MAX_CHOICES (1 << 20)
#define MAX_LABELS 1024
#define HASH_BITS 20
#define NOTE_SIZE (1 << 16)
#define MAX_SAMPLES 6
#define CASE_CPU_S 20

typedef struct label_t { char name[56]; uint64_t count; } label_t;

typedef struct shm_t {
  volatile uint64_t idx;        /* running case */
  volatile uint64_t done;       /* cases completed */
  uint64_t evaluations, nontrivial, rejected;
  uint32_t n_choices;
  uint64_t choices[MAX_CHOICES];
  uint32_t n_replay;
  uint64_t replay[MAX_CHOICES];
  char note[NOTE_SIZE];
  uint32_t note_len;
  char sig[256];
  char msg[4096];
  label_t labels[MAX_LABELS];
  uint64_t hashes[1 << HASH_BITS];
  uint64_t n_hashes, hash_overflow;
  uint32_t n_samples;
  char samples[MAX_SAMPLES][2048];
  int batch;
} shm_t;

static shm_t * S;
static bool replaying, quiet_stats;
static uint64_t rng_state;
static jmp_buf case_jmp;
static bool case_nontrivial;
static uint64_t case_hash;
int pbt_verbose;
uint64_t pbt_index;
static const pbt_prop_t * prop;
static uint64_t seed;
static char err_path[256];

bool pbt_replaying (void) { return (replaying); }

static uint64_t
rnd (void)
{
  uint64_t z = (rng_state += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return (z ^ (z >> 31));
}

uint64_t
pbt_hash (uint64_t h, const void * data, size_t size)
{
  const uint8_t * p = data;
  h ^= 0xcbf29ce484222325ULL;
  for (size_t i = 0; i < size; ++i)
    h = (h ^ p[i]) * 0x100000001b3ULL;
  return (pbt_mix (h, size));
}

uint64_t
pbt_draw (uint64_t n)
{
  uint64_t v;
  if (n == 1)
    return (0);
  if (replaying)
    v = (S->n_choices < S->n_replay) ? S->replay[S->n_choices] : 0;
  else
    v = rnd ();
  if (n)
    v = v % n;
  if (S->n_choices >= MAX_CHOICES)
    pbt_reject ();
  S->choices[S->n_choices++] = v;
  return (v);
}

int64_t pbt_range (int64_t lo, int64_t hi) { return (lo + (int64_t)pbt_draw ((uint64_t)hi - (uint64_t)lo + 1)); }
bool pbt_chance (unsigned num, unsigned den) { return (pbt_draw (den) >= den - num); }
unsigned pbt_geom (unsigned max, unsigned num, unsigned den)
{
  unsigned n = 0;
  while (n < max && pbt_chance (num, den))
    ++n;
  return (n);
}

void
pbt_count (const char * name, uint64_t n)
{
  int i;
  if (quiet_stats)
    return;
  for (i = 0; i < MAX_LABELS && S->labels[i].name[0]; ++i)
    if (0 == strncmp (S->labels[i].name, name, sizeof (S->labels[i].name) - 1))
      break;
  if (i >= MAX_LABELS)
    return;
  if (!S->labels[i].name[0])
    strncpy (S->labels[i].name, name, sizeof (S->labels[i].name) - 1);
  S->labels[i].count += n;
}

void
pbt_label (const char * fmt, ...)
{
  char buf[56];
  va_list args;
  if (quiet_stats)
    return;
  va_start (args, fmt);
  vsnprintf (buf, sizeof (buf), fmt, args);
  va_end (args);
  pbt_count (buf, 1);
}

void
pbt_note (const char * fmt, ...)
{
  va_list args;
  if (S->note_len >= NOTE_SIZE - 1)
    return;
  va_start (args, fmt);
  int n = vsnprintf (&S->note[S->note_len], NOTE_SIZE - S->note_len, fmt, args);
  va_end (args);
  if (n > 0)
    S->note_len += n;
  if (S->note_len > NOTE_SIZE - 1)
    S->note_len = NOTE_SIZE - 1;
}

void
pbt_note_bytes (const char * title, const void * data, size_t size)
{
  const uint8_t * p = data;
  pbt_note ("%s[%zu]=", title, size);
  for (size_t i = 0; i < size && i < 4096; ++i)
    if (p[i] == '\\' || p[i] < 0x20 || p[i] >= 0x7f)
      pbt_note ("\\x%02x", p[i]);
    else
      pbt_note ("%c", p[i]);
  pbt_note ("\n");
}

void
pbt_nontrivial (uint64_t hash)
{
  case_nontrivial = true;
  case_hash = pbt_mix (case_hash, hash);
}

void pbt_reject (void) { longjmp (case_jmp, 1); }

void
pbt_fail (const char * sig, const char * fmt, ...)
{
  va_list args;
  snprintf (S->sig, sizeof (S->sig), "%s", sig);
  va_start (args, fmt);
  vsnprintf (S->msg, sizeof (S->msg), fmt, args);
  va_end (args);
  _exit (101);
}

static void
arm_timer (void)
{
  struct itimerval it = { .it_value = { .tv_sec = CASE_CPU_S } };
  setitimer (ITIMER_PROF, &it, NULL);
}

static void
add_hash (uint64_t h)
{
  if (!h)
    h = 1;
  if (S->n_hashes >= (1 << HASH_BITS) * 3 / 4)
    {
      ++S->hash_overflow;
      return;
    }
  for (uint64_t i = h >> (64 - HASH_BITS);; i = (i + 1) & ((1 << HASH_BITS) - 1))
    {
      if (S->hashes[i] == h)
	return;
      if (!S->hashes[i])
	{
	  S->hashes[i] = h;
	  ++S->n_hashes;
	  return;
	}
    }
}

static void
run_case (uint64_t idx)
{
  S->idx = idx;
  pbt_index = idx;
  S->n_choices = 0;
  S->note_len = 0;
  S->note[0] = 0;
  case_nontrivial = false;
  case_hash = 0;
  rng_state = pbt_mix (pbt_mix (seed, pbt_hash (0, prop->name, strlen (prop->name))), idx);
  arm_timer ();
  if (setjmp (case_jmp))
    {
      if (!quiet_stats)
	++S->rejected;
      return;
    }
  prop->fn ();
  if (quiet_stats)
    return;
  ++S->evaluations;
  if (case_nontrivial)
    {
      ++S->nontrivial;
      add_hash (case_hash);
      uint32_t k = S->n_samples;
      if (S->note_len && (k < MAX_SAMPLES) && ((k < 2) || (idx % 37 == 0)))
	{
	  strncpy (S->samples[k], S->note, sizeof (S->samples[k]) - 1);
	  ++S->n_samples;
	}
    }
}

static void
child_setup (void)
{
  int fd = open (err_path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0 && !pbt_verbose)
    {
      dup2 (fd, 2);
      dup2 (fd, 1);
    }
  struct rlimit rl = { 0, 0 };
  setrlimit (RLIMIT_CORE, &rl);
  S->sig[0] = S->msg[0] = 0;
}

/* reads sanitizer's report; makes a signature out of it */
static void
describe_death (int status)
{
  static char buf[1 << 16];
  int fd = open (err_path, O_RDONLY);
  ssize_t n = (fd >= 0) ? read (fd, buf, sizeof (buf) - 1) : 0;
  if (fd >= 0)
    close (fd);
  buf[n > 0 ? n : 0] = 0;
  if (WIFEXITED (status) && WEXITSTATUS (status) == 101 && S->sig[0])
    return;
  char * sum = strstr (buf, "SUMMARY: ");
  if (sum)
    {
      char kind[128] = "", rest[160] = "";
      char * err = strstr (sum, "Sanitizer: ");
      if (err)
	sscanf (err + 11, "%127s %159[^\n]", kind, rest);
      char * in = strstr (rest, " in ");
      snprintf (S->sig, sizeof (S->sig), "asan:%s:%s", kind, in ? in + 4 : "?");
      char * rep = strstr (buf, "==ERROR");
      snprintf (S->msg, sizeof (S->msg), "%.3800s", rep ? rep : sum);
    }
  else if (WIFSIGNALED (status) && WTERMSIG (status) == SIGPROF)
    {
      snprintf (S->sig, sizeof (S->sig), "hang");
      snprintf (S->msg, sizeof (S->msg), "case used more than %d s of CPU time", CASE_CPU_S);
    }
  else if (WIFSIGNALED (status))
    {
      snprintf (S->sig, sizeof (S->sig), "signal:%d", WTERMSIG (status));
      snprintf (S->msg, sizeof (S->msg), "killed by signal %d\n%.3000s", WTERMSIG (status), buf);
    }
  else
    {
      snprintf (S->sig, sizeof (S->sig), "exit:%d", WEXITSTATUS (status));
      snprintf (S->msg, sizeof (S->msg), "exited with %d\n%.3000s", WEXITSTATUS (status), buf);
    }
}

static int
wait_child (pid_t pid)
{
  int status = 0;
  while (waitpid (pid, &status, 0) < 0)
    if (errno != EINTR)
      return (-1);
  return (status);
}

/* replays S->replay in a fresh process; true if it fails */
static bool
try_replay (void)
{
  fflush (NULL);
  pid_t pid = fork ();
  if (pid < 0)
    return (false);
  if (!pid)
    {
      replaying = true;
      quiet_stats = true;
      child_setup ();
      run_case (S->idx);
      _exit (0);
    }
  int status = wait_child (pid);
  if (WIFEXITED (status) && WEXITSTATUS (status) == 0)
    return (false);
  describe_death (status);
  return (true);
}

static bool
try_batch (uint64_t start, uint64_t idx)
{
  fflush (NULL);
  pid_t pid = fork ();
  if (pid < 0)
    return (false);
  if (!pid)
    {
      quiet_stats = true;
      child_setup ();
      for (uint64_t i = start; i <= idx; ++i)
	run_case (i);
      _exit (0);
    }
  int status = wait_child (pid);
  if (WIFEXITED (status) && WEXITSTATUS (status) == 0)
    return (false);
  describe_death (status);
  return (true);
}

static uint64_t best[MAX_CHOICES];
static uint32_t n_best;
static char want_sig[256];
static int direct;
static int attempts, shrink_s = 60;
static time_t shrink_until;

static bool
attempt (const uint64_t * c, uint32_t n)
{
  if (attempts <= 0 || time (NULL) > shrink_until)
    return (false);
  --attempts;
  memcpy (S->replay, c, n * sizeof (c[0]));
  S->n_replay = n;
  if (!try_replay () || 0 != strcmp (want_sig, S->sig))
    return (false);
  /* keep what was really consumed */
  n_best = S->n_choices;
  memcpy (best, S->choices, n_best * sizeof (best[0]));
  while (n_best && !best[n_best - 1])
    --n_best;
  return (true);
}

static void
shrink (void)
{
  static uint64_t c[MAX_CHOICES];
  bool progress = true;
  attempts = 3000;
  shrink_until = time (NULL) + shrink_s;
  while (progress && attempts > 0 && time (NULL) <= shrink_until)
    {
      progress = false;
      for (uint32_t len = n_best / 2 ? n_best / 2 : 1; len >= 1; len /= 2)
	{
	  for (uint32_t pos = n_best; pos-- > 0; )
	    {
	      if (pos + len > n_best)
		continue;
	      /* delete */
	      memcpy (c, best, pos * sizeof (c[0]));
	      memcpy (&c[pos], &best[pos + len], (n_best - pos - len) * sizeof (c[0]));
	      if (attempt (c, n_best - len))
		{
		  progress = true;
		  continue;
		}
	      /* zero */
	      if (pos + len > n_best)
		continue;
	      bool all_zero = true;
	      memcpy (c, best, n_best * sizeof (c[0]));
	      for (uint32_t i = 0; i < len; ++i)
		if (c[pos + i])
		  {
		    all_zero = false;
		    c[pos + i] = 0;
		  }
	      if (!all_zero && attempt (c, n_best))
		progress = true;
	      if (len > 1)
		pos = (pos >= len - 1) ? pos - (len - 1) : 0;
	      if (attempts <= 0)
		return;
	    }
	  if (len == 1)
	    break;
	}
      for (uint32_t pos = 0; pos < n_best; ++pos)
	{
	  uint64_t lo = 0;
	  while (pos < n_best && best[pos] > lo)
	    {
	      uint64_t mid = lo + (best[pos] - lo) / 2;
	      memcpy (c, best, n_best * sizeof (c[0]));
	      c[pos] = mid;
	      if (attempt (c, n_best))
		progress = true;
	      else if (mid == lo && mid + 1 < best[pos])
		lo = mid + 1;
	      else
		lo = mid + 1;
	      if (attempts <= 0)
		return;
	    }
	}
    }
}

static void
json_str (FILE * f, const char * s)
{
  fputc ('"', f);
  for (; *s; ++s)
    if (*s == '"' || *s == '\\')
      fprintf (f, "\\%c", *s);
    else if ((unsigned char)*s < 0x20 || (unsigned char)*s >= 0x7f)
      fprintf (f, "\\u%04x", (unsigned char)*s);
    else
      fputc (*s, f);
  fputc ('"', f);
}

static int
replay_file (const char * path)
{
  FILE * f = fopen (path, "r");
  char line[256];
  uint64_t a, b;
  if (!f)
    return (2);
  int mode = 0, i, fails = 0, runs = 3;
  S->n_replay = 0;
  while (fgets (line, sizeof (line), f))
    {
      if (1 == sscanf (line, "index %lu", &a))
	S->idx = a;
      else if (1 == sscanf (line, "seed %lu", &a))
	seed = a;
      else if (2 == sscanf (line, "batch %lu %lu", &a, &b))
	mode = 1;
      else if (0 == strncmp (line, "choices", 7))
	{
	  while (1 == fscanf (f, "%lu", &a))
	    if (S->n_replay < MAX_CHOICES)
	      S->replay[S->n_replay++] = a;
	  mode = 2;
	  break;
	}
    }
  fclose (f);
  if (!mode)
    return (2);
  uint64_t idx = S->idx;
  if (direct)
    {
      replaying = (mode == 2);
      quiet_stats = true;
      for (; mode == 1 && a < b; ++a)
	run_case (a);
      run_case (idx);
      printf ("passes\n");
      return (0);
    }
  for (i = 0; i < runs; ++i)
    {
      S->idx = idx;
      fails += (mode == 2) ? try_replay () : try_batch (a, b);
    }
  printf ("replay of %s: %d of %d runs fail\n", path, fails, runs);
  if (fails)
    printf ("signature: %s\nmessage: %s\ncase:\n%s\n", S->sig, S->msg, S->note);
  return (fails == runs ? 1 : 0);
}

int
pbt_main (int argc, char * argv[], const pbt_prop_t * props)
{
  uint64_t start = 0, count = 100;
  int max_failures = 1, no_shrink = 0;
  double budget_s = 0;
  /* the same addresses in every run */
  int pers = personality (0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv ("PBT_REEXEC") && personality (pers | ADDR_NO_RANDOMIZE) != -1)
    {
      setenv ("PBT_REEXEC", "1", 1);
      execv ("/proc/self/exe", argv);
    }
  const char * name = NULL, * out = NULL, * replay = NULL, * fail_dir = "/tmp";
  uint64_t stride = 1;
  for (int i = 1; i < argc; ++i)
    {
      if (!strcmp (argv[i], "--prop")) name = argv[++i];
      else if (!strcmp (argv[i], "--seed")) seed = strtoull (argv[++i], NULL, 0);
      else if (!strcmp (argv[i], "--start")) start = strtoull (argv[++i], NULL, 0);
      else if (!strcmp (argv[i], "--count")) count = strtoull (argv[++i], NULL, 0);
      else if (!strcmp (argv[i], "--budget")) budget_s = atof (argv[++i]);
      else if (!strcmp (argv[i], "--out")) out = argv[++i];
      else if (!strcmp (argv[i], "--replay")) replay = argv[++i];
      else if (!strcmp (argv[i], "--faildir")) fail_dir = argv[++i];
      else if (!strcmp (argv[i], "--max-failures")) max_failures = atoi (argv[++i]);
      else if (!strcmp (argv[i], "--no-shrink")) no_shrink = 1;
      else if (!strcmp (argv[i], "--shrink-time")) shrink_s = atoi (argv[++i]);
      else if (!strcmp (argv[i], "--direct")) direct = 1;
      else if (!strcmp (argv[i], "-v")) pbt_verbose = 1;
      else { fprintf (stderr, "unknown argument %s\n", argv[i]); return (2); }
    }
  (void)stride;
  static char prop_name[64];
  if (replay && !name)
    {
      FILE * f = fopen (replay, "r");
      if (f && 1 == fscanf (f, "# property %63s", prop_name))
	name = prop_name;
      if (f)
	fclose (f);
    }
  for (prop = props; prop->name; ++prop)
    if (name && !strcmp (prop->name, name))
      break;
  if (!prop->name)
    {
      for (prop = props; prop->name; ++prop)
	printf ("%s\n", prop->name);
      return (2);
    }
  S = mmap (NULL, sizeof (shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED)
    return (2);
  mkdir (fail_dir, 0755);
  snprintf (err_path, sizeof (err_path), "%s/stderr-%d", fail_dir, (int)getpid ());
  if (replay)
    {
      int rc = replay_file (replay);
      unlink (err_path);
      return (rc);
    }
  struct { char sig[256]; char path[320]; char msg[4200]; uint64_t idx; int choices; } * fails = calloc (max_failures + 1, sizeof (*fails));
  int n_fails = 0, flaky = 0;
  uint64_t next = start, end = start + count;
  struct timespec t0, t1;
  clock_gettime (CLOCK_MONOTONIC, &t0);
  double elapsed = 0;
  int dup = 0;
  while (next < end && n_fails < max_failures && dup < 20)
    {
      fflush (NULL);
      uint64_t batch_end = next + 2000 < end ? next + 2000 : end;
      S->done = next;
      pid_t pid = fork ();
      if (pid < 0)
	return (2);
      if (!pid)
	{
	  child_setup ();
	  for (uint64_t i = next; i < batch_end; ++i)
	    {
	      run_case (i);
	      S->done = i + 1;
	      if (budget_s > 0)
		{
		  clock_gettime (CLOCK_MONOTONIC, &t1);
		  if (elapsed + (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > budget_s)
		    _exit (3);
		}
	    }
	  _exit (0);
	}
      int status = wait_child (pid);
      if (WIFEXITED (status) && WEXITSTATUS (status) == 3)
	break; /* out of the time budget */
      if (WIFEXITED (status) && WEXITSTATUS (status) == 0)
	{
	  next = batch_end;
	  continue;
	}
      describe_death (status);
      uint64_t batch_start = next, bad = S->idx;
      next = bad + 1;
      snprintf (want_sig, sizeof (want_sig), "%s", S->sig);
      bool seen = false;
      for (int i = 0; i < n_fails; ++i)
	seen |= !strcmp (fails[i].sig, want_sig);
      if (seen)
	{
	  ++dup;
	  continue;
	}
      n_best = S->n_choices;
      memcpy (best, S->choices, n_best * sizeof (best[0]));
      memcpy (S->replay, best, n_best * sizeof (best[0]));
      S->n_replay = n_best;
      S->idx = bad;
      bool by_choices = try_replay ();
      if (by_choices)
	{
	  snprintf (want_sig, sizeof (want_sig), "%s", S->sig);
	  if (!no_shrink)
	    shrink ();
	}
      int confirmed = 0;
      for (int i = 0; i < 3; ++i)
	{
	  S->idx = bad;
	  if (by_choices)
	    {
	      memcpy (S->replay, best, n_best * sizeof (best[0]));
	      S->n_replay = n_best;
	      confirmed += try_replay ();
	    }
	  else
	    confirmed += try_batch (batch_start, bad);
	}
      if (confirmed < 3)
	{
	  ++flaky;
	  fprintf (stderr, "unconfirmed failure at case %lu (%s): %d of 3 replays fail\n%.1500s\n", bad, want_sig, confirmed, S->msg);
	  continue;
	}
      snprintf (fails[n_fails].sig, sizeof (fails[n_fails].sig), "%s", S->sig);
      snprintf (fails[n_fails].msg, sizeof (fails[n_fails].msg), "%s", S->msg);
      snprintf (fails[n_fails].path, sizeof (fails[n_fails].path), "%s/%s-%lu-%lu.replay", fail_dir, prop->name, seed, bad);
      fails[n_fails].idx = bad;
      fails[n_fails].choices = n_best;
      FILE * f = fopen (fails[n_fails].path, "w");
      if (f)
	{
	  fprintf (f, "# property %s\n# signature %s\n", prop->name, S->sig);
	  char * m = S->msg;
	  for (char * l = strsep (&m, "\n"); l; l = strsep (&m, "\n"))
	    fprintf (f, "# %s\n", l);
	  m = S->note;
	  fprintf (f, "# case:\n");
	  for (char * l = strsep (&m, "\n"); l; l = strsep (&m, "\n"))
	    fprintf (f, "#   %s\n", l);
	  fprintf (f, "seed %lu\nindex %lu\n", seed, bad);
	  if (by_choices)
	    {
	      fprintf (f, "choices\n");
	      for (uint32_t i = 0; i < n_best; ++i)
		fprintf (f, "%lu%c", best[i], (i % 20 == 19) ? '\n' : ' ');
	      fprintf (f, "\n");
	    }
	  else
	    fprintf (f, "batch %lu %lu\n", batch_start, bad);
	  fclose (f);
	}
      ++n_fails;
    }
  unlink (err_path);
  FILE * f = out ? fopen (out, "w") : stdout;
  if (!f)
    return (2);
  clock_gettime (CLOCK_MONOTONIC, &t1);
  fprintf (f, "{\"prop\": \"%s\", \"seed\": %lu, \"start\": %lu, \"planned\": %lu, \"evaluations\": %lu, \"nontrivial\": %lu, \"distinct\": %lu, \"rejected\": %lu, \"hash_overflow\": %lu, \"flaky\": %d, \"wall\": %.2f,\n",
	   prop->name, seed, start, count, S->evaluations, S->nontrivial, S->n_hashes, S->rejected, S->hash_overflow, flaky,
	   (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
  fprintf (f, "\"labels\": {");
  for (int i = 0; i < MAX_LABELS && S->labels[i].name[0]; ++i)
    {
      fprintf (f, "%s", i ? ", " : "");
      json_str (f, S->labels[i].name);
      fprintf (f, ": %lu", S->labels[i].count);
    }
  fprintf (f, "},\n\"samples\": [");
  for (uint32_t i = 0; i < S->n_samples; ++i)
    {
      fprintf (f, "%s", i ? ", " : "");
      json_str (f, S->samples[i]);
    }
  fprintf (f, "],\n\"failures\": [");
  for (int i = 0; i < n_fails; ++i)
    {
      fprintf (f, "%s{\"signature\": ", i ? ", " : "");
      json_str (f, fails[i].sig);
      fprintf (f, ", \"message\": ");
      json_str (f, fails[i].msg);
      fprintf (f, ", \"choices\": %d, \"replay\": ", fails[i].choices);
      json_str (f, fails[i].path);
      fprintf (f, "}");
    }
  fprintf (f, "]");
  if (out)
    {
      fprintf (f, ",\n\"hashes\": [");
      bool first = true;
      for (uint64_t i = 0; i < (1 << HASH_BITS); ++i)
	if (S->hashes[i])
	  {
	    fprintf (f, "%s%lu", first ? "" : ",", S->hashes[i]);
	    first = false;
	  }
      fprintf (f, "]");
    }
  fprintf (f, "}\n");
  if (out)
    fclose (f);
  return (n_fails ? 1 : 0);
}
