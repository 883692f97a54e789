/* P16: descriptors of declared types against facts computed by the compiler; look-ups by names and values. */
#include "pbt.h"
#include "reflect.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <complex.h>

extern const rt_t * const reflect_tables[]; /* generated: NULL terminated list of tables */
extern const int reflect_parts;

static const rt_t ** types;
static int ntypes;

/* sets of names */
typedef struct names_t { const char ** s; int n, alloc; } names_t;
static names_t type_names, field_names, enum_names, foreign_types, foreign_fields, foreign_enums;

static void
names_add (names_t * t, const char * s)
{
  if (!s)
    return;
  if (t->n == t->alloc)
    t->s = realloc (t->s, (t->alloc = 2 * t->alloc + 64) * sizeof (t->s[0]));
  t->s[t->n++] = s;
}

static int
cmp_str (const void * a, const void * b)
{
  return (strcmp (*(char **)a, *(char **)b));
}

static void
names_sort (names_t * t)
{
  qsort (t->s, t->n, sizeof (t->s[0]), cmp_str);
}

static bool
names_have (const names_t * t, const char * s)
{
  return (t->n && bsearch (&s, t->s, t->n, sizeof (t->s[0]), cmp_str));
}

static void
collect_fields (const rf_t * f, int n)
{
  for (int i = 0; i < n; ++i)
    {
      if (f[i].name[0])
	names_add (&field_names, f[i].name);
      collect_fields (f[i].sub, f[i].nsub);
    }
}

static const rt_t *
type_by_name (const char * name)
{
  for (int i = 0; i < ntypes; ++i)
    if (!strcmp (types[i]->name, name))
      return (types[i]);
  return (NULL);
}

static int nfields (mr_td_t * td) { return (td->param.struct_param.fields_size / sizeof (td->param.struct_param.fields[0])); }

static void
prepare (void)
{
  static bool done;
  if (done)
    return;
  done = true;
  mr_conf.log_level = MR_LL_FATAL;
  int n = 0;
  for (int t = 0; reflect_tables[t]; ++t)
    for (const rt_t * p = reflect_tables[t]; p->name; ++p)
      ++n;
  types = calloc (n + 1, sizeof (types[0]));
  for (int t = 0; reflect_tables[t]; ++t)
    for (const rt_t * p = reflect_tables[t]; p->name; ++p)
      {
	types[ntypes++] = p;
	names_add (&type_names, p->name);
	collect_fields (p->f, p->nf);
	for (int i = 0; i < p->ne; ++i)
	  names_add (&enum_names, p->e[i].name);
      }
  names_sort (&type_names);
  names_sort (&field_names);
  names_sort (&enum_names);
  /* the library's own types and the ones it makes of anonymous unions: names that may be found too */
  mr_get_td_by_name ("int");
  for (mr_td_t * td = mr_conf.td_list; td; td = td->next)
    if (!names_have (&type_names, td->type.str))
      {
	names_add (&foreign_types, td->type.str);
	if (td->mr_type == MR_TYPE_ENUM)
	  for (int i = 0; i < td->param.enum_param.enums_size / sizeof (td->param.enum_param.enums[0]); ++i)
	    names_add (&foreign_enums, td->param.enum_param.enums[i]->name.str);
	else if ((td->mr_type == MR_TYPE_STRUCT) || (td->mr_type == MR_TYPE_UNION) || (td->mr_type == MR_TYPE_ANON_UNION) || (td->mr_type == MR_TYPE_NAMED_ANON_UNION))
	  for (int i = 0; i < nfields (td); ++i)
	    names_add (&foreign_fields, td->param.struct_param.fields[i]->name.str);
      }
    else if ((td->mr_type == MR_TYPE_STRUCT) || (td->mr_type == MR_TYPE_UNION))
      for (int i = 0; i < nfields (td); ++i) /* names given to anonymous unions */
	{
	  mr_fd_t * fd = td->param.struct_param.fields[i];
	  if (fd && (fd->stype.mr_type == MR_TYPE_ANON_UNION))
	    names_add (&foreign_fields, fd->name.str);
	}
  names_sort (&foreign_types);
  names_sort (&foreign_fields);
  names_sort (&foreign_enums);
}

static char path[512];

#define CK(COND, SIG, FMT, ...) PBT_CHECK (COND, SIG, "%s: " FMT, path, ## __VA_ARGS__)

/* first bit and number of bits of a bit-field, found by stores */
static void
bits_of (const rf_t * f, long size, long * first, int * width, bool * contiguous)
{
  uint8_t * a = calloc (1, size + 16);
  f->set (a, ~0ULL);
  *first = -1;
  *width = 0;
  *contiguous = true;
  long last = -1;
  for (long i = 0; i < 8 * size; ++i)
    if (a[i / 8] >> (i % 8) & 1)
      {
	if (*first < 0)
	  *first = i;
	else if (last != i - 1)
	  *contiguous = false;
	last = i;
	++*width;
      }
  free (a);
}

static long
place_of (const rf_t * f, long size)
{
  long first;
  int width;
  bool cont;
  if (f->set)
    {
      bits_of (f, size, &first, &width, &cont);
      return (first);
    }
  if (f->nsub)
    {
      for (int i = 0; i < f->nsub; ++i)
	{
	  long p = place_of (&f->sub[i], size);
	  if (p >= 0)
	    return (p / 8 * 8);
	}
      return (-1);
    }
  return ((f->flags & RF_NO_OFFSET) ? -1 : 8 * f->offset);
}

static void
check_args (const int * args, int nargs, mr_func_param_t * fp)
{
  int n = fp->size / sizeof (fp->args[0]);
  CK (n == nargs, "func-args", "%d arguments with the result, there are %d", n, nargs);
  for (int i = 0; i < n; ++i)
    CK (fp->args[i]->mr_type == args[i], "func-arg", "argument %d is of type %d, it is declared as %d", i, fp->args[i]->mr_type, args[i]);
}

static void check_fields (const rt_t * t, mr_td_t * td, const rf_t * f, int n, long base, bool is_struct, unsigned * work);

static void
check_field (const rt_t * t, mr_td_t * td, const rf_t * f, mr_fd_t * fd, long base, unsigned * work)
{
  ++*work;
  CK (fd->stype.mr_type == f->mr_type, "field-type", "type %d instead of %d", fd->stype.mr_type, f->mr_type);
  if (f->aux >= 0)
    CK (fd->stype.mr_type_aux == f->aux, "field-aux", "auxiliary type %d instead of %d", fd->stype.mr_type_aux, f->aux);
  CK (fd->meta && !strcmp (fd->meta, f->meta), "field-meta", "text '%s' instead of '%s'", fd->meta ?: "(null)", f->meta);
  if (f->flags & (RF_ANON | RF_NAMED))
    {
      CK (fd->unnamed == !!(f->flags & RF_ANON), "anon-unnamed", "flag of unnamed is %d", fd->unnamed);
      CK (fd->stype.tdp, "anon-type", "anonymous union has no type");
      CK (fd->stype.tdp->mr_type == f->mr_type, "anon-type", "type of the union is %d", fd->stype.tdp->mr_type);
      CK (mr_get_td_by_name (fd->stype.tdp->type.str) == fd->stype.tdp, "anon-lookup", "type '%s' is not found", fd->stype.tdp->type.str);
      check_fields (t, fd->stype.tdp, f->sub, f->nsub, base + fd->offset, false, work);
      for (int i = 0; i < f->nsub; ++i)
	if (!(f->sub[i].flags & RF_VOID) && !f->sub[i].nsub)
	  CK (fd->stype.size >= f->sub[i].size || f->sub[i].bits, "anon-size", "size %ld is less than %ld of '%s'", (long)fd->stype.size, f->sub[i].size, f->sub[i].name);
      CK (fd->stype.size == fd->stype.tdp->size, "anon-size", "size %ld differs from %ld of its type", (long)fd->stype.size, (long)fd->stype.tdp->size);
      return;
    }
  if (!(f->flags & RF_NO_SIZE))
    CK (fd->stype.size == f->size, "field-size", "size %ld instead of %ld", (long)fd->stype.size, f->size);
  if (f->mr_type == MR_TYPE_BITFIELD)
    {
      long first;
      int width;
      bool cont;
      bits_of (f, t->size, &first, &width, &cont);
      CK (fd->bitfield_param.width == width, "bits-width", "width %d instead of %d", fd->bitfield_param.width, width);
      CK (8 * (base + (long)fd->offset) + fd->bitfield_param.shift == first, "bits-place", "offset %ld and shift %d, the field begins at bit %ld", base + (long)fd->offset, fd->bitfield_param.shift, first);
      CK (width == f->bits && cont, "bits-oracle", "width %d of declared %d", width, f->bits);
    }
  else if (!(f->flags & RF_NO_OFFSET))
    CK (base + (long)fd->offset == f->offset, "field-offset", "offset %ld instead of %ld", base + (long)fd->offset, f->offset);
  if (f->nd)
    {
      int n = fd->stype.dim.size / sizeof (fd->stype.dim.dim[0]);
      CK (n == f->nd, "dims", "%d dimensions instead of %d", n, f->nd);
      for (int i = 0; i < n; ++i)
	CK (fd->stype.dim.dim[i] == f->dim[i], "dim", "dimension %d is %u instead of %u", i, fd->stype.dim.dim[i], f->dim[i]);
    }
  if (f->tdp && f->tdp[0])
    {
      CK (fd->stype.tdp, "field-descriptor", "no descriptor of '%s'", f->tdp);
      CK (!strcmp (fd->stype.tdp->type.str, f->tdp), "field-descriptor", "descriptor of '%s' instead of '%s'", fd->stype.tdp->type.str, f->tdp);
      CK (mr_get_td_by_name ((char *)f->tdp) == fd->stype.tdp, "field-descriptor", "descriptor of '%s' is not the one that is found by the name", f->tdp);
    }
  if (f->tdp_size && fd->stype.tdp)
    CK (fd->stype.tdp->size == f->tdp_size, "field-descriptor-size", "descriptor '%s' has size %ld instead of %ld", fd->stype.tdp->type.str, (long)fd->stype.tdp->size, f->tdp_size);
  if (f->args)
    check_args (f->args, f->nargs, &fd->func_param);
  if (f->res_type)
    {
      CK (fd->res_type && !strcmp (fd->res_type, f->res_type), "res-type", "resource of type '%s' instead of '%s'", fd->res_type ?: "(null)", f->res_type);
      if (f->res_str)
	CK (fd->res.ptr && !strcmp (fd->res.ptr, f->res_str), "res", "resource is '%s' instead of '%s'", (char *)fd->res.ptr, f->res_str);
      else
	CK (fd->res.ptr == f->res, "res", "resource is another object");
      if (f->res_size >= 0)
	CK (fd->MR_SIZE == f->res_size, "res-size", "size of the resource is %ld instead of %ld", (long)fd->MR_SIZE, f->res_size);
    }
}

static void
check_fields (const rt_t * t, mr_td_t * td, const rf_t * f, int n, long base, bool is_struct, unsigned * work)
{
  size_t len = strlen (path);
  int m = nfields (td);
  CK (m == n, "fields-count", "%d fields instead of %d", m, n);
  bool used[m + 1];
  memset (used, 0, sizeof (used));
  for (int i = 0; i < n; ++i)
    {
      /* every field has exactly one descriptor: by name, or by order for unnamed ones */
      int at = -1;
      for (int j = 0; j < m; ++j)
	{
	  mr_fd_t * fd = td->param.struct_param.fields[j];
	  CK (fd, "fields-null", "descriptor %d is absent", j);
	  if (used[j])
	    continue;
	  if (f[i].name[0] ? fd->name.str && !strcmp (fd->name.str, f[i].name) : fd->stype.mr_type == MR_TYPE_ANON_UNION)
	    {
	      at = j;
	      break;
	    }
	}
      snprintf (path + len, sizeof (path) - len, ".%s", f[i].name[0] ? f[i].name : "(anonymous)");
      CK (at >= 0, "field-missing", "there is no descriptor");
      used[at] = true;
      mr_fd_t * fd = td->param.struct_param.fields[at];
      check_field (t, td, &f[i], fd, base, work);
      snprintf (path + len, sizeof (path) - len, ".%s", f[i].name[0] ? f[i].name : "(anonymous)");
      if (f[i].name[0])
	{
	  CK (mr_get_fd_by_name (td, (char *)f[i].name) == fd, "field-lookup", "is not found by its name");
	  mr_fd_t * any = mr_get_any_fd_by_name (f[i].name, NULL);
	  CK (any && !strcmp (any->name.str, f[i].name), "any-field-lookup", "no field is found by this name");
	  if (fd->stype.tdp)
	    {
	      any = mr_get_any_fd_by_name (f[i].name, fd->stype.tdp);
	      CK (any && !strcmp (any->name.str, f[i].name) && any->stype.tdp == fd->stype.tdp, "any-field-type-lookup", "no field is found by this name and type '%s'", fd->stype.tdp->type.str);
	    }
	}
      path[len] = 0;
    }
  /* fields are in order of their places in memory; members of unions - in order of declaration */
  if (is_struct)
    {
      long last = -1;
      for (int j = 0; j < m; ++j)
	{
	  mr_fd_t * fd = td->param.struct_param.fields[j];
	  const rf_t * rf = NULL;
	  int anon = 0;
	  for (int k = 0; k < j; ++k)
	    anon += td->param.struct_param.fields[k]->stype.mr_type == MR_TYPE_ANON_UNION;
	  for (int i = 0; i < n && !rf; ++i)
	    if (f[i].name[0] ? !strcmp (f[i].name, fd->name.str) : (fd->stype.mr_type == MR_TYPE_ANON_UNION && 0 == anon--))
	      rf = &f[i];
	  if (!rf)
	    continue;
	  long p = place_of (rf, t->size);
	  if (p < 0)
	    continue;
	  CK (p >= last, "fields-order", "field '%s' at bit %ld follows one at bit %ld", fd->name.str, p, last);
	  last = p;
	}
    }
  else
    for (int i = 0; i < n; ++i)
      if (f[i].name[0])
	CK (!strcmp (td->param.struct_param.fields[i]->name.str, f[i].name), "branches-order", "branch %d is '%s' instead of '%s'", i, td->param.struct_param.fields[i]->name.str, f[i].name);
}

static void
check_enum (const rt_t * t, mr_td_t * td, unsigned * work)
{
  int n = td->param.enum_param.enums_size / sizeof (td->param.enum_param.enums[0]);
  CK (n == t->ne, "enum-count", "%d values instead of %d", n, t->ne);
  bool used[n + 1];
  memset (used, 0, sizeof (used));
  for (int i = 0; i < n; ++i)
    {
      ++*work;
      int at = -1;
      for (int j = 0; j < n; ++j)
	if (!used[j] && !strcmp (td->param.enum_param.enums[j]->name.str, t->e[i].name))
	  at = j;
      CK (at >= 0, "enum-missing", "there is no descriptor of '%s'", t->e[i].name);
      used[at] = true;
      mr_ed_t * ed = td->param.enum_param.enums[at];
      CK (ed->value._unsigned == t->e[i].value, "enum-value", "'%s' has value %lld instead of %lld", t->e[i].name, (long long)ed->value._unsigned, (long long)t->e[i].value);
      CK (ed->meta && !strcmp (ed->meta, t->e[i].meta), "enum-meta", "'%s' has text '%s' instead of '%s'", t->e[i].name, ed->meta ?: "(null)", t->e[i].meta);
      mr_ed_t * g = mr_get_enum_by_name ((char *)t->e[i].name);
      CK (g && !strcmp (g->name.str, t->e[i].name) && g->value._unsigned == t->e[i].value, "enum-by-name", "'%s' is found by its name as %lld", t->e[i].name, g ? (long long)g->value._unsigned : 0LL);
      g = mr_get_enum_by_value (td, t->e[i].value);
      CK (g && g->value._unsigned == t->e[i].value, "enum-by-value", "value %lld of '%s' is found as '%s'", (long long)t->e[i].value, t->e[i].name, g ? g->name.str : "(null)");
      bool own = false;
      for (int j = 0; j < n; ++j)
	own |= td->param.enum_param.enums[j] == g;
      CK (own, "enum-by-value", "value %lld of '%s' is found in another type", (long long)t->e[i].value, t->e[i].name);
      /* object of this value in memory that is filled with something else */
      for (int fill = 0; fill < 256; fill += 255)
	{
	  uint8_t b[32];
	  memset (b, fill, sizeof (b));
	  t->e[i].put (b);
	  uint64_t v = mr_get_enum_value (td, b);
	  CK (v == t->e[i].value, "enum-get", "an object of value '%s' (%lld) is read as %lld", t->e[i].name, (long long)t->e[i].value, (long long)v);
	}
    }
  for (int j = 1; j < n; ++j)
    CK (td->param.enum_param.enums[j - 1]->value._unsigned <= td->param.enum_param.enums[j]->value._unsigned, "enum-order", "values are not sorted");
  /* every value is a power of two or zero, and there are two of them at least */
  int nz = 0;
  bool mask = true;
  uint64_t keep = t->eff_size == 8 ? ~0ULL : (1ULL << (8 * t->eff_size)) - 1;
  for (int i = 0; i < t->ne; ++i)
    {
      uint64_t v = t->e[i].value & keep;
      nz += v != 0;
      mask &= !(v & (v - 1));
    }
  mask &= nz >= 2;
  CK (td->param.enum_param.is_bitmask == mask, "enum-bitmask", "flag of a bit mask is %d", td->param.enum_param.is_bitmask);
  CK (td->param.enum_param.size_effective == t->eff_size, "enum-size", "effective size %d instead of %d", td->param.enum_param.size_effective, t->eff_size);
  bool sgn = (td->param.enum_param.mr_type_effective == MR_TYPE_INT8) || (td->param.enum_param.mr_type_effective == MR_TYPE_INT16) || (td->param.enum_param.mr_type_effective == MR_TYPE_INT32) || (td->param.enum_param.mr_type_effective == MR_TYPE_INT64);
  CK (sgn == t->is_signed, "enum-signed", "effective type %d, the type is %ssigned", td->param.enum_param.mr_type_effective, t->is_signed ? "" : "un");
}

static void
check_type (const rt_t * t)
{
  unsigned work = 0;
  snprintf (path, sizeof (path), "%s", t->name);
  pbt_note ("type %s, %d fields, %d values\n", t->name, t->nf, t->ne);
  mr_td_t * td = mr_get_td_by_name ((char *)t->name);
  CK (td, "type-lookup", "type is not found by its name");
  CK (!strcmp (td->type.str, t->name), "type-name", "type is found as '%s'", td->type.str);
  CK (td->mr_type == t->mr_type, "type-kind", "type %d instead of %d", td->mr_type, t->mr_type);
  CK (td->size == t->size, "type-size", "size %ld instead of %ld", (long)td->size, t->size);
  CK (td->meta && !strcmp (td->meta, t->meta), "type-meta", "text '%s' instead of '%s'", td->meta ?: "(null)", t->meta);
  if (t->mr_type == MR_TYPE_STRUCT || t->mr_type == MR_TYPE_UNION)
    check_fields (t, td, t->f, t->nf, 0, t->mr_type == MR_TYPE_STRUCT, &work);
  if (t->mr_type == MR_TYPE_ENUM)
    check_enum (t, td, &work);
  if (t->args)
    check_args (t->args, t->nargs, &td->param.func_param);
  /* universal pointer knows this type */
  snprintf (path, sizeof (path), "mr_ptr_t.%s", t->name);
  mr_td_t * up = mr_get_td_by_name ("mr_ptr_t");
  CK (up, "mr_ptr_t", "mr_ptr_t is not found");
  mr_fd_t * fd = mr_get_fd_by_name (up, (char *)t->name);
  CK (fd, "ptr-lookup", "is not a branch of mr_ptr_t");
  CK (fd->stype.mr_type == MR_TYPE_POINTER && fd->stype.mr_type_aux == t->mr_type && fd->stype.tdp == td && fd->offset == 0, "ptr-branch", "branch of type %d, auxiliary type %d, type '%s'", fd->stype.mr_type, fd->stype.mr_type_aux, fd->stype.tdp ? fd->stype.tdp->type.str : "");
  pbt_label ("kind %d", t->mr_type);
  pbt_count ("members", work);
  if (work >= 3)
    pbt_nontrivial (pbt_hash (1, t->name, strlen (t->name)));
}

static void
p_types (void)
{
  prepare ();
  check_type (types[pbt_draw (ntypes)]);
}

static const char *
mutate (char * s, const char * from)
{
  strcpy (s, from);
  int n = strlen (s);
  int k = 1 + pbt_draw (2);
  while (k--)
    switch (pbt_draw (7))
      {
      case 0: if (n) s[--n] = 0; break;
      case 1: s[n++] = "_a0t zX"[pbt_draw (7)]; s[n] = 0; break;
      case 2: if (n) memmove (s, s + 1, n--); break;
      case 3: if (n) s[pbt_draw (n)] ^= 1; break;
      case 4: if (n > 1) { int i = pbt_draw (n - 1); char c = s[i]; s[i] = s[i + 1]; s[i + 1] = c; } break;
      case 5: if (n) { int i = pbt_draw (n); s[i] ^= ((s[i] | 32) >= 'a' && (s[i] | 32) <= 'z') ? 32 : 0; } break;
      case 6: if (n) { int i = pbt_draw (n); memmove (s + i, s + i + 1, n - i); --n; } break;
      }
  n = strlen (s);
  return (s);
}

static const char *
pick_name (char * s)
{
  const names_t * sets[] = { &type_names, &field_names, &enum_names, &foreign_types, &foreign_fields, &foreign_enums };
  const names_t * t = PBT_PICK (sets);
  if (!t->n)
    t = &type_names;
  const char * x = t->s[pbt_draw (t->n)];
  if (strlen (x) > 400)
    x = "x";
  if (pbt_chance (1, 2))
    return (strcpy (s, x));
  return (mutate (s, x));
}

static const rf_t *
find_rf (const rf_t * f, int n, const char * name)
{
  for (int i = 0; i < n; ++i)
    if (!strcmp (f[i].name, name))
      return (&f[i]);
  return (NULL);
}

/* sequences of look-ups: what is there is found, nothing else is */
static void
p_lookup (void)
{
  prepare ();
  char s[512];
  uint64_t h = 7;
  int n = 1 + pbt_draw (12), hits = 0, misses = 0;
  for (int i = 0; i < n; ++i)
    {
      int what = pbt_draw (5);
      const char * name = pick_name (s);
      h = pbt_mix (h, pbt_hash (what, name, strlen (name)));
      snprintf (path, sizeof (path), "look-up %d of '%s'", what, name);
      pbt_note ("%s\n", path);
      bool want = false, got = false, maybe = false;
      switch (what)
	{
	case 0:
	  {
	    mr_td_t * td = mr_get_td_by_name ((char *)name);
	    want = names_have (&type_names, name);
	    maybe = names_have (&foreign_types, name);
	    got = td != NULL;
	    if (td)
	      CK (!strcmp (td->type.str, name), "lookup-type", "type '%s' is found", td->type.str);
	    break;
	  }
	case 1:
	  {
	    const rt_t * t = types[pbt_draw (ntypes)];
	    h = pbt_mix (h, pbt_hash (1, t->name, strlen (t->name)));
	    if (t->nf && pbt_chance (1, 3))
	      {
		name = t->f[pbt_draw (t->nf)].name;
		if (!name[0])
		  name = "x";
	      }
	    mr_td_t * td = mr_get_td_by_name ((char *)t->name);
	    CK (td, "type-lookup", "type '%s' is not found by its name", t->name);
	    mr_fd_t * fd = mr_get_fd_by_name (td, (char *)name);
	    want = name[0] && find_rf (t->f, t->nf, name);
	    got = fd != NULL;
	    if (fd && fd->stype.mr_type == MR_TYPE_ANON_UNION)
	      maybe = true; /* name that is given by the library */
	    if (fd)
	      CK (!strcmp (fd->name.str, name), "lookup-field", "field '%s' is found in '%s'", fd->name.str, t->name);
	    snprintf (path, sizeof (path), "look-up of field '%s' in '%s'", name, t->name);
	    break;
	  }
	case 2:
	  {
	    mr_ed_t * ed = mr_get_enum_by_name ((char *)name);
	    want = names_have (&enum_names, name);
	    maybe = names_have (&foreign_enums, name);
	    got = ed != NULL;
	    if (ed)
	      CK (!strcmp (ed->name.str, name), "lookup-enum", "value '%s' is found", ed->name.str);
	    break;
	  }
	case 3:
	  {
	    const rt_t * t = types[pbt_draw (ntypes)];
	    for (int k = 0; k < 40 && !t->ne; ++k)
	      t = types[pbt_draw (ntypes)];
	    if (!t->ne)
	      continue;
	    mr_td_t * td = mr_get_td_by_name ((char *)t->name);
	    CK (td, "type-lookup", "type '%s' is not found by its name", t->name);
	    uint64_t v = t->e[pbt_draw (t->ne)].value;
	    switch (pbt_draw (6))
	      {
	      case 0: break;
	      case 1: v += pbt_range (-3, 3); break;
	      case 2: v ^= 1ULL << pbt_draw (64); break;
	      case 3: v = pbt_draw (0); break;
	      case 4: v = -v; break;
	      case 5: v = (t->eff_size < 8) ? v & ((1ULL << (8 * t->eff_size)) - 1) : v; break;
	      }
	    h = pbt_mix (h, v);
	    mr_ed_t * ed = mr_get_enum_by_value (td, v);
	    for (int k = 0; k < t->ne; ++k)
	      want |= t->e[k].value == v;
	    got = ed != NULL;
	    snprintf (path, sizeof (path), "look-up of value %lld in '%s'", (long long)v, t->name);
	    if (ed)
	      CK (ed->value._unsigned == v, "lookup-value", "value %lld is found", (long long)ed->value._unsigned);
	    break;
	  }
	case 4:
	  {
	    mr_fd_t * fd = mr_get_any_fd_by_name (name, NULL);
	    want = names_have (&field_names, name);
	    maybe = names_have (&foreign_fields, name) || names_have (&type_names, name) || names_have (&foreign_types, name);
	    got = fd != NULL;
	    if (fd)
	      CK (!strcmp (fd->name.str, name), "lookup-any-field", "field '%s' is found", fd->name.str);
	    /* with a type: of this type, or nothing */
	    const rt_t * t = types[pbt_draw (ntypes)];
	    mr_td_t * td = mr_get_td_by_name ((char *)t->name);
	    if (td)
	      {
		mr_fd_t * of = mr_get_any_fd_by_name (name, td);
		if (of)
		  CK (!strcmp (of->name.str, name) && of->stype.tdp == td, "lookup-any-field-type", "field '%s' of type '%s' is found for type '%s'", of->name.str, of->stype.tdp ? of->stype.tdp->type.str : "", t->name);
		CK (!of || fd, "lookup-any-field-type", "there is a field of this name with type '%s', but none with any type", t->name);
	      }
	    break;
	  }
	}
      if (want)
	CK (got, "lookup-missing", "it is declared and is not found");
      else if (!maybe)
	CK (!got, "lookup-extra", "it is not declared and something is found");
      hits += got;
      misses += !got;
    }
  pbt_count ("found", hits);
  pbt_count ("not found", misses);
  if (hits && misses)
    pbt_nontrivial (h);
}

/* basic types of C under the names they are known by */
typedef struct basic_t { char * name; long size; int mr_type; } basic_t;
#define INTB(T) { #T, sizeof (T), ((T)-1 < 0) ? (sizeof (T) == 1 ? MR_TYPE_INT8 : sizeof (T) == 2 ? MR_TYPE_INT16 : sizeof (T) == 4 ? MR_TYPE_INT32 : sizeof (T) == 8 ? MR_TYPE_INT64 : MR_TYPE_INT128) \
    : (sizeof (T) == 1 ? MR_TYPE_UINT8 : sizeof (T) == 2 ? MR_TYPE_UINT16 : sizeof (T) == 4 ? MR_TYPE_UINT32 : sizeof (T) == 8 ? MR_TYPE_UINT64 : MR_TYPE_UINT128) }
static const basic_t basics[] = {
  INTB (int8_t), INTB (uint8_t), INTB (int16_t), INTB (uint16_t), INTB (int32_t), INTB (uint32_t), INTB (int64_t), INTB (uint64_t), INTB (mr_int128_t), INTB (mr_uint128_t),
  INTB (mr_intmax_t), INTB (mr_uintmax_t), INTB (size_t), INTB (ssize_t), INTB (uintptr_t), INTB (intptr_t), INTB (long_int_t), INTB (long_long_int_t),
  INTB (signed char), INTB (unsigned char), INTB (short), INTB (unsigned short), INTB (int), INTB (unsigned int), INTB (long), INTB (unsigned long), INTB (long long), INTB (unsigned long long),
  { "char", 1, MR_TYPE_CHAR }, { "bool", sizeof (_Bool), MR_TYPE_BOOL }, { "_Bool", sizeof (_Bool), MR_TYPE_BOOL }, { "string_t", sizeof (char *), MR_TYPE_STRING }, { "char *", sizeof (char *), MR_TYPE_STRING }, { "char*", sizeof (char *), MR_TYPE_STRING },
  { "float", sizeof (float), MR_TYPE_FLOAT }, { "double", sizeof (double), MR_TYPE_DOUBLE }, { "long double", sizeof (long double), MR_TYPE_LONG_DOUBLE }, { "long_double_t", sizeof (long double), MR_TYPE_LONG_DOUBLE },
  { "complex_float_t", sizeof (complex float), MR_TYPE_COMPLEX_FLOAT }, { "complex_double_t", sizeof (complex double), MR_TYPE_COMPLEX_DOUBLE }, { "complex_long_double_t", sizeof (complex long double), MR_TYPE_COMPLEX_LONG_DOUBLE },
};

static void
p_basics (void)
{
  prepare ();
  const basic_t * b = &PBT_PICK (basics);
  snprintf (path, sizeof (path), "%s", b->name);
  pbt_note ("basic type %s\n", b->name);
  mr_td_t * td = mr_get_td_by_name (b->name);
  CK (td, "basic-lookup", "type is not found");
  CK (td->mr_type == b->mr_type, "basic-kind", "type %d instead of %d", td->mr_type, b->mr_type);
  CK (td->size == b->size, "basic-size", "size %ld instead of %ld", (long)td->size, b->size);
  mr_fd_t * fd = mr_get_fd_by_name (mr_get_td_by_name ("mr_ptr_t"), b->name);
  CK (fd, "basic-ptr", "is not a branch of mr_ptr_t");
  if (strcmp (b->name, "string_t") && strcmp (b->name, "char *") && strcmp (b->name, "char*"))
    CK (fd->stype.mr_type == MR_TYPE_POINTER && fd->stype.mr_type_aux == b->mr_type, "basic-ptr", "branch of mr_ptr_t has type %d, auxiliary type %d", fd->stype.mr_type, fd->stype.mr_type_aux);
  pbt_nontrivial (pbt_hash (3, b->name, strlen (b->name)));
}

static void
p16 (void)
{
  switch (pbt_draw (20))
    {
    case 0: p_basics (); break;
    case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: p_lookup (); break;
    default: p_types (); break;
    }
}

static const pbt_prop_t props[] = { { "P16", p16 }, { NULL, NULL } };

int
main (int argc, char * argv[])
{
  return (pbt_main (argc, argv, props));
}
