/* Demonstrations of known findings: each fails as long as the finding is there (see known_findings.json). */
#include "common.h"
#include <metaresc.h>

TYPEDEF_STRUCT (kf_part_t, (int, x), (struct kf_outer_t *, owner))
TYPEDEF_STRUCT (kf_outer_t, (int, y), (kf_part_t, part))
TYPEDEF_STRUCT (kf_inside_t, (kf_part_t *, first))
TYPEDEF_STRUCT (kf_two_t, (int *, a, , , { "na" }, "string"), (ssize_t, na), (int *, b, , , { "nb" }, "string"), (ssize_t, nb))
TYPEDEF_STRUCT (kf_void_t, (int *, one), (int *, arr, , , { "n" }, "string"), VOID (ssize_t, n))

/* a part is addressed before the object that encloses it, and the object is reachable from the part only */
void
p_known_inside_out (void)
{
  case_begin ();
  kf_outer_t outer = { .y = 1, .part = { .x = 2, .owner = &outer } };
  kf_inside_t in = { .first = &outer.part }, out;
  mr_rarray_t ra = MR_SAVE_XDR_RA (kf_inside_t, &in);
  PBT_CHECK (MR_SUCCESS == MR_LOAD_XDR_RA (kf_inside_t, &ra, &out), "load", "load failed");
  PBT_CHECK (out.first == &out.first->owner->part, "identity", "embedded part lost its identity");
}

/* a shorter array is saved first, a longer one starts in its middle and ends after it */
void
p_known_prefix_overlap (void)
{
  case_begin ();
  int x[4] = { 1, 2, 3, 4 };
  kf_two_t in = { .a = x, .na = 3 * sizeof (x[0]), .b = x + 2, .nb = 2 * sizeof (x[0]) }, out;
  char * s = MR_SAVE_JSON (kf_two_t, &in);
  PBT_CHECK (s && MR_SUCCESS == MR_LOAD_JSON (kf_two_t, s, &out), "load", "load failed");
  PBT_CHECK (out.na == in.na, "size", "size of the shorter array is %zd instead of %zd", (ssize_t)out.na, (ssize_t)in.na);
}

/* the size of a shared array is not serializable, and the document has the elements at the other place */
void
p_known_void_size (void)
{
  case_begin ();
  int x = 7;
  kf_void_t in = { .one = &x, .arr = &x, .n = sizeof (x) }, out;
  mr_rarray_t ra = MR_SAVE_XDR_RA (kf_void_t, &in);
  PBT_CHECK (MR_SUCCESS == MR_LOAD_XDR_RA (kf_void_t, &ra, &out), "load", "load failed");
  PBT_CHECK (out.n == in.n, "size", "size of the array is %zd instead of %zd", (ssize_t)out.n, (ssize_t)in.n);
}

TYPEDEF_STRUCT (kf_str_t, (string_t, s))

/* README: internal XML implementation matches that of libxml2 */
void
p_known_xml1_spelling (void)
{
  case_begin ();
  kf_str_t in = { .s = "a\"b" };
  char * x1 = MR_SAVE_XML1 (kf_str_t, &in), * x2 = MR_SAVE_XML2 (kf_str_t, &in);
  PBT_CHECK (x1 && x2, "save", "save failed");
  PBT_CHECK (!strcmp (x1, x2), "spelling", "XML1 writes %s, XML2 writes %s", x1, x2);
}

/* bytes above 127 are written as references of code points */
void
p_known_xml2_bytes (void)
{
  case_begin ();
  kf_str_t in = { .s = "\xc3\xa9" }, out = { NULL };
  char * x = MR_SAVE_XML2 (kf_str_t, &in);
  PBT_CHECK (x && MR_SUCCESS == MR_LOAD_XML2 (kf_str_t, x, &out), "load", "load failed");
  PBT_CHECK (out.s && !strcmp (in.s, out.s), "bytes", "string changed");
}

/* a string that is not UTF-8 can not be saved to YAML */
void
p_known_yaml_bytes (void)
{
  case_begin ();
  kf_str_t in = { .s = "\xe9" };
  char * x = MR_SAVE_YAML (kf_str_t, &in);
  PBT_CHECK (x, "save", "save failed");
}
