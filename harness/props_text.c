/* Properties of texts. */
#include "text.h"

void
free_loaded_text (const mops_t * o, void * d)
{
  PBT_CHECK (o->free (d), "free-failed", "releasing of a loaded object failed");
  free (d);
}

static const pbt_prop_t props[] = {
  { "P15-expressions", p_expr },
  { "P15-literals", p_literals },
  { "P24", p_layout },
  { "P10", p_any_text },
  { "P11", p_any_xdr },
  { "P20", p_wellformed },
  { "P19", p_cinit },
  { "known-yaml-aliases", p_known_yaml_aliases },
  { "known-xml-control", p_known_xml_control },
  { "known-cinit-anonymous", p_known_cinit_anonymous },
  { "known-cinit-long-double", p_known_cinit_long_double },
  { NULL, NULL },
};

int
main (int argc, char * argv[])
{
  return (pbt_main (argc, argv, props));
}
