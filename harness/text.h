#ifndef TEXT_H
#define TEXT_H
#include "common.h"
void p_layout (void), p_expr (void), p_literals (void), p_any_text (void), p_any_xdr (void), p_wellformed (void), p_cinit (void);
void p_known_yaml_aliases (void), p_known_xml_control (void), p_known_cinit_anonymous (void), p_known_cinit_long_double (void);
void free_loaded_text (const mops_t * o, void * d);
#endif
