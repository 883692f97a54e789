#ifndef GRAPH_H
#define GRAPH_H
#include "common.h"
void gen_on (const mops_t * o, mgraph_t * g, gopt_t * opt);
void gen_case (const mops_t ** o, mgraph_t * g, gopt_t * opt);
bool inside_out (const mgraph_t * g);
void skip_prefix_overlap (const mgraph_t * g, bool inside_out);
void free_loaded (const mops_t * o, void * d);
const char * fsig (const char * sig, mfmt_t f, const mops_t * o);
gopt_t xdr_opt (void);
void p_big_xdr (void), p_big_text (void), p_big_copy (void), p_known_xml2_depth (void), p_known_xdr_depth (void);
void p_union (void), p_copy (void), p_cmp (void), p_xml (void), p_formats (void), p_pure (void), p_arrays (void), p_oom (void);
#endif
