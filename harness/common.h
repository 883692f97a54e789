/* Shared pieces of property programs. */
#ifndef COMMON_H
#define COMMON_H
#include "pbt.h"
#include "model.h"
#include <metaresc.h>
#include <stdlib.h>
#include <string.h>

extern const mops_t * const core_roots[];
extern const mt_t * const core_types[];
/* all types of the program; a random schema appears with its own roots */
const mops_t * pick_root (void);
const mops_t * root_by_name (const char * name);
void case_begin (void);                 /* resets tracked memory and library's settings */
gopt_t pick_opt (void);                 /* options for text formats and XDR of default kind */
void * obj_alloc (const mt_t * mt, int fill); /* destination object, exact size */
void check_no_leak (const char * sig, const char * after);
mbuf_t save_checked (const mops_t * o, mfmt_t f, mgraph_t * g); /* fails the case when saving fails or alters the source */
void buf_free (mbuf_t * b);
mfmt_t pick_text (void);
void note_buf (const char * title, mfmt_t f, const mbuf_t * b);
extern const mops_t * const * const root_sets[];
#endif
