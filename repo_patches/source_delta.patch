From 27548087f35008159fe177a4ad0aa40f253747f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 01/46] fix: save multi-dimensional arrays with unequal
 dimensions element for element

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index cc0d974..c2f6190 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1216,7 +1216,7 @@ mr_save_array (mr_save_data_t * mr_save_data)
   else
     {
       fd_.stype.dim.size -= sizeof (fd_.stype.dim.dim[0]);
-      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[0], fd_.stype.dim.size);
+      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[1], fd_.stype.dim.size);
     }
 
   for (i = 0; i < count; )
-- 
2.43.0


From 29fbec64b459964d31647f89fa020d4716a677b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 02/46] fix: do not reallocate fixed size character arrays
 behind a pointer

---
 src/mr_load.c | 3 ++-
 src/xdr.c     | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 38c9a22..1103a72 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -480,7 +480,8 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
   typeof (str_len) max_size = ptrdes->fdp ? ptrdes->fdp->stype.size : 0;
   mr_status_t status = MR_SUCCESS;
 
-  if ((str_len >= max_size) && (ptrdes->parent != MR_NULL_IDX))
+  /* types with zero size used for dynamics strings allocation */
+  if ((0 == max_size) && (ptrdes->parent != MR_NULL_IDX))
     if (MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type)
       {
 	void * data = MR_REALLOC (ptrdes->data.ptr, str_len + 1);
diff --git a/src/xdr.c b/src/xdr.c
index 389875d..12203bb 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -540,8 +540,10 @@ static mr_status_t
 xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t parent = ptrs->ra[idx].parent;
-  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type));
   mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
+  /* types with zero size used for dynamics strings allocation */
+  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type) &&
+			      (0 == (ptrdes->fdp ? ptrdes->fdp->stype.size : 0)));
   typeof (ptrdes->MR_SIZE) str_len;
 
   if (XDR_ENCODE == xdrs->x_op)
-- 
2.43.0


From 980ed7f1687792d834e46e9cbd56e805ff4e43fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 03/46] fix: do not lose nodes of overlapping pointers and of
 arrays that are reached through their own elements

---
 src/metaresc.c |  6 +++++-
 src/mr_save.c  | 27 +++++++++++++++++----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index 15b1fe2..024d37a 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -636,7 +636,11 @@ mr_last_child_for_parent (mr_ra_ptrdes_t * ptrs, mr_idx_t parent)
     last_child = ra[last_child].parent;
 
   if (MR_NULL_IDX == last_child)
-    for (last_child = ra[parent].first_child; ra[last_child].next != MR_NULL_IDX; last_child = ra[last_child].next);
+    last_child = ra[parent].first_child;
+
+  /* last added node might be beneath one of middle children */
+  while (ra[last_child].next != MR_NULL_IDX)
+    last_child = ra[last_child].next;
 
   ptrs->last_child = last_child;
   return (last_child);
diff --git a/src/mr_save.c b/src/mr_save.c
index c2f6190..35ff697 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -629,6 +629,7 @@ move_nodes_to_parent (mr_ra_ptrdes_t * ptrs, mr_idx_t ref_parent, mr_idx_t idx)
       ra[ref_idx].flags |= ra[idx].flags & MR_IS_UNNAMED;
 
       ra[ref_idx].MR_SIZE = ra[idx].MR_SIZE - count * element_size;
+      ra[ref_idx].next = MR_NULL_IDX;
       mr_add_child (ptrs, parent, ref_idx);
       ref_idx = next;
     }
@@ -713,15 +714,21 @@ resolve_pointer (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
       /* otherwise we can handle only match with another resizable pointer */
       if (MR_TYPE_POINTER == ra[ref_parent].mr_type)
 	{
-	  *resolved = true;
 	  if (is_first_child (ra, ref_idx))
-	    /*
-	      previously saved resizable pointer was pointing to the same address, but was shorter.
-	      we need to reassign nodes to bigger resizable pointer and make a references for shorter one.
-	    */
-	    return (move_nodes_to_parent (ptrs, ref_parent, idx));
+	    {
+	      /* nodes can't be moved beneath themself */
+	      if (ref_is_parent (ra, parent, ref_parent))
+		return (0);
+	      *resolved = true;
+	      /*
+		previously saved resizable pointer was pointing to the same address, but was shorter.
+		we need to reassign nodes to bigger resizable pointer and make a references for shorter one.
+	      */
+	      return (move_nodes_to_parent (ptrs, ref_parent, idx));
+	    }
 	  else
 	    {
+	      *resolved = true;
 	      typeof (ra[idx].MR_SIZE) size_delta = ra[idx].MR_SIZE - ra[ref_idx].MR_SIZE;
 	      mr_idx_t total_required = ra[idx].MR_SIZE / element_size;
 	      /*
@@ -742,8 +749,8 @@ resolve_pointer (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
     }
   else
     {
-      /* we can handle only match with another resizable pointer */
-      if (MR_TYPE_POINTER == ra[ref_parent].mr_type)
+      /* we can handle only match with another resizable pointer that doesn't contain current one */
+      if ((MR_TYPE_POINTER == ra[ref_parent].mr_type) && is_first_child (ra, ref_idx) && !ref_is_parent (ra, parent, ref_parent))
 	{
 	  /*
 	    in the middle of saving of resizable pointer we matched another resizable pointer
@@ -804,7 +811,7 @@ resolve_matched (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
 	  case MR_TYPE_POINTER:
 	    {
 	      mr_idx_t nodes_added = resolve_pointer (mr_save_data, ref_idx, resolved);
-	      if (resolved)
+	      if (*resolved)
 		return (nodes_added);
 	      break;
 	    }
@@ -815,7 +822,7 @@ resolve_matched (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
 		   || ((MR_TYPE_POINTER == ra[ref_parent].mr_type)
 		       && is_first_child (ra, ref_idx)
 		       && (ra[idx].MR_SIZE >= ra[ref_idx].MR_SIZE)))
-		  && !ref_is_parent (ra, parent, ref_idx))
+		  && !ref_is_parent (ra, parent, ref_parent))
 		{
 		  *resolved = true;
 		  return (move_nodes_to_parent (ptrs, ref_parent, idx));
-- 
2.43.0


From 2c83db8adfb279418a8fcc57488f65657e5d4201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 04/46] fix: restore non serializable size of an array limited
 by it

---
 src/mr_load.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 1103a72..8c4d1c0 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -623,7 +623,8 @@ mr_load_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   char * data = ptrs->ra[idx].data.ptr;
   mr_fd_t fd_ = *ptrs->ra[idx].fdp;
   mr_status_t status = MR_SUCCESS;
-  mr_idx_t i, count = fd_.stype.dim.dim[0];
+  mr_idx_t i, node, count = fd_.stype.dim.dim[0];
+  bool is_limited = !fd_.non_persistent && (fd_.stype.dim.size == sizeof (fd_.stype.dim.dim[0]));
 
   if (0 == count)
     {
@@ -659,7 +660,7 @@ mr_load_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 
   /* loop on subnodes */
   i = 0;
-  for (idx = ptrs->ra[idx].first_child; idx != MR_NULL_IDX; idx = ptrs->ra[idx].next)
+  for (node = ptrs->ra[idx].first_child; node != MR_NULL_IDX; node = ptrs->ra[node].next)
     {
       /* check if array index is in range */
       if (i >= count)
@@ -668,10 +669,22 @@ mr_load_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  return (MR_FAILURE);
 	}
       /* load recursively */
-      status = mr_load (&data[i++ * fd_.stype.size], &fd_, idx, ptrs);
+      status = mr_load (&data[i++ * fd_.stype.size], &fd_, node, ptrs);
       if (status != MR_SUCCESS)
 	break;
     }
+
+  /* size field of a single dimensional array is a subject for load on its own, unless it is not serializable */
+  if ((MR_SUCCESS == status) && is_limited)
+    {
+      mr_ptrdes_t size_field;
+      mr_pointer_get_size_ptrdes (&size_field, idx, ptrs);
+      if ((size_field.data.ptr != NULL) && (MR_TYPE_VOID == size_field.mr_type))
+	{
+	  ptrs->ra[idx].MR_SIZE = i * fd_.stype.size;
+	  mr_pointer_set_size (idx, ptrs);
+	}
+    }
   return (status);
 }
 
-- 
2.43.0


From 9663a26d4e2d404c7ce28b9f401fc5139f6f9fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 05/46] fix: print bit fields of type char

---
 src/metaresc.c     | 2 ++
 src/mr_stringify.c | 7 +++++++
 src/scm_save.c     | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/src/metaresc.c b/src/metaresc.c
index 024d37a..2b3da7b 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -520,6 +520,8 @@ mr_save_bitfield_value (mr_ptrdes_t * ptrdes, mr_uintmax_t * value)
   mr_type_t mr_type = ptrdes->mr_type_aux;
   if ((MR_TYPE_ENUM == mr_type) && (ptrdes->fdp != NULL) && (ptrdes->fdp->stype.tdp != NULL))
     mr_type = ptrdes->fdp->stype.tdp->param.enum_param.mr_type_effective;
+  if (MR_TYPE_CHAR == mr_type)
+    mr_type = ((char)-1 < 0) ? MR_TYPE_INT8 : MR_TYPE_UINT8;
 
 #define MR_SIGNED_INT_TYPES (0 MR_FOREACH (MR_ONE_SHIFT, MR_TYPE_INT8, MR_TYPE_INT16, MR_TYPE_INT32, MR_TYPE_INT64, MR_TYPE_INT128))
 
diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index dbd0ac2..d574a12 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -234,6 +234,13 @@ int mr_ra_printf_bitfield (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes, char *
       CASE_PRINT_BY_TYPE_ (int128_t, MR_TYPE_INT128);
       CASE_PRINT_BY_TYPE_ (uint128_t, MR_TYPE_UINT128);
 
+    case MR_TYPE_CHAR: /* bit-field of type char is an integer */
+      if ((char)-1 < 0)
+	count += TRY_CATCH_THROW (mr_ra_printf_int8_t (mr_ra_str, &_ptrdes));
+      else
+	count += TRY_CATCH_THROW (mr_ra_printf_uint8_t (mr_ra_str, &_ptrdes));
+      break;
+
     case MR_TYPE_ENUM:
       count += mr_ra_printf_bitmask (mr_ra_str, &_ptrdes, delimiter);
       break;
diff --git a/src/scm_save.c b/src/scm_save.c
index d225503..3b70858 100644
--- a/src/scm_save.c
+++ b/src/scm_save.c
@@ -66,6 +66,8 @@ scm_printf_bitfield (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
     {
     case MR_TYPE_BOOL: return (scm_printf_bool (mr_ra_str, &_ptrdes));
     case MR_TYPE_ENUM: return (scm_printf_bitmask (mr_ra_str, &_ptrdes));
+    case MR_TYPE_CHAR: /* bit-field of type char is an integer */
+      return (((char)-1 < 0) ? mr_ra_printf_int8_t (mr_ra_str, &_ptrdes) : mr_ra_printf_uint8_t (mr_ra_str, &_ptrdes));
     case MR_TYPE_INT8: return (mr_ra_printf_int8_t (mr_ra_str, &_ptrdes));
     case MR_TYPE_UINT8: return (mr_ra_printf_uint8_t (mr_ra_str, &_ptrdes));
     case MR_TYPE_INT16: return (mr_ra_printf_int16_t (mr_ra_str, &_ptrdes));
-- 
2.43.0


From 03970e5df0ffbb6d4d025504e64df29fd02bac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 06/46] fix: load infinite imaginary part of a complex number
 from CINIT

---
 src/cinit_load.l | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 22a5858..0ad4e86 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -51,7 +51,7 @@ NUMBER {INT_NUMBER}|{HEX_NUMBER}|{OCT_NUMBER}
 FLOAT_NAN [+-]?[Nn][Aa][Nn]
 FLOAT_INF [+-]?[Ii][Nn][Ff]
 FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?
-IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
+IMAGENARY_NUMBER ({FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?)[Ii]
 %%
 
 {WS}  { /* eat up whitespace */ }
@@ -69,7 +69,8 @@ IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
 
 {IMAGENARY_NUMBER} {
   yylval->value.value_type = MR_VT_COMPLEX;
-  yylval->value.vt_complex = I * strtold (yytext, NULL);
+  yylval->value.vt_complex = 0;
+  __imag__ yylval->value.vt_complex = strtold (yytext, NULL); /* multiplication by I makes NaN from infinity */
   return (TOK_CINIT_NUMBER);
 }
 
-- 
2.43.0


From a97e8d37a476bc2ca1a8a0808c2e3aaf3c3ca3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 07/46] fix: load fields named like literals from CINIT and SCM

---
 src/cinit_load.l |  7 +++++++
 src/cinit_load.y | 13 ++++++++-----
 src/scm_load.l   |  4 ++++
 src/scm_load.y   | 13 ++++++++-----
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 0ad4e86..b9e3732 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -120,6 +120,13 @@ IMAGENARY_NUMBER ({FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBE
 "("       { return (TOK_CINIT_LPAREN); }
 ")"       { return (TOK_CINIT_RPAREN); }
 ","       { return (TOK_CINIT_COMMA); }
+"."{WS}{ID} { /* field name is not a literal even if it looks like one */
+  yylval->string.str = &yytext[1];
+  while (isspace (*yylval->string.str))
+    ++yylval->string.str;
+  yylval->string.length = strlen (yylval->string.str);
+  return (TOK_CINIT_FIELD_ID);
+}
 "."       { return (TOK_CINIT_DOT); }
 "="       { return (TOK_CINIT_ASSIGN); }
 .         { return (TOK_CINIT_ERROR); }
diff --git a/src/cinit_load.y b/src/cinit_load.y
index ce9636c..2f514e0 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -90,7 +90,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 /* Bison declarations.  */
 %token <id_ivalue> TOK_CINIT_ID_IVALUE
 %token <value> TOK_CINIT_NUMBER
-%token <string> TOK_CINIT_FIELD_PREFIX TOK_CINIT_FIELD_CAST TOK_CINIT_STRING TOK_CINIT_CHAR TOK_CINIT_ID
+%token <string> TOK_CINIT_FIELD_PREFIX TOK_CINIT_FIELD_CAST TOK_CINIT_STRING TOK_CINIT_CHAR TOK_CINIT_ID TOK_CINIT_FIELD_ID
 %token TOK_CINIT_NULL TOK_CINIT_DOT TOK_CINIT_ASSIGN TOK_CINIT_LBRACE TOK_CINIT_RBRACE TOK_CINIT_LPAREN TOK_CINIT_RPAREN TOK_CINIT_COMMA TOK_CINIT_ERROR
 
 %left TOK_CINIT_BIT_OR TOK_CINIT_BIT_AND TOK_CINIT_BIT_XOR
@@ -98,6 +98,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 %left TOK_CINIT_MUL TOK_CINIT_DIV TOK_CINIT_MOD
 %precedence NEG 
 %type <value> expr
+%type <string> field_name
 
 %start cinit
 
@@ -247,7 +248,7 @@ compaund: TOK_CINIT_LBRACE list TOK_CINIT_RBRACE
 list: | list_element | list_element TOK_CINIT_COMMA list
 
 list_element: cinit
-| TOK_CINIT_DOT TOK_CINIT_ID TOK_CINIT_ASSIGN cinit {
+| field_name TOK_CINIT_ASSIGN cinit {
   mr_load_t * mr_load = MR_LOAD;
   mr_idx_t idx = mr_last_child_for_parent (mr_load->ptrs, mr_load->parent);
   if (MR_NULL_IDX == idx)
@@ -257,15 +258,17 @@ list_element: cinit
     }
 
   mr_td_t * tdp = mr_load->ptrs->ra[idx].fdp ? mr_load->ptrs->ra[idx].fdp->stype.tdp : NULL;
-  $2.str[$2.length] = 0;
-  mr_load->ptrs->ra[idx].fdp = mr_get_any_fd_by_name ($2.str, tdp);
+  $1.str[$1.length] = 0;
+  mr_load->ptrs->ra[idx].fdp = mr_get_any_fd_by_name ($1.str, tdp);
   if (NULL == mr_load->ptrs->ra[idx].fdp)
     {
-      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $2.str);
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $1.str);
       YYERROR;
     }
 }
 
+field_name: TOK_CINIT_FIELD_ID | TOK_CINIT_DOT TOK_CINIT_ID { $$ = $2; }
+
 %%
 
 MR_LOAD_FUNC (cinit);
diff --git a/src/scm_load.l b/src/scm_load.l
index 04ec4cd..f2ad174 100644
--- a/src/scm_load.l
+++ b/src/scm_load.l
@@ -97,6 +97,10 @@ FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{IN
 ";"[^\n]*{WS}* { }
 
 "("{WS}*       { return (TOK_SCM_LPARENTHESIS); }
+"("{WS}*{ID}{WS}+"."{WS}+ { /* field name is not a literal even if it looks like one */
+  mr_get_id (&yylval->string, &yytext[1]);
+  return (TOK_SCM_NAME);
+}
 {WS}*")"       { return (TOK_SCM_RPARENTHESIS); }
 
 {ID} {
diff --git a/src/scm_load.y b/src/scm_load.y
index ae8c47a..ab301a1 100644
--- a/src/scm_load.y
+++ b/src/scm_load.y
@@ -90,7 +90,8 @@
 }
 
 /* Bison declarations.  */
-%token <string> TOK_SCM_VALUE TOK_SCM_ID TOK_SCM_STRING
+%token <string> TOK_SCM_VALUE TOK_SCM_ID TOK_SCM_NAME TOK_SCM_STRING
+%type <string> name
 %token <value> TOK_SCM_CHAR TOK_SCM_NUMBER
 %token <id_ivalue> TOK_SCM_ID_IVALUE
 %token TOK_SCM_FALSE TOK_SCM_WS TOK_SCM_LPARENTHESIS TOK_SCM_RPARENTHESIS TOK_SCM_LBRACKETS TOK_SCM_RBRACKETS TOK_SCM_DOT TOK_SCM_ERROR
@@ -187,13 +188,15 @@ compaund: TOK_SCM_LPARENTHESIS list TOK_SCM_RPARENTHESIS
 
 list: | scm ws list
 
-named_node: TOK_SCM_LPARENTHESIS TOK_SCM_ID TOK_SCM_DOT value TOK_SCM_RPARENTHESIS {
+name: TOK_SCM_NAME | TOK_SCM_LPARENTHESIS TOK_SCM_ID TOK_SCM_DOT { $$ = $2; }
+
+named_node: name value TOK_SCM_RPARENTHESIS {
   mr_load_t * mr_load = MR_LOAD;
-  $2.str[$2.length] = 0;
-  mr_load->ptrs->ra[mr_load->parent].fdp = mr_get_any_fd_by_name ($2.str, NULL);
+  $1.str[$1.length] = 0;
+  mr_load->ptrs->ra[mr_load->parent].fdp = mr_get_any_fd_by_name ($1.str, NULL);
   if (NULL == mr_load->ptrs->ra[mr_load->parent].fdp)
     {
-      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $2.str);
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $1.str);
       YYERROR;
     }
 }
-- 
2.43.0


From a15a52f63cfc25abade06596f59007b3c3b73ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 08/46] fix: do not truncate wide discriminators of unions

---
 src/mr_save.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 35ff697..8d11723 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -12,10 +12,10 @@ TYPEDEF_FUNC (mr_idx_t, mr_save_handler_t, (mr_save_data_t *))
 static mr_save_handler_t mr_save_handler[];
 
 static inline mr_fd_t *
-mr_union_discriminator_by_idx (mr_td_t * tdp, int idx)
+mr_union_discriminator_by_idx (mr_td_t * tdp, mr_uintmax_t idx)
 {
   /* check that field index in union is valid and reset to default otherwise */
-  if ((idx < 0) || (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0])))
+  if (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0]))
     idx = 0;
   if (tdp->param.union_param.fields_size > 0) /* check for an empty union */
     return (tdp->param.struct_param.fields[idx]);
-- 
2.43.0


From 1ee81bcfdf68b4f599b8cda1d708a660b3458b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 09/46] fix: extend array that is reached through its own
 elements

---
 src/mr_save.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 8d11723..7cee39e 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -714,26 +714,21 @@ resolve_pointer (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
       /* otherwise we can handle only match with another resizable pointer */
       if (MR_TYPE_POINTER == ra[ref_parent].mr_type)
 	{
-	  if (is_first_child (ra, ref_idx))
-	    {
-	      /* nodes can't be moved beneath themself */
-	      if (ref_is_parent (ra, parent, ref_parent))
-		return (0);
-	      *resolved = true;
-	      /*
-		previously saved resizable pointer was pointing to the same address, but was shorter.
-		we need to reassign nodes to bigger resizable pointer and make a references for shorter one.
-	      */
-	      return (move_nodes_to_parent (ptrs, ref_parent, idx));
-	    }
+	  *resolved = true;
+	  if (is_first_child (ra, ref_idx) && !ref_is_parent (ra, parent, ref_parent))
+	    /*
+	      previously saved resizable pointer was pointing to the same address, but was shorter.
+	      we need to reassign nodes to bigger resizable pointer and make a references for shorter one.
+	    */
+	    return (move_nodes_to_parent (ptrs, ref_parent, idx));
 	  else
 	    {
-	      *resolved = true;
 	      typeof (ra[idx].MR_SIZE) size_delta = ra[idx].MR_SIZE - ra[ref_idx].MR_SIZE;
 	      mr_idx_t total_required = ra[idx].MR_SIZE / element_size;
 	      /*
 		Currently saving resizable pointer is pointing into the middle of previously saved resizable pointer,
-		but previously saved pointer is shorter then we need for new one.
+		but previously saved pointer is shorter then we need for new one,
+		or it contains new one and its nodes can't be moved beneath themself.
 		We need to append required number of nodes to previously saved pointer and set new resizable pointer as a references.
 	      */
 	      ra[ref_parent].MR_SIZE += size_delta;
-- 
2.43.0


From 615ca8ede893b4d8588267b6e19d9c4c7ad82a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 10/46] fix: copying a string as the root object duplicates its
 content

---
 src/mr_extra.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index a1b5256..b54c337 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -84,14 +84,14 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
   memcpy (dst, ptrs->ra[1].data.ptr, ptrs->ra[1].MR_SIZE);
   ptrs->ra[1].res.data.ptr = dst;
 
+  ptrs->ra[1].res.type = NULL;
   for (i = 2; i < count; ++i)
     {
       ptrs->ra[i].res.data.ptr = NULL;
       ptrs->ra[i].res.type = NULL;
     }
 
-  /* NB index 1 is excluded */
-  for (i = 2; i < count; ++i)
+  for (i = 1; i < count; ++i)
     /*
       process nodes that are in final save graph (ptrs->ra[i].idx != MR_NULL_IDX)
       and are not references on other nodes and not a NULL pointer
@@ -151,7 +151,7 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
   mr_ptrs_dfs (ptrs, calc_relative_addr, NULL);
 
   /* now we should update pointers in a copy */
-  for (i = 2; i < count; ++i)
+  for (i = 1; i < count; ++i)
     if ((ptrs->ra[i].idx != MR_NULL_IDX)) /* skip invalid nodes */
       switch (ptrs->ra[i].mr_type)
 	{
@@ -181,7 +181,7 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
   return (MR_SUCCESS);
 
  failure:
-  for (i = 2; i < count; ++i)
+  for (i = 1; i < count; ++i)
     if ((MR_TYPE_STRING == ptrs->ra[i].mr_type) && (ptrs->ra[i].res.type != NULL))
       MR_FREE (ptrs->ra[i].res.type);
     else if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) &&
-- 
2.43.0


From d2576b057fdce3af8d768de25898622b49bd985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:57 +0000
Subject: [PATCH 11/46] fix: a copy does not share storage of empty dynamic
 arrays with its source

---
 src/mr_extra.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index b54c337..bb12de7 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -172,6 +172,8 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 	  /* update pointer in the copy */
 	  if (ptrs->ra[i].first_child != MR_NULL_IDX)
 	    *(void**)ptrs->ra[i].res.data.ptr = ptrs->ra[ptrs->ra[i].first_child].res.data.ptr;
+	  else if ((MR_TYPE_NONE != ptrs->ra[i].mr_type_aux) && (MR_TYPE_VOID != ptrs->ra[i].mr_type_aux))
+	    *(void**)ptrs->ra[i].res.data.ptr = NULL; /* typed pointers without content must not share storage with the source */
 	  break;
 
 	default:
-- 
2.43.0


From 23a9738f1f249a03ba452cea6f622fec90bd6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 12/46] fix: hash and comparison do not read past a character
 array without terminating zero

---
 src/mr_extra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index bb12de7..278fa32 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -244,7 +244,7 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       break;
 	  
     case MR_TYPE_CHAR_ARRAY:
-      ptrdes->res.data.uintptr = mr_hash_str ((char*)ptrdes->data.ptr);
+      ptrdes->res.data.uintptr = mr_hash_block (ptrdes->data.ptr, strnlen (ptrdes->data.ptr, ptrdes->MR_SIZE));
       break;
 	  
     case MR_TYPE_BOOL:
@@ -406,7 +406,7 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	  }
 	  
 	case MR_TYPE_CHAR_ARRAY:
-	  diff = strcmp (x_i->data.ptr, y_i->data.ptr);
+	  diff = strncmp (x_i->data.ptr, y_i->data.ptr, x_i->MR_SIZE);
 	  if (diff)
 	    return (diff);
 	  break;
-- 
2.43.0


From ae55f63d5a224afafe94f558ca916979bcfd0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 13/46] fix: zeros of both signs, which are equal, have the
 same hash

---
 src/mr_extra.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 278fa32..79fad14 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -229,6 +229,9 @@ mr_hash_str (char * str)
   return (str ? mr_hash_block (str, strlen (str)) : 1);
 }
 
+/* zeros of both signs are equal for mr_cmp_structs, so they must have the same hash */
+#define MR_UNSIGNED_ZERO(VALUE) do { if (0 == (VALUE)) (VALUE) = 0; } while (0)
+
 static mr_status_t
 node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order, void * context)
 {
@@ -259,12 +262,21 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
 
 #define CASE_MR_FLOAT_TYPE_HASH(TYPE)					\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = __builtin_isnan (*(TYPE*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	{								\
+	  TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	  MR_UNSIGNED_ZERO (value);					\
+	  ptrdes->res.data.uintptr = __builtin_isnan (value) ? -1 : mr_hash_block (&value, sizeof (value)); \
+	}								\
 	break;
 
 #define CASE_MR_COMPLEX_FLOAT_TYPE_HASH(TYPE)				\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = (__builtin_isnan (__real__ *(TYPE*)ptrdes->data.ptr) || __builtin_isnan (__imag__ *(TYPE*)ptrdes->data.ptr)) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	{								\
+	  TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	  MR_UNSIGNED_ZERO (__real__ value);				\
+	  MR_UNSIGNED_ZERO (__imag__ value);				\
+	  ptrdes->res.data.uintptr = (__builtin_isnan (__real__ value) || __builtin_isnan (__imag__ value)) ? -1 : mr_hash_block (&value, sizeof (value)); \
+	}								\
 	break;
 
       MR_FOREACH (CASE_MR_TYPE_HASH, char, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, mr_uint128_t, mr_int128_t);
@@ -272,16 +284,22 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       MR_FOREACH (CASE_MR_COMPLEX_FLOAT_TYPE_HASH, complex_float_t, complex_double_t);
 	  
     case MR_TYPE_LONG_DOUBLE:
-      ptrdes->res.data.uintptr = __builtin_isnan (*(long_double_t*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, MR_SIZEOF_LONG_DOUBLE);
+      {
+	long_double_t value = *(long_double_t*)ptrdes->data.ptr;
+	MR_UNSIGNED_ZERO (value);
+	ptrdes->res.data.uintptr = __builtin_isnan (value) ? -1 : mr_hash_block (&value, MR_SIZEOF_LONG_DOUBLE);
+      }
       break;
 
     case MR_TYPE_COMPLEX_LONG_DOUBLE:
       {
-	long double * real = &__real__ *(complex long double *)ptrdes->data.ptr;
-	long double * imag = &__imag__ *(complex long double *)ptrdes->data.ptr;
+	long double real = __real__ *(complex long double *)ptrdes->data.ptr;
+	long double imag = __imag__ *(complex long double *)ptrdes->data.ptr;
+	MR_UNSIGNED_ZERO (real);
+	MR_UNSIGNED_ZERO (imag);
 	ptrdes->res.data.uintptr =
-	  (__builtin_isnan (*real) || __builtin_isnan (*imag)) ? -1 :
-	  mr_hash_block (real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (imag, MR_SIZEOF_LONG_DOUBLE);
+	  (__builtin_isnan (real) || __builtin_isnan (imag)) ? -1 :
+	  mr_hash_block (&real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (&imag, MR_SIZEOF_LONG_DOUBLE);
       }
       break;
 	  
-- 
2.43.0


From aa7adf157953ec8d05851913455e1a84371b6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 14/46] fix: comparison of complex numbers with NaN is
 transitive

---
 src/mr_extra.c | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 79fad14..fba7df5 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -459,36 +459,20 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	    {								\
 	      TYPE _x = *(TYPE*)x_i->data.ptr;				\
 	      TYPE _y = *(TYPE*)y_i->data.ptr;				\
-	      bool rx_isnan = __builtin_isnan (__real__ _x);		\
-	      bool ix_isnan = __builtin_isnan (__imag__ _x);		\
-	      bool ry_isnan = __builtin_isnan (__real__ _y);		\
-	      bool iy_isnan = __builtin_isnan (__imag__ _y);		\
-	      if (((rx_isnan || ix_isnan)) && ((ry_isnan || iy_isnan)))	\
-		continue;						\
-	      if (!rx_isnan && !ry_isnan)				\
+	      bool x_isnan = __builtin_isnan (__real__ _x) || __builtin_isnan (__imag__ _x); \
+	      bool y_isnan = __builtin_isnan (__real__ _y) || __builtin_isnan (__imag__ _y); \
+	      if (!x_isnan && !y_isnan)					\
 		{							\
 		  diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
 		  if (diff)						\
 		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !rx_isnan - !ry_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      if (!ix_isnan && !iy_isnan)				\
-		{							\
 		  diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
 		  if (diff)						\
 		    return (diff);					\
 		}							\
-	      else							\
-		{							\
-		  diff = !ix_isnan - !iy_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
+	      diff = !x_isnan - !y_isnan;				\
+	      if (diff)							\
+		return (diff);						\
 	    }								\
 	    break;
 
-- 
2.43.0


From 65087a669292ff1ddf9068a6bc1fb4c3f31c7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 15/46] fix: octal escapes in CINIT have three digits at most

---
 src/cinit_load.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index 2f514e0..1bff25a 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -54,7 +54,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 	  int size;
 	  if (c > 0)
 	    dst[length++] = c;
-	  else if (1 == sscanf (&substr->str[i], "%o%n", &c, &size))
+	  else if (('0' <= substr->str[i]) && (substr->str[i] <= '7') && (1 == sscanf (&substr->str[i], "%3o%n", &c, &size)))
 	    {
 	      i += size - 1;
 	      dst[length++] = c;
-- 
2.43.0


From b0a1fd13bd1a6d0db3bb66e06aa6e63f3a97adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 16/46] fix: discriminator that is a character array without
 terminating zero is not read past its end

---
 src/mr_save.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 7cee39e..777ced8 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -121,7 +121,14 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	  }
 	
 	case MR_TYPE_CHAR_ARRAY:
-	  return (mr_union_discriminator_by_name (tdp, (char*)discriminator));
+	  {
+	    mr_td_t * char_array_tdp = parent_fdp->stype.tdp;
+	    mr_size_t size = (char_array_tdp && (MR_TYPE_CHAR_ARRAY == char_array_tdp->mr_type)) ? char_array_tdp->size : parent_fdp->stype.size;
+	    char name[size + 1]; /* array might have no terminating zero */
+	    memcpy (name, discriminator, size);
+	    name[size] = 0;
+	    return (mr_union_discriminator_by_name (tdp, name));
+	  }
 	
 	case MR_TYPE_STRING:
 	  return (mr_union_discriminator_by_name (tdp, *(char**)discriminator));
-- 
2.43.0


From 25c42d9f66164cbaa881c7f4d31adb9eee21f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 17/46] fix: CINIT expression that can not be evaluated is
 refused

---
 src/cinit_load.y | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index 1bff25a..8f8aeef 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -224,15 +224,15 @@ compaund
 }
 
 expr:
-  expr TOK_CINIT_PLUS expr { mr_value_add (&$$, &$1, &$3); }
-| expr TOK_CINIT_MINUS expr { mr_value_sub (&$$, &$1, &$3); }
-| expr TOK_CINIT_MUL expr { mr_value_mul (&$$, &$1, &$3); }
-| expr TOK_CINIT_DIV expr { mr_value_div (&$$, &$1, &$3); }
-| expr TOK_CINIT_MOD expr { mr_value_mod (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_OR expr { mr_value_bit_or (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_AND expr { mr_value_bit_and (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_XOR expr { mr_value_bit_xor (&$$, &$1, &$3); }
-| TOK_CINIT_MINUS expr %prec NEG { $$ = $2; mr_value_neg (&$$); }
+  expr TOK_CINIT_PLUS expr { if (MR_SUCCESS != mr_value_add (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_MINUS expr { if (MR_SUCCESS != mr_value_sub (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_MUL expr { if (MR_SUCCESS != mr_value_mul (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_DIV expr { if (MR_SUCCESS != mr_value_div (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_MOD expr { if (MR_SUCCESS != mr_value_mod (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_BIT_OR expr { if (MR_SUCCESS != mr_value_bit_or (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_BIT_AND expr { if (MR_SUCCESS != mr_value_bit_and (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_BIT_XOR expr { if (MR_SUCCESS != mr_value_bit_xor (&$$, &$1, &$3)) { YYERROR; } }
+| TOK_CINIT_MINUS expr %prec NEG { $$ = $2; if (MR_SUCCESS != mr_value_neg (&$$)) { YYERROR; } }
 | TOK_CINIT_PLUS expr %prec NEG { $$ = $2; }
 | TOK_CINIT_NUMBER { $$ = $1; }
 | TOK_CINIT_ID {
-- 
2.43.0


From f97d7f5945ad0e166df0fbab4c7971f181a69a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 18/46] fix: precedence of bitwise operators in CINIT is the
 same as in C

---
 src/cinit_load.y | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index 8f8aeef..2e8c117 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -93,7 +93,9 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 %token <string> TOK_CINIT_FIELD_PREFIX TOK_CINIT_FIELD_CAST TOK_CINIT_STRING TOK_CINIT_CHAR TOK_CINIT_ID TOK_CINIT_FIELD_ID
 %token TOK_CINIT_NULL TOK_CINIT_DOT TOK_CINIT_ASSIGN TOK_CINIT_LBRACE TOK_CINIT_RBRACE TOK_CINIT_LPAREN TOK_CINIT_RPAREN TOK_CINIT_COMMA TOK_CINIT_ERROR
 
-%left TOK_CINIT_BIT_OR TOK_CINIT_BIT_AND TOK_CINIT_BIT_XOR
+%left TOK_CINIT_BIT_OR
+%left TOK_CINIT_BIT_XOR
+%left TOK_CINIT_BIT_AND
 %left TOK_CINIT_PLUS TOK_CINIT_MINUS
 %left TOK_CINIT_MUL TOK_CINIT_DIV TOK_CINIT_MOD
 %precedence NEG 
-- 
2.43.0


From 42fa1ace428ecc11eac42576ad0c53c022f3c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 19/46] fix: octal numbers in CINIT and SCM, exponent with two
 signs in SCM

---
 src/cinit_load.l | 9 +++++++--
 src/scm_load.l   | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index b9e3732..609fca5 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -46,7 +46,7 @@ WS	[[:space:]]*
 ID	[_[:alpha:]][_[:alnum:]]*
 INT_NUMBER [[:digit:]]+
 HEX_NUMBER (0x|0X)[[:xdigit:]]+
-OCT_NUMBER 0[[0-7]]+
+OCT_NUMBER 0[0-7]+
 NUMBER {INT_NUMBER}|{HEX_NUMBER}|{OCT_NUMBER}
 FLOAT_NAN [+-]?[Nn][Aa][Nn]
 FLOAT_INF [+-]?[Ii][Nn][Ff]
@@ -63,7 +63,12 @@ IMAGENARY_NUMBER ({FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBE
 "TRUE" { yylval->value.value_type = MR_VT_INT; yylval->value.vt_int = true; return (TOK_CINIT_NUMBER); }
 [Ii] { yylval->value.value_type = MR_VT_COMPLEX; yylval->value.vt_complex = I; return (TOK_CINIT_NUMBER); }
 
-{NUMBER} { yylval->value.value_type = MR_VT_INT; yylval->value.vt_int = mr_strtouintmax (yytext, NULL, 0); return (TOK_CINIT_NUMBER); }
+{NUMBER} {
+  char * end = NULL;
+  yylval->value.value_type = MR_VT_INT;
+  yylval->value.vt_int = mr_strtouintmax (yytext, &end, 0);
+  return (*end ? TOK_CINIT_ERROR : TOK_CINIT_NUMBER); /* octal number might have wrong digits */
+}
 
 {FLOAT_NUMBER} { yylval->value.value_type = MR_VT_FLOAT; yylval->value.vt_float = strtold (yytext, NULL); return (TOK_CINIT_NUMBER); }
 
diff --git a/src/scm_load.l b/src/scm_load.l
index f2ad174..63b4adc 100644
--- a/src/scm_load.l
+++ b/src/scm_load.l
@@ -24,10 +24,10 @@ WS	[[:space:]]+
 ID	[_[:alpha:]][_[:alnum:]]*
 INT_NUMBER [+-]?[[:digit:]]+
 HEX_NUMBER [+-]?#(x|X)[[:xdigit:]]+
-OCT_NUMBER [+-]?#(o|O)[[0-7]]+
+OCT_NUMBER [+-]?#(o|O)[0-7]+
 FLOAT_NAN [+-]?[Nn][Aa][Nn]
 FLOAT_INF [+-]?[Ii][Nn][Ff]
-FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?
+FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE]{INT_NUMBER})?
 %%
 
 {WS}  { return (TOK_SCM_WS); }
-- 
2.43.0


From 06f0e55b43f2bad664b54a48ca56f72d34650498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 20/46] fix: hexadecimal escapes in CINIT strings and
 characters

---
 src/cinit_load.y | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index 2e8c117..51745a2 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -5,6 +5,7 @@
 %code top {
 #include <stdio.h>
 #include <stdbool.h>
+#include <ctype.h>
 
 #define MR_CINIT_DEBUG 0
 /* Pass the argument to yyparse through to yylex. */
@@ -59,6 +60,11 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 	      i += size - 1;
 	      dst[length++] = c;
 	    }
+	  else if (('x' == substr->str[i]) && isxdigit (substr->str[i + 1]) && (1 == sscanf (&substr->str[i], "x%x%n", &c, &size)))
+	    {
+	      i += size - 1;
+	      dst[length++] = c;
+	    }
 	  else
 	    dst[length++] = substr->str[i];
 	}
-- 
2.43.0


From f470ce9253456b662f470849d520967fc1db427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 21/46] fix: character references in XML1 (endless loop on
 leading zeros, decimal, &apos;)

---
 src/xml_save.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index 0018660..10ddccb 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -25,6 +25,7 @@
 #define MR_XML1_OPEN_EMPTY_TAG_END "/>"
 
 #define XML_QUOTE_CHAR_PATTERN "&#x%02X;"
+#define XML_APOS "&apos;" /* is not escaped on save, because values are always in double quotes */
 #define ESC_SIZE (sizeof (XML_QUOTE_CHAR_PATTERN))
 #define ESC_CHAR_MAP_SIZE (1 << __CHAR_BIT__)
 static char * esc_char_map[MR_ESC_CHAR_MAP_SIZE] = {
@@ -75,18 +76,24 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
       {
 	char esc[ESC_SIZE + 1];
 	strncpy (esc, &substr->str[i], sizeof (esc) - 1);
+	esc[sizeof (esc) - 1] = 0;
 	char * semicolon = strchr (esc, ';');
 	if (semicolon)
 	  semicolon[1] = 0;
-	else
-	  esc[sizeof (esc) - 1] = 0;
 	
 	if ('#' == substr->str[i + 1])
 	  {
-	    int32_t code = 0;
+	    unsigned int code = 0;
 	    int size = 0;
-	    if (1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size))
-	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_WRONG_XML_ESC, esc);
+	    /* size is set only if the terminating semicolon is matched */
+	    sscanf (&substr->str[i], "&#x%8x;%n", &code, &size);
+	    if (0 == size)
+	      sscanf (&substr->str[i], "&#%8u;%n", &code, &size);
+	    if ((0 == size) || (code > (unsigned char)-1))
+	      {
+		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_WRONG_XML_ESC, esc);
+		dst[length++] = substr->str[i];
+	      }
 	    else
 	      {
 		i += size - 1; /* one more +1 in the loop */
@@ -107,6 +114,13 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
 		  found = true;
 		}
 
+	    if (!found && (0 == strncasecmp (&substr->str[i], XML_APOS, sizeof (XML_APOS) - 1)))
+	      {
+		dst[length++] = '\'';
+		i += sizeof (XML_APOS) - 2; /* one more increase in the loop */
+		found = true;
+	      }
+
 	    if (!found)
 	      {
 		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNKNOWN_XML_ESC, esc);
-- 
2.43.0


From cbaea1d5890eef89975ad039a642e51739ffd64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 22/46] fix: size of the index table must not wrap for the
 biggest reference id

---
 src/mr_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 8c4d1c0..3af96db 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -37,7 +37,7 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
-- 
2.43.0


From f3e1f2061a41d26508ba4ac2d501ab11b640ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 23/46] fix: identifiers of referenced nodes are not indexes of
 children at loading

---
 src/metaresc.c  | 5 +++++
 src/mr_load.c   | 4 ++++
 src/xml1_load.y | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/src/metaresc.c b/src/metaresc.c
index 2b3da7b..ff039e0 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -633,6 +633,8 @@ mr_last_child_for_parent (mr_ra_ptrdes_t * ptrs, mr_idx_t parent)
   mr_ptrdes_t * ra = ptrs->ra;
   if (MR_NULL_IDX == ra[parent].first_child)
     return (MR_NULL_IDX);
+  if (ra[parent].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
+    return (MR_NULL_IDX);
 
   while ((last_child != MR_NULL_IDX) && (ra[last_child].parent != parent))
     last_child = ra[last_child].parent;
@@ -664,6 +666,9 @@ mr_add_child (mr_ra_ptrdes_t * ptrs, mr_idx_t parent, mr_idx_t child)
   ra[child].parent = parent;
   if (MR_NULL_IDX == parent)
     return;
+  /* first_child of references keeps identifier of a referenced node */
+  if (ra[parent].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
+    return;
 
   if (MR_NULL_IDX == ra[parent].first_child)
     ra[parent].first_child = child;
diff --git a/src/mr_load.c b/src/mr_load.c
index 3af96db..33cfa07 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -893,6 +893,10 @@ mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  return (MR_FAILURE);
 	}
 
+  if ((ptrs->ra[idx].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) &&
+      (MR_TYPE_POINTER != fdp->stype.mr_type) && (MR_TYPE_STRING != fdp->stype.mr_type))
+    ptrs->ra[idx].first_child = MR_NULL_IDX; /* identifier of a referenced node is not a child */
+
   ptrs->ra[idx].data.ptr = data;
   ptrs->ra[idx].fdp = fdp;
   ptrs->ra[idx].mr_size = fdp->stype.size;
diff --git a/src/xml1_load.y b/src/xml1_load.y
index da99291..3925d4f 100644
--- a/src/xml1_load.y
+++ b/src/xml1_load.y
@@ -157,6 +157,12 @@ tag: start_tag TOK_XML_OPEN_TAG properties TOK_XML_CLOSE_EMPTY_TAG {
 
 start_tag: { 
   mr_load_t * mr_load = MR_LOAD; 
+  if ((mr_load->parent != MR_NULL_IDX) &&
+      (mr_load->ptrs->ra[mr_load->parent].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
+    {
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_SUBNODES);
+      YYERROR;
+    }
   mr_idx_t idx = mr_add_ptr_to_list (mr_load->ptrs);
   if (MR_NULL_IDX == idx)
     { YYERROR; }
-- 
2.43.0


From f449e2a2879de23a06661418ff15c0e035277c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 24/46] fix: size of the YAML index table must not wrap for the
 biggest anchor id

---
 src/yaml_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml_load.c b/src/yaml_load.c
index bc670b7..cc5a197 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -12,7 +12,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     return;
 
-- 
2.43.0


From c33f096b43fa4b3d09a14ec1d4c82cf642fc3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 25/46] fix: loading releases memory that was overwritten by
 other nodes and releases each block once on failure

---
 src/mr_load.c | 110 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 101 insertions(+), 9 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 33cfa07..beca29a 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -104,6 +104,95 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
   return (MR_SUCCESS);
 }
 
+/**
+ * Memory allocated for a pointer or a string is owned by the node till the end of loading,
+ * because pointer in the loaded object might be overwritten by the load of other nodes
+ * (fields that were set twice, members of unions).
+ * @param ptrdes descriptor of a pointer or of a string
+ * @param ptr allocated memory
+ */
+static void
+mr_load_set_owned (mr_ptrdes_t * ptrdes, void * ptr)
+{
+  switch (ptrdes->value_type)
+    {
+    case MR_VT_STRING:
+      if (ptrdes->load_params.vt_string)
+	MR_FREE (ptrdes->load_params.vt_string);
+      break;
+    case MR_VT_COMPLEX:
+      if (ptrdes->load_params.vt_complex)
+	MR_FREE (ptrdes->load_params.vt_complex);
+      break;
+    default:
+      break;
+    }
+  memset (&ptrdes->load_params, 0, sizeof (ptrdes->load_params));
+  ptrdes->value_type = MR_VT_VOID;
+  ptrdes->res.data.ptr = ptr;
+}
+
+static void *
+mr_load_get_owned (mr_ptrdes_t * ptrdes)
+{
+  if ((MR_TYPE_POINTER != ptrdes->mr_type) && (MR_TYPE_STRING != ptrdes->mr_type))
+    return (NULL);
+  return ((MR_VT_VOID == ptrdes->value_type) ? ptrdes->res.data.ptr : NULL);
+}
+
+/**
+ * Release allocated memory that is not reachable from the loaded object.
+ * @param ptrs internal representation of the loaded tree
+ */
+static void
+mr_load_free_overwritten (mr_ra_ptrdes_t * ptrs)
+{
+  mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
+
+  for (i = 1; i < count; ++i)
+    {
+      mr_ptrdes_t * parent = &ptrs->ra[ptrs->ra[i].parent];
+      void * owned = mr_load_get_owned (parent);
+      if ((ptrs->ra[i].parent != MR_NULL_IDX) &&
+	  ((NULL == parent->data.ptr) || ((owned != NULL) && (*(void**)parent->data.ptr != owned))))
+	ptrs->ra[i].data.ptr = NULL; /* node is in the block that is not reachable */
+    }
+
+  for (i = count - 1; i > 0; --i)
+    {
+      void * owned = mr_load_get_owned (&ptrs->ra[i]);
+      if ((owned != NULL) && ((NULL == ptrs->ra[i].data.ptr) || (*(void**)ptrs->ra[i].data.ptr != owned)))
+	{
+	  MR_FREE (owned);
+	  ptrs->ra[i].res.data.ptr = NULL;
+	  ptrs->ra[i].data.ptr = NULL;
+	}
+    }
+}
+
+/**
+ * Release all allocated memory if loading failed.
+ * @param ptrs internal representation of the loaded tree
+ */
+static void
+mr_load_free_all (mr_ra_ptrdes_t * ptrs)
+{
+  mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
+
+  /* children are always after their parents */
+  for (i = count - 1; i > 0; --i)
+    {
+      void * owned = mr_load_get_owned (&ptrs->ra[i]);
+      if (owned != NULL)
+	{
+	  if (ptrs->ra[i].data.ptr != NULL)
+	    *(void**)ptrs->ra[i].data.ptr = NULL;
+	  MR_FREE (owned);
+	  ptrs->ra[i].res.data.ptr = NULL;
+	}
+    }
+}
+
 void
 mr_free_load_values (mr_ra_ptrdes_t * ptrs)
 {
@@ -434,7 +523,10 @@ mr_load_string (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	case MR_VT_SUBSTR:
 	  *(char**)ptrdes->data.ptr = MR_CALLOC (1, ptrdes->load_params.vt_substr.length + sizeof (char));
 	  if (*(char**)ptrdes->data.ptr)
-	    memcpy (*(char**)ptrdes->data.ptr, ptrdes->load_params.vt_substr.str, ptrdes->load_params.vt_substr.length);
+	    {
+	      memcpy (*(char**)ptrdes->data.ptr, ptrdes->load_params.vt_substr.str, ptrdes->load_params.vt_substr.length);
+	      mr_load_set_owned (ptrdes, *(char**)ptrdes->data.ptr);
+	    }
 	  else
 	    {
 	      MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
@@ -445,6 +537,7 @@ mr_load_string (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	case MR_VT_STRING:
 	  *(char**)ptrdes->data.ptr = ptrdes->load_params.vt_string;
 	  ptrdes->load_params.vt_string = NULL;
+	  mr_load_set_owned (ptrdes, *(char**)ptrdes->data.ptr);
 	  break;
 
 	case MR_VT_INT:
@@ -494,6 +587,7 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
 	  }
 		  
 	*(void**)ptrs->ra[ptrdes->parent].data.ptr = ptrdes->data.ptr = data;
+	mr_load_set_owned (&ptrs->ra[ptrdes->parent], data);
 	max_size = str_len + 1;
       }
 
@@ -769,6 +863,7 @@ mr_load_pointer_postponed (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
       return (MR_FAILURE);
     }
+  mr_load_set_owned (ptrdes, *data);
   
   /* load recursively */
   count = 0;
@@ -923,16 +1018,13 @@ mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  status = mr_load_pointer_postponed (i, ptrs);
       
       if (MR_SUCCESS == status)
-	status = mr_set_crossrefs (ptrs);
+	{
+	  mr_load_free_overwritten (ptrs);
+	  status = mr_set_crossrefs (ptrs);
+	}
 
       if (MR_SUCCESS != status)
-	for (i = count - 1; i > 0; --i)
-	  if (((MR_TYPE_POINTER == ptrs->ra[i].mr_type) || (MR_TYPE_STRING == ptrs->ra[i].mr_type))
-	      && *(void**)ptrs->ra[i].data.ptr)
-	    {
-	      MR_FREE (*(void**)ptrs->ra[i].data.ptr);
-	      *(void**)ptrs->ra[i].data.ptr = NULL;
-	    }
+	mr_load_free_all (ptrs);
     }
 
   if (fdp->non_persistent)
-- 
2.43.0


From 7557df9536a1f25638cc31cf1d476f1ab5be63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 26/46] fix: content of a node is referenced at loading only if
 the node is a pointer or a string

---
 src/mr_load.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index beca29a..0c748ab 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -86,6 +86,12 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
 		continue;
 	      }
+	    else if ((MR_TYPE_POINTER != ptrs->ra[idx].mr_type) &&
+		     (MR_TYPE_STRING != ptrs->ra[idx].mr_type))
+	      {
+		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+		continue;
+	      }
 	    else
 	      data = *(void**)data;
 	  }
-- 
2.43.0


From 7a8312fb59d6847727fdc52326d7154d8aa78c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 27/46] fix: sizes of arrays in XDR stream are checked against
 the place for them

---
 src/xdr.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index 12203bb..73a97e1 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -565,6 +565,13 @@ xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   if (!xdr_uint32_t (xdrs, &str_len))
     return (MR_FAILURE);
 
+  if ((XDR_DECODE == xdrs->x_op) && !is_a_dynamic_string &&
+      (str_len > (ptrdes->fdp ? ptrdes->fdp->stype.size : 0)))
+    {
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_RANGE_CHECK, ptrdes->fdp ? ptrdes->fdp->name.str : NULL);
+      return (MR_FAILURE);
+    }
+
   if ((XDR_DECODE == xdrs->x_op) && (str_len > sizeof (char)) && is_a_dynamic_string)
     {
       void * data = MR_REALLOC (ptrs->ra[idx].data.ptr, str_len);
@@ -575,7 +582,11 @@ xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	}
       *(void**)ptrs->ra[idx - 1].data.ptr = ptrs->ra[idx].data.ptr = data;
     }
-  return (xdr_opaque (xdrs, ptrs->ra[idx].data.ptr, str_len) ? MR_SUCCESS : MR_FAILURE);
+  if (!xdr_opaque (xdrs, ptrs->ra[idx].data.ptr, str_len))
+    return (MR_FAILURE);
+  if ((XDR_DECODE == xdrs->x_op) && (str_len > 0) && is_a_dynamic_string)
+    ptrs->ra[idx].data.string[str_len - 1] = 0; /* dynamic string has no other sign of its end */
+  return (MR_SUCCESS);
 }
 
 /**
@@ -911,6 +922,11 @@ xdr_load_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  if (fd_.stype.size == 0)
 	    return (MR_SUCCESS);
 
+	  if (ptrs->ra[idx].MR_SIZE / fd_.stype.size > count)
+	    {
+	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_RANGE_CHECK, fd_.name.str);
+	      return (MR_FAILURE);
+	    }
 	  count = ptrs->ra[idx].MR_SIZE / fd_.stype.size;
 	  ptrs->ra[idx].MR_SIZE = count * fd_.stype.size;
 
-- 
2.43.0


From 42a248aa7a2865047bcb57a1ad698812200e35cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 28/46] fix: failed XDR load releases everything that it
 allocated

---
 src/xdr.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index 73a97e1..89dec9c 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -274,6 +274,13 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
 		    status = MR_FAILURE;
 		  }
+		else if ((MR_TYPE_POINTER != ptrs->ra[ref_idx].mr_type) &&
+			 (MR_TYPE_STRING != ptrs->ra[ref_idx].mr_type))
+		  {
+		    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[ref_idx].mr_type);
+		    status = MR_FAILURE;
+		    continue;
+		  }
 		else
 		  data = *(void**)data;
 	      }
@@ -333,10 +340,21 @@ mr_xdr_load (void * data, mr_fd_t * fdp, XDR * xdrs)
     return (MR_FAILURE);
 
   mr_status_t status = xdr_load_inner (data, fdp, xdrs, &ptrs, 0);
-  mr_status_t crossref_status = mr_set_crossrefs (&ptrs);
-
   if (MR_SUCCESS == status)
-    status = crossref_status;
+    status = mr_set_crossrefs (&ptrs);
+
+  if (MR_SUCCESS != status)
+    {
+      /* release everything that was allocated, children are always after their parents */
+      mr_idx_t idx;
+      for (idx = ptrs.size / sizeof (ptrs.ra[0]) - 1; idx > 0; --idx)
+	if ((MR_TYPE_POINTER == ptrs.ra[idx].mr_type) || (MR_TYPE_STRING == ptrs.ra[idx].mr_type))
+	  {
+	    *(void**)ptrs.ra[idx].data.ptr = NULL;
+	    if (ptrs.ra[idx].res.data.ptr != NULL)
+	      MR_FREE (ptrs.ra[idx].res.data.ptr);
+	  }
+    }
 
   if (ptrs.ra != NULL)
     MR_FREE (ptrs.ra);
@@ -581,6 +599,7 @@ xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  return (MR_FAILURE);
 	}
       *(void**)ptrs->ra[idx - 1].data.ptr = ptrs->ra[idx].data.ptr = data;
+      ptrs->ra[idx - 1].res.data.ptr = data;
     }
   if (!xdr_opaque (xdrs, ptrs->ra[idx].data.ptr, str_len))
     return (MR_FAILURE);
@@ -655,14 +674,19 @@ xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       *str = NULL;
       if (!xdr_uint32_t (xdrs, &size))
 	return (MR_FAILURE);
-      *str = MR_CALLOC (size + 1, sizeof (**str));
+      *str = MR_CALLOC ((size_t)size + 1, sizeof (**str));
       if (NULL == *str)
 	{
 	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
 	  return (MR_FAILURE);
 	}
       if (!xdr_opaque (xdrs, *str, size))
-	return (MR_FAILURE);
+	{
+	  MR_FREE (*str);
+	  *str = NULL;
+	  return (MR_FAILURE);
+	}
+      ptrs->ra[idx].res.data.ptr = *str; /* memory is owned by the node till the end of loading */
       return (MR_SUCCESS);
     }
 }
@@ -1048,6 +1072,7 @@ xdr_load_pointer (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
       return (MR_FAILURE);
     }
+  ptrs->ra[idx].res.data.ptr = *data; /* memory is owned by the node till the end of loading */
 
   if (ptrs->ra[idx].flags & MR_IS_OPAQUE_DATA)
     return (xdr_opaque (xdrs, *data, ptrs->ra[idx].MR_SIZE) ? MR_SUCCESS : MR_FAILURE);
-- 
2.43.0


From 8d3a75b1f0ff7adea28a77d8ab9faf8b83dac9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 29/46] fix: number of items of a tree is kept when nothing is
 added or deleted

---
 src/mr_ic.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 4478663..84bf13f 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -850,7 +850,8 @@ mr_ptr_t *
 mr_ic_rbtree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_rbtree_add (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  if (NULL != add)
+    ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
   return (add);
 }
 
@@ -858,7 +859,8 @@ mr_status_t
 mr_ic_rbtree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_rbtree_del (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  if (MR_SUCCESS == status)
+    ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
   return (status);
 }
 
@@ -964,7 +966,8 @@ mr_ptr_t *
 mr_ic_avltree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_avltree_add (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  if (NULL != add)
+    ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
   return (add);
 }
 
@@ -972,7 +975,8 @@ mr_status_t
 mr_ic_avltree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_avltree_del (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  if (MR_SUCCESS == status)
+    ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
   return (status);
 }
 
-- 
2.43.0


From ef1ade3ea8e3b18c6ab1da7017d959ed621cb305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 30/46] fix: zero key in a hash table is counted once

---
 src/mr_ic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 84bf13f..746d6ac 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -454,7 +454,8 @@ mr_ic_hash_index_add (mr_ic_t * ic, mr_ptr_t key)
       
       if (0 == key.intptr)
 	{
-	  ++ic->items_count;
+	  if (!ic->hash.zero_key)
+	    ++ic->items_count;
 	  ic->hash.zero_key = true;
 	  ic->hash.hash_table[count].intptr = 0;
 	  return (&ic->hash.hash_table[count]);
-- 
2.43.0


From 656ac704a69e44abd961ca6b79b54c5d74b3065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:45 +0000
Subject: [PATCH 31/46] fix: index over an empty array has no items

---
 src/mr_ic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 746d6ac..fcf3e0b 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -905,6 +905,7 @@ mr_ic_tree_index (mr_ic_t * ic, mr_ptr_t * rarray, size_t size)
   /* Add elements into the tree in the natuaral order. In case of equal elements only first will be added. */
   int i, count = size / sizeof (rarray[0]);
   mr_tree_reserve (&ic->tree, count, true);
+  ic->items_count = 0;
   for (i = 0; i < count; ++i)
     if (NULL == mr_ic_add (ic, rarray[i]))
       return (MR_FAILURE);
-- 
2.43.0


From 4d78282e053b2e737877fe83929e024cb6c70cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:47 +0000
Subject: [PATCH 32/46] fix: save fails if memory is exhausted at resolution of
 unions or void pointers

---
 src/mr_protos.h |  1 +
 src/mr_save.c   | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/mr_protos.h b/src/mr_protos.h
index ea006ca..4d5e617 100644
--- a/src/mr_protos.h
+++ b/src/mr_protos.h
@@ -628,6 +628,7 @@ TYPEDEF_STRUCT (mr_save_data_t, ATTRIBUTES ( , "save routines data and lookup st
 		(mr_union_discriminator_t *, mr_ra_ud, , "allocation of union discriminators",
 		{ .offset = offsetof (mr_save_data_t, mr_ra_ud_size) }, "offset"),
 		VOID (ssize_t, mr_ra_ud_alloc_size, , "allocated size of 'mr_ra_ud'"),
+		(mr_status_t, status, , "failure if resolution of unions and pointers is incomplete"),
 		)
 
 TYPEDEF_FUNC (int, mr_ra_printf_t, (mr_rarray_t *, mr_ptrdes_t *))
diff --git a/src/mr_save.c b/src/mr_save.c
index 777ced8..eefdb38 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -379,7 +379,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
 				   sizeof (mr_save_data->mr_ra_ud[0]));
   /* create a record for further lookups in parent nodes for discriminator value */
   if (NULL == ud)
-    return (NULL);
+    {
+      mr_save_data->status = MR_FAILURE;
+      return (NULL);
+    }
 
   memset (ud, 0, sizeof (*ud));
   /* this record is only for lookups and there is no guarantee that parents already have union resolution info */
@@ -388,6 +391,7 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   if ((ud_idx >> __CHAR_BIT__) >= (1UL << (__CHAR_BIT__ * (sizeof (MR_RA_UD_IDX_TYPE) - 1))))
     {
       MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_TOO_MANY_UD, MR_STRINGIFY_READONLY (MR_RA_UD_IDX_TYPE));
+      mr_save_data->status = MR_FAILURE;
       return (NULL);
     }
   ud->union_fdp = union_fdp; /* union field descriptor */
@@ -434,7 +438,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
       ud->discriminated_fdp = fdp;
       mr_ptr_t * add = mr_ic_add (&mr_save_data->union_discriminators, ud_idx);
       if (NULL == add)
-	return (NULL);
+	{
+	  mr_save_data->status = MR_FAILURE;
+	  return (NULL);
+	}
       if (add->uintptr == ud_idx)
 	/* union discriminator info was not found in the set so we add new record */
 	mr_save_data->mr_ra_ud_size += sizeof (mr_save_data->mr_ra_ud[0]);
@@ -448,7 +455,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   /* add union discriminator information to all parents which doesn't have it yet */
   for (idx = node; idx != parent; idx = mr_save_data->ptrs.ra[idx].parent)
     if (-1 == mr_ud_add (&mr_save_data->ptrs.ra[idx].save_params.ud_set, ud_find, mr_save_data))
-      return (NULL);
+      {
+	mr_save_data->status = MR_FAILURE;
+	return (NULL);
+      }
 
   return (fdp);
 }
@@ -1496,7 +1506,8 @@ mr_post_process (mr_save_data_t * mr_save_data)
 {
   mr_idx_t i, count = mr_save_data->ptrs.size / sizeof (mr_save_data->ptrs.ra[0]);
   for (i = 1; i < count; ++i)
-    resolve_void_ptr_and_strings (mr_save_data, i);
+    if (MR_SUCCESS != resolve_void_ptr_and_strings (mr_save_data, i))
+      mr_save_data->status = MR_FAILURE;
   i = 1;
   mr_ptrs_dfs (&mr_save_data->ptrs, mr_renumber_node, &i); /* enumeration of nodes should be done only after strings processing */
 }
@@ -1605,7 +1616,7 @@ mr_save (void * data, mr_fd_t * fdp)
   for (i = mr_save_data.ptrs.size / sizeof (mr_save_data.ptrs.ra[0]) - 1; i > 0; --i)
     mr_ud_free (&mr_save_data.ptrs.ra[i].save_params.ud_set);
 
-  if ((nodes_added == 0) && (mr_save_data.ptrs.ra != NULL))
+  if (((nodes_added == 0) || (mr_save_data.status != MR_SUCCESS)) && (mr_save_data.ptrs.ra != NULL))
     {
       MR_FREE (mr_save_data.ptrs.ra);
       mr_save_data.ptrs.ra = NULL;
-- 
2.43.0


From 5190b0ac35d36a2376961cf96b5139b48c9d97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 33/46] fix: XML document that can't be completed is released

---
 src/xml_save.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index 10ddccb..fc64b24 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -486,11 +486,20 @@ mr_xml2_save (mr_ra_ptrdes_t * ptrs)
       ptrs->res.data.ptr = doc;
       ptrs->res.type = NULL;
 
-      mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
+      if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
+	ptrs->ra[1].res.data.ptr = NULL;
+
+      mr_status_t status = mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
       
       if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
 	if (NULL != ptrs->ra[1].res.data.ptr)
 	  xmlDocSetRootElement (doc, ptrs->ra[1].res.data.ptr);
+
+      if (MR_SUCCESS != status)
+	{
+	  xmlFreeDoc (doc);
+	  doc = NULL;
+	}
     }
 
   if (mr_ra_str.data.ptr)
-- 
2.43.0


From 2399bcc6e4b52749aca8002840f039d714898426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 34/46] fix: XDR save into resizable array gives no array if it
 fails

---
 src/metaresc.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.h b/src/metaresc.h
index 8a667b8..d16357f 100644
--- a/src/metaresc.h
+++ b/src/metaresc.h
@@ -1098,7 +1098,13 @@
       mr_rarray_t _ra_ = { .alloc_size = 0, .MR_SIZE = 0, .data = { NULL }, .type = "uint8_t" }; \
       mr_xdrra_create (&_xdrs_, &_ra_, XDR_ENCODE);			\
       if (MR_SUCCESS != MR_SAVE_XDR (&_xdrs_, __VA_ARGS__))		\
-	MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	{								\
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	  if (_ra_.data.ptr)						\
+	    MR_FREE (_ra_.data.ptr);					\
+	  _ra_.data.ptr = NULL;						\
+	  _ra_.MR_SIZE = _ra_.alloc_size = 0;				\
+	}								\
       _ra_;								\
     })
 
-- 
2.43.0


From eba1f9a01d930da29ddd9c3886b8e76ee08a8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:14 +0000
Subject: [PATCH 35/46] fix: failed copy releases only memory that it has
 allocated

---
 src/mr_extra.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index fba7df5..9e7387e 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -187,6 +187,8 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
     if ((MR_TYPE_STRING == ptrs->ra[i].mr_type) && (ptrs->ra[i].res.type != NULL))
       MR_FREE (ptrs->ra[i].res.type);
     else if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) &&
+	     (ptrs->ra[i].idx != MR_NULL_IDX) &&
+	     !(ptrs->ra[i].flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) &&
 	     (ptrs->ra[i].first_child != MR_NULL_IDX))
       if (ptrs->ra[ptrs->ra[i].first_child].res.data.ptr != NULL)
 	{
-- 
2.43.0


From 57f899acd94465ce86afff3ad4c99bc2809ded5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 36/46] fix: number of items of a hash table is kept if it
 can't grow

---
 src/mr_ic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index fcf3e0b..a0468f1 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -552,7 +552,10 @@ mr_ic_hash_add (mr_ic_t * ic, mr_ptr_t key)
 	return (NULL);
       ++ic->items_count;
       if (MR_SUCCESS != mr_ic_hash_reindex (&dst_ic, ic))
-	return (NULL);
+	{
+	  --ic->items_count;
+	  return (NULL);
+	}
 
       mr_ic_free (ic);
       *ic = dst_ic;
-- 
2.43.0


From ff64798ce0236a552a14df62d2968e0da85fd817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 37/46] fix: YAML load fails if there is no memory for
 resolution of aliases

---
 src/yaml_load.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yaml_load.c b/src/yaml_load.c
index cc5a197..92b0d5b 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -1,7 +1,7 @@
 #include <yaml.h>
 #include <metaresc.h>
 
-static void
+static mr_status_t
 add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
@@ -14,7 +14,10 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 
   table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
-    return;
+    {
+      MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+      return (MR_FAILURE);
+    }
 
   for (i = 1; i < count; ++i)
     if (ptrs->ra[i].idx != MR_NULL_IDX)
@@ -35,6 +38,8 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     }
   
   MR_FREE (table);
+
+  return (MR_SUCCESS);
 }
 
 static mr_status_t
@@ -218,8 +223,9 @@ mr_yaml_load (char * str, mr_ra_ptrdes_t * ptrs)
     }
 
   if (MR_SUCCESS == status)
-    add_missed_crossrefs (ptrs);
-  else
+    status = add_missed_crossrefs (ptrs);
+
+  if (MR_SUCCESS != status)
     mr_free_load_values (ptrs);
 
   return (status);
-- 
2.43.0


From f8da398164118a543231f58a33e429812b44f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:19 +0000
Subject: [PATCH 38/46] fix: message id and log level out of range read beyond
 the tables of texts

---
 src/mr_message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_message.c b/src/mr_message.c
index d408e15..554eac1 100644
--- a/src/mr_message.c
+++ b/src/mr_message.c
@@ -64,7 +64,7 @@ mr_message_format (mr_message_id_t message_id, va_list args)
 	}
     }
 
-  if ((message_id <= sizeof (messages) / sizeof (messages[0])) && messages[message_id])
+  if ((message_id < sizeof (messages) / sizeof (messages[0])) && messages[message_id])
     format = messages[message_id];
 
   if (format)
@@ -99,7 +99,7 @@ mr_message (const char * file_name, const char * func_name, int line, mr_log_lev
 	{ MR_FOREACH (LL_INIT, ALL, TRACE, DEBUG, INFO, WARN, ERROR, FATAL, OFF) };
 
       if (((int)log_level >= 0)
-	  && ((int)log_level <= sizeof (log_level_str) / sizeof (log_level_str[0])))
+	  && ((int)log_level < sizeof (log_level_str) / sizeof (log_level_str[0])))
 	if (log_level_str[log_level])
 	  log_level_str_ = log_level_str[log_level];
 
-- 
2.43.0


From f8b0081db411803c19eb51b85d50a9bcd8efb31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 39/46] fix: growth of an array by a huge element wraps its
 size

---
 src/metaresc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index ff039e0..f695ffe 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -581,11 +581,13 @@ mr_rarray_allocate_element (void ** data, ssize_t * size, ssize_t * alloc_size,
   
   char * _data = *data;
   typeof (*size) _size = *size;
-  typeof (*size) new_size = _size + element_size;
+  typeof (*size) new_size;
+  if (__builtin_add_overflow (_size, element_size, &new_size))
+    return (NULL);
   if (new_size > *alloc_size)
     {
-      ssize_t realloc_size = new_size * 2;
-      if (realloc_size < new_size)
+      ssize_t realloc_size;
+      if (__builtin_mul_overflow (new_size, 2, &realloc_size))
 	realloc_size = new_size;
       _data = MR_REALLOC (_data, realloc_size);
       if (NULL == _data)
-- 
2.43.0


From 67b4b7bcd2b278a40474c1d1e51cea73f6061897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:07 +0000
Subject: [PATCH 40/46] fix: bit-fields within anonymous unions have their
 offset counted twice

---
 src/metaresc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index f695ffe..0a5aa8d 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -856,6 +856,7 @@ mr_get_td_by_name (char * type)
 }
 
 static void mr_init_struct (mr_td_t * tdp); /* recursive call */
+static void mr_fd_init_bitfield_params (mr_fd_t * fdp);
 /**
  * Preprocessign of a new type. Anonymous unions should be extracted into new independant types.
  * @param tdp pointer on a new type descriptor
@@ -909,6 +910,8 @@ mr_anon_unions_extract (mr_td_t * tdp)
 	    tdp_->size = 0;
 	    for (j = 0; j < fields_count - 1; ++j)
 	      {
+		/* offset of a bit-field is known only after a search for its bits in the outer structure */
+		mr_fd_init_bitfield_params (fields[j]);
 		/* offset of union memebers may differ from offset of anonymous union place holder */
 		if (fields[j]->offset != 0) /* MR_VOID and MR_END_ANON_UNION has zero offset */
 		  fdp->offset = fields[j]->offset;
@@ -1157,7 +1160,8 @@ mr_get_enum_by_name (char * name)
 static void
 mr_fd_init_bitfield_params (mr_fd_t * fdp)
 {
-  if (fdp->stype.mr_type != MR_TYPE_BITFIELD)
+  /* type of the field might be not detected yet */
+  if ((fdp->stype.mr_type != MR_TYPE_BITFIELD) && !fdp->stype.is_bitfield)
     return;
 
   int i, j;
-- 
2.43.0


From 5b0daf0f118de8fd41fd723b122f9ebe49c73bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:39 +0000
Subject: [PATCH 41/46] fix: CINIT text of a complex number with a unit
 imaginary part loses precision in C

Constant I has type complex float, so its sum with an integer constant is
rounded to float: '-100000000000000000 + I' initialized a complex double
or long double with another value. '1I' keeps the type of the real part.
---
 src/mr_stringify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index d574a12..592cc01 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -108,7 +108,7 @@ int mr_ra_printf_uint128_t_default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrde
     if (imag != 0)							\
       {									\
 	_ptrdes.data.ptr = &imag;					\
-	if (imag != 1)							\
+	if ((imag != 1) || (real != 0)) /* constant I is of type float in C */ \
 	  count += TRY_CATCH_THROW (mr_ra_printf_ ## SUFFIX (mr_ra_str, &_ptrdes)); \
 	count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, 'I'));	\
       }									\
-- 
2.43.0


From bf00f683f18ab786cb14a76b391fb3b67ca3261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 42/46] fix: JSON strings have escape sequences that JSON does
 not define

Characters \a and \v were written as '\a' and '\v', which parsers of JSON
refuse; they are written as \u0007 and \u000b now.
---
 src/json_save.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/json_save.c b/src/json_save.c
index 63e48e8..acec460 100644
--- a/src/json_save.c
+++ b/src/json_save.c
@@ -18,15 +18,15 @@
 #define JSON_BITMASK_DELIMITER " | "
 
 static int
-json_printf_char (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
+json_printf_unquoted_char (mr_rarray_t * mr_ra_str, unsigned char c)
 {
-  unsigned char c = *(unsigned char*)ptrdes->data.ptr;
   char mapped = mr_esc_char_map[c];
   int count = 0;
 
-  count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, '"'));
   if (c == '"')
     mapped = c;
+  if (('\a' == c) || ('\v' == c)) /* JSON has no such escape sequences */
+    mapped = 0;
   if (mapped)
     {
       count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, '\\'));
@@ -36,6 +36,28 @@ json_printf_char (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
     count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, c));
   else
     count += TRY_CATCH_THROW (mr_ra_printf (mr_ra_str, JSON_QUOTE_CHAR_PATTERN, c));
+  return (count);
+}
+
+static int
+json_printf_char (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
+{
+  int count = 0;
+
+  count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, '"'));
+  count += TRY_CATCH_THROW (json_printf_unquoted_char (mr_ra_str, *(unsigned char*)ptrdes->data.ptr));
+  count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, '"'));
+  return (count);
+}
+
+static int
+json_printf_quote_string (mr_rarray_t * mr_ra_str, char * str)
+{
+  int count = 0;
+
+  count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, '"'));
+  for (; *str; ++str)
+    count += TRY_CATCH_THROW (json_printf_unquoted_char (mr_ra_str, *str));
   count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, '"'));
   return (count);
 }
@@ -82,13 +104,13 @@ json_printf_char_array (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
   char buffer[ptrdes->MR_SIZE + 1];
   strncpy (buffer, ptrdes->data.ptr, ptrdes->MR_SIZE);
   buffer[ptrdes->MR_SIZE] = 0;
-  return (mr_ra_printf_quote_string (mr_ra_str, buffer, JSON_QUOTE_CHAR_PATTERN));
+  return (json_printf_quote_string (mr_ra_str, buffer));
 }
 
 static int
 json_printf_string (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
 {
-  return (mr_ra_printf_quote_string (mr_ra_str, *(char**)ptrdes->data.ptr, JSON_QUOTE_CHAR_PATTERN));
+  return (json_printf_quote_string (mr_ra_str, *(char**)ptrdes->data.ptr));
 }
 
 static int
-- 
2.43.0


From c345c6b205c9ed427175c09ef5f751a5480d3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:28 +0000
Subject: [PATCH 43/46] fix: JSON numbers that are not finite are not JSON

Words 'inf', '-inf' and 'nan' were written without quotes, which parsers of
JSON refuse. They are written as strings, as complex numbers are; the loader
takes numbers in quotes already.
---
 src/json_save.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/json_save.c b/src/json_save.c
index acec460..6cde652 100644
--- a/src/json_save.c
+++ b/src/json_save.c
@@ -62,6 +62,24 @@ json_printf_quote_string (mr_rarray_t * mr_ra_str, char * str)
   return (count);
 }
 
+/* JSON has no numbers for NaN and infinity */
+#define JSON_PRINTF_FLOAT(TYPE)						\
+  static int json_printf_ ## TYPE (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes) \
+  {									\
+    int count = 0;							\
+    bool is_number = __builtin_isfinite (*(TYPE*)ptrdes->data.ptr);	\
+    if (!is_number)							\
+      count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, '"'));	\
+    count += TRY_CATCH_THROW (mr_ra_printf_ ## TYPE (mr_ra_str, ptrdes)); \
+    if (!is_number)							\
+      count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, '"'));	\
+    return (count);							\
+  }
+
+JSON_PRINTF_FLOAT (float)
+JSON_PRINTF_FLOAT (double)
+JSON_PRINTF_FLOAT (long_double_t)
+
 static int
 json_printf_complex_float (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
 {
@@ -203,11 +221,11 @@ static mr_ra_printf_t json_save_tbl[MR_TYPE_LAST] = {
   [MR_TYPE_UINT64] = mr_ra_printf_uint64_t,
   [MR_TYPE_INT128] = mr_ra_printf_int128_t,
   [MR_TYPE_UINT128] = mr_ra_printf_uint128_t,
-  [MR_TYPE_FLOAT] = mr_ra_printf_float,
+  [MR_TYPE_FLOAT] = json_printf_float,
   [MR_TYPE_COMPLEX_FLOAT] = json_printf_complex_float,
-  [MR_TYPE_DOUBLE] = mr_ra_printf_double,
+  [MR_TYPE_DOUBLE] = json_printf_double,
   [MR_TYPE_COMPLEX_DOUBLE] = json_printf_complex_double,
-  [MR_TYPE_LONG_DOUBLE] = mr_ra_printf_long_double_t,
+  [MR_TYPE_LONG_DOUBLE] = json_printf_long_double_t,
   [MR_TYPE_COMPLEX_LONG_DOUBLE] = json_printf_complex_long_double_t,
   [MR_TYPE_CHAR] = json_printf_char,
   [MR_TYPE_CHAR_ARRAY] = json_printf_char_array,
-- 
2.43.0


From b872aff416207c11ab00a042563b2f0a7c0845e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:51 +0000
Subject: [PATCH 44/46] fix: XDR stream over a resizable array accepted
 positions behind its end

---
 src/xdr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index 89dec9c..213fe58 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -132,6 +132,11 @@ xdrra_getpostn (__const XDR * xdrs)
 static bool_t
 xdrra_setpostn (XDR * xdrs, u_int pos)
 {
+  mr_rarray_t * ra = (mr_rarray_t*)xdrs->x_private;
+
+  if ((NULL == ra) || (ra->MR_SIZE < pos))
+    return (false);
+
   xdrs->x_handy = pos;
   return (true);
 }
-- 
2.43.0


From 1e1fc6060ae6edb14d61f9e0bf0e7f61bed135af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:51 +0000
Subject: [PATCH 45/46] fix: XDR stream over a resizable array did not advance
 after inline access

---
 src/xdr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index 213fe58..6b5f8c4 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -159,7 +159,9 @@ xdrra_inline (XDR * xdrs, u_int len)
     return (NULL);
 
   char * base = ra->data.ptr;
-  return ((int32_t*)&base[xdrs->x_handy]);
+  int32_t * data = (int32_t*)&base[xdrs->x_handy];
+  xdrs->x_handy += len;
+  return (data);
 }
 
 /**
-- 
2.43.0


From 0be8f01a9e661f4cb38df6aa6fe449ed9f51dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:58 +0000
Subject: [PATCH 46/46] fix: union discriminators of 128 bits were truncated
 for overrides

---
 src/mr_save.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index eefdb38..3c4351b 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -41,10 +41,16 @@ mr_union_discriminator_by_name (mr_td_t * tdp, char * name)
 }
 
 static inline mr_fd_t *
-mr_ud_override_value (mr_ic_t * ud_overrides, uint64_t value)
+mr_ud_override_value (mr_ic_t * ud_overrides, mr_uintmax_t discriminator)
 {
+  uint64_t value = discriminator;
+
   if (NULL == ud_overrides)
     return (NULL);
+
+  /* values of overrides are 64 bits wide, wider discriminators have no override */
+  if ((value != discriminator) && ((mr_uintmax_t)(mr_intmax_t)(int64_t)value != discriminator))
+    return (NULL);
   
   uintptr_t key = (uintptr_t)&value - offsetof (mr_ud_override_t, value); /* (mr_ud_override_t[]){{ .value = value }}; */
   mr_ptr_t * result = mr_ic_find (ud_overrides, key);
-- 
2.43.0

