From 2dc319f3709d520dd4d0e1636b632014fd75733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 001/161] fix: unquote: do not read past the end of a string
 that ends inside an escape

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 1e151c3..f2bc4df 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -255,7 +255,7 @@ void onion_unquote_inplace(char *str) {
   char *w = str;
   char tmp[3] = { 0, 0, 0 };
   while (*r) {
-    if (*r == '%') {
+    if (*r == '%' && r[1] && r[2]) {    // a truncated escape is just data
       r++;
       tmp[0] = *r++;
       tmp[1] = *r;
-- 
2.43.0


From 4b31ef76c1af23726bc47e65f5560ca10b293bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 002/161] fix: quote: keep the escaped text and its terminator
 inside the given buffer

---
 src/onion/codecs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index f2bc4df..77e5651 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -301,13 +301,13 @@ int onion_quote(const char *str, char *res, int maxlength) {
   int l = strlen(str);
   int i;
   for (i = 0; i < l; i++) {
-    if (i >= maxlength)
+    if (nl + 1 >= maxlength)
       break;
     char c = str[i];
     if (is_alnum(c))
       res[nl++] = c;
     else {
-      if (i + 2 >= maxlength)
+      if (nl + 3 >= maxlength)
         break;
 
       res[nl++] = '%';
-- 
2.43.0


From e19e7dd978c34032398e7fea59178d676ac5563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 003/161] fix: base64 decode: stay inside the text and the
 table, count padding across blanks

---
 src/onion/codecs.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 77e5651..72ae3b6 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -73,6 +73,8 @@ static u_int8_t onion_base64_decode_get_next(const char **I){
   }
   // ONION_DEBUG("GET %c", (char)c);
   (*I)++;
+  if (c >= sizeof(db64))
+    return 255;
   return db64[c];
 }
 
@@ -100,10 +102,12 @@ char *onion_base64_decode(const char *orig, int *length) {
   }
 
   int ol = 0;
+  int pad = 0;                  // '=' at the end
   for (I=orig; I <= endI; ++I){
     const char c = *I;
     if (c != '\n' && c != '\r' && c != ' '){
       ol++;
+      pad = (c == '=') ? pad + 1 : 0;
     }
   }
 
@@ -118,12 +122,13 @@ char *onion_base64_decode(const char *orig, int *length) {
 
   if (ol == 0){
     ONION_DEBUG("Empty base64 string.");
+    ret[0] = 0;
     return ret;
   }
 
   I = orig;
   char *J = ret;
-  while (I < endI){
+  for (; ol > 0; ol -= 4){      // Exactly the groups counted, there may be blanks after the last one.
     // ONION_DEBUG("I %p endI %p", I, endI);
     const u_int8_t c1 = onion_base64_decode_get_next(&I);
     const u_int8_t c2 = onion_base64_decode_get_next(&I);
@@ -140,10 +145,9 @@ char *onion_base64_decode(const char *orig, int *length) {
 
   // ONION_DEBUG("Two end? %c %c // ll %d, %d", *(I - 2), *(I - 1), max_length,  J - ret);
   int ll = J - ret;
-  if (*(I - 2) == '=')
-    ll = ll - 2;
-  else if (*(I - 1) == '=')
-    ll = ll - 1;
+  if (pad > 2)
+    pad = 2;
+  ll = ll - pad;
 
   ret[ll] = 0;
 
-- 
2.43.0


From b13de49124c368d874b1aed114807d219da4765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 004/161] fix: C quote: write carriage returns as such and
 count the space each escape takes

---
 src/onion/codecs.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 72ae3b6..0aa5e3e 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -349,9 +349,24 @@ char *onion_c_quote_new(const char *str) {
 char *onion_c_quote(const char *str, char *ret, int l) {
   const unsigned char *p = (const unsigned char *)str;
   char *r = ret;
+  if (l < 3) {                  // not even the quotes fit
+    if (l > 0)
+      *r = '\0';
+    return ret;
+  }
   *r++ = '"';
   l -= 3;                       // both " at start and end, and \0
   while (*p != '\0') {
+    int need = 1;
+    if (*p == '\n')
+      need = 5;
+    else if (*p == '\r' || *p == '"' || *p == '\\' || *p == '\t')
+      need = 2;
+    else if (*p > 127)
+      need = 4;
+    if (l < need)               // does not fit!
+      break;
+    l -= need;
     if (*p == '\n') {
       *r = '\\';
       r++;
@@ -365,7 +380,7 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     } else if (*p == '\r') {
       *r = '\\';
       r++;
-      *r = 'n';
+      *r = 'r';
     } else if (*p == '"') {
       *r = '\\';
       r++;
@@ -380,10 +395,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
       *r = 't';
     } else if (*p > 127) {
       int c = *p;
-      if (l < 4) {              // does not fit!
-        *r = '\0';
-        return ret;
-      }
       *r = '\\';
       r++;
       *r = '0' + ((c >> 6) & 0x03);
@@ -396,11 +407,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     }
     r++;
     p++;
-    l--;
-    if (l <= 0) {
-      *r = '\0';
-      break;
-    }
   }
   *r++ = '"';
   *r++ = '\0';
-- 
2.43.0


From f0da46086f60e07f171de3a7a1ed07f607725a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 005/161] fix: html_quote_dup: copy the text when nothing needs
 quoting

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 0aa5e3e..3f8f3bf 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -535,7 +535,7 @@ const char *onion_html_quote_dup(const char *str) {
   if (quostr != NULL)
     return quostr;
   else
-    return onion_low_strdup(quostr);
+    return onion_low_strdup(str);
 }
 
 /**
-- 
2.43.0


From 777376e479478e728b8ade0c3bef7aee82459531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:17 +0000
Subject: [PATCH 006/161] fix: JSON unquote: stop at the end of an unterminated
 string

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 3f8f3bf..786c384 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -705,7 +705,7 @@ ssize_t onion_json_unquote_add(onion_block * block, const char *str) {
         continue;
       }
     }
-    if (!eos && !*data) {       // \0, expecting \" as eos
+    if (!*data) {               // \0 inside an escape or while expecting \" as eos
       ONION_DEBUG("Expected \" got eof");
       return -1;
     }
-- 
2.43.0


From 2c298880cee8b9cc9d87d7b0f0051233abb34a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 007/161] fix: dict remove: with repeated keys remove the node
 that was moved, not another one

---
 src/onion/dict.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index fbbe6e5..0c9f0f1 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -388,18 +388,30 @@ static void onion_dict_node_data_free(onion_dict_node_data * data) {
   }
 }
 
-/// AA tree remove the node
+/**
+ * @short AA tree remove the node
+ *
+ * If end is 0 removes a node with the given key, if it is -1 the first node of the
+ * subtree, if 1 the last one. The key is not enough to tell nodes apart as there may
+ * be several with the same one.
+ */
 static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
                                                onion_dict_node * node,
-                                               const char *key) {
+                                               const char *key, int end) {
   if (!node)
     return NULL;
-  int cmp = d->cmp(key, node->data.key);
+  int cmp;
+  if (end < 0)
+    cmp = node->left ? -1 : 0;
+  else if (end > 0)
+    cmp = node->right ? 1 : 0;
+  else
+    cmp = d->cmp(key, node->data.key);
   if (cmp < 0) {
-    node->left = onion_dict_node_remove(d, node->left, key);
+    node->left = onion_dict_node_remove(d, node->left, key, end);
     //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
   } else if (cmp > 0) {
-    node->right = onion_dict_node_remove(d, node->right, key);
+    node->right = onion_dict_node_remove(d, node->right, key, end);
     //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
   } else {                      // Real remove
     //ONION_DEBUG("Remove here %p", node);
@@ -415,7 +427,7 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
       //ONION_DEBUG("Set data from %p[%s] to %p[already deleted %s]",t,t->data.key, node, key);
       memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
       t->data.flags = 0;        // No double free later, please
-      node->right = onion_dict_node_remove(d, node->right, t->data.key);
+      node->right = onion_dict_node_remove(d, node->right, NULL, -1);
       //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
     } else {
       onion_dict_node *t = node->left;  // Get prev key node
@@ -424,7 +436,7 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
 
       memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
       t->data.flags = 0;        // No double free later, please
-      node->left = onion_dict_node_remove(d, node->left, t->data.key);
+      node->left = onion_dict_node_remove(d, node->left, NULL, 1);
       //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
     }
   }
@@ -449,7 +461,7 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
  * Returns if it removed any node.
  */
 int onion_dict_remove(onion_dict * dict, const char *key) {
-  dict->root = onion_dict_node_remove(dict, dict->root, key);
+  dict->root = onion_dict_node_remove(dict, dict->root, key, 0);
   return 1;
 }
 
-- 
2.43.0


From f137763846c0d84ddfc963801dd1243286c9c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 008/161] fix: dict remove: tell whether the key was there

---
 src/onion/dict.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 0c9f0f1..3955cdd 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -461,6 +461,8 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
  * Returns if it removed any node.
  */
 int onion_dict_remove(onion_dict * dict, const char *key) {
+  if (!onion_dict_find_node(dict, dict->root, key, NULL))
+    return 0;
   dict->root = onion_dict_node_remove(dict, dict->root, key, 0);
   return 1;
 }
-- 
2.43.0


From e53528a4900bf2bbfb63cc81eb9bd11034427647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 009/161] fix: dict hard dup: keep the letter case rule of the
 original

---
 src/onion/dict.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 3955cdd..ac8f190 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -172,6 +172,7 @@ void onion_dict_hard_dup_helper(onion_dict * dict, const char *key,
  */
 onion_dict *onion_dict_hard_dup(onion_dict * dict) {
   onion_dict *d = onion_dict_new();
+  d->cmp = dict->cmp;
   onion_dict_preorder(dict, onion_dict_hard_dup_helper, d);
   return d;
 }
-- 
2.43.0


From dea4003c06efa4ff817b37575bc6fb63ca81edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 010/161] fix: dict from JSON: keys have to be quoted, do not
 read past the end of the text

---
 src/onion/dict.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index ac8f190..717af9a 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -767,6 +767,10 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
   onion_block *value = onion_block_new();
   while (*data != '}') {
     // Get Key
+    if (*data != '"') {         // Includes \0
+      ONION_DEBUG("Expected \" got %c", *data);
+      goto error;
+    }
     ssize_t read_bytes = onion_json_unquote_add(key, data);
     if (read_bytes < 0)
       goto error;
-- 
2.43.0


From acfb070dbd05564fb3b42e717e211f02a07a3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 011/161] fix: dict get_dict: nothing is found in a missing
 dictionary, as with get

---
 src/onion/dict.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 717af9a..8841b0c 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -488,6 +488,8 @@ const char *onion_dict_get(const onion_dict * dict, const char *key) {
  * @ingroup dict
  */
 onion_dict *onion_dict_get_dict(const onion_dict * dict, const char *key) {
+  if (!dict)                    // Get from null dicts, returns null data.
+    return NULL;
   const onion_dict_node *r;
   r = onion_dict_find_node(dict, dict->root, key, NULL);
   if (r) {
-- 
2.43.0


From 66cca5667208f8707c86995397018abe4e070085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 012/161] fix: ptr_list remove: look at the rest of the list
 and free the removed element

---
 src/onion/ptr_list.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/onion/ptr_list.c b/src/onion/ptr_list.c
index 4b86b86..53fd015 100644
--- a/src/onion/ptr_list.c
+++ b/src/onion/ptr_list.c
@@ -53,9 +53,13 @@ onion_ptr_list *onion_ptr_list_add(onion_ptr_list * l, void *ptr) {
 onion_ptr_list *onion_ptr_list_remove(onion_ptr_list * l, void *ptr) {
   if (!l)
     return l;
-  if (ptr == l->ptr)
-    return l->next;
-  return onion_ptr_list_remove(l, ptr);
+  if (ptr == l->ptr) {
+    onion_ptr_list *next = l->next;
+    onion_low_free(l);
+    return next;
+  }
+  l->next = onion_ptr_list_remove(l->next, ptr);
+  return l;
 }
 
 /**
-- 
2.43.0


From d2fb5fb410b5cba53411cfd6115e27bb21f369d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 013/161] fix: ptr_list filter: free dropped elements with the
 onion allocator

---
 src/onion/ptr_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/ptr_list.c b/src/onion/ptr_list.c
index 53fd015..59de3b9 100644
--- a/src/onion/ptr_list.c
+++ b/src/onion/ptr_list.c
@@ -104,7 +104,7 @@ onion_ptr_list *onion_ptr_list_filter(onion_ptr_list * l,
     l->next = next;
     return l;
   } else {
-    free(l);
+    onion_low_free(l);
     return next;
   }
 }
-- 
2.43.0


From 977d8cd5750999c81b8aeab140b29c1f0c61c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:18 +0000
Subject: [PATCH 014/161] fix: request parser: check the token size before each
 byte, also when they come in small packets

---
 src/onion/request_parser.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e6aa933..1361f47 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -104,9 +104,6 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
 
   char c = data->data[data->pos++];
   while (!is_space(c)) {
-    token->str[token->pos++] = c;
-    if (data->pos >= data->size)
-      return OCS_NEED_MORE_DATA;
     if (token->pos >= (sizeof(token->str) - 1)) {
       char tmp[16];
       strncpy(tmp, token->str, 16);
@@ -116,6 +113,9 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
            token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    token->str[token->pos++] = c;
+    if (data->pos >= data->size)
+      return OCS_NEED_MORE_DATA;
     c = data->data[data->pos++];
   }
   int ret;
@@ -146,16 +146,18 @@ int token_read_until(onion_token * token, onion_buffer * data, char delimiter) {
 
   char c = data->data[data->pos++];
   while (c != delimiter && c != '\n') {
-    if (c != '\r')              // Just ignore it here
+    if (c != '\r') {            // Just ignore it here
+      if (token->pos >= (sizeof(token->str) - 1)) {
+        token->str[token->pos] = '\0';
+        ONION_ERROR("Token too long to parse it. Part read is %s (%d bytes)",
+                    token->str, token->pos);
+        return OCS_INTERNAL_ERROR;
+      }
       token->str[token->pos++] = c;
+    }
     if (data->pos >= data->size) {
       return OCS_NEED_MORE_DATA;
     }
-    if (token->pos >= (sizeof(token->str) - 1)) {
-      ONION_ERROR("Token too long to parse it. Part read is %s (%d bytes)",
-                  token->str, token->pos);
-      return OCS_INTERNAL_ERROR;
-    }
     c = data->data[data->pos++];
   }
   int ret = STRING;
-- 
2.43.0


From 53d8d5c0ab18a3067f9406685f7d4dbdd02378a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:18 +0000
Subject: [PATCH 015/161] fix: request parser: empty header values, and
 continuation lines after CRLF

---
 src/onion/request_parser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 1361f47..3775384 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -214,10 +214,9 @@ int token_read_LINE(onion_token * token, onion_buffer * data) {
 
     c = data->data[data->pos++];
   }
-  if (token->str[token->pos - 1] == '\r')
-    token->str[token->pos - 1] = '\0';
-  else
-    token->str[token->pos] = '\0';
+  if (token->pos > 0 && token->str[token->pos - 1] == '\r')
+    token->pos--;               // A continuation line goes after the last real character
+  token->str[token->pos] = '\0';
   //token->pos=0;
 
   //ONION_DEBUG0("Found LINE token %s",token->str);
-- 
2.43.0


From e7aa9c365fa8fc4203b43a624829739b17091de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:18 +0000
Subject: [PATCH 016/161] fix: request parser: do not loop forever on a NUL
 byte after a header

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 3775384..e76ddec 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -749,7 +749,7 @@ parse_headers_VALUE_multiline_if_space(onion_request * req,
                                        onion_buffer * data) {
   char peek = token_peek_next_char(data);
   ONION_DEBUG0("Multiline if space, peek %d", peek);
-  if (peek == 0) {
+  if (data->pos >= data->size) {        // Need to see the next char
     req->parser = parse_headers_VALUE_multiline_if_space;
     return OCS_NEED_MORE_DATA;
   }
-- 
2.43.0


From f6167956759d76b677b8c03841745614a7f085b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:18 +0000
Subject: [PATCH 017/161] fix: request parser: continuation lines stay inside
 the token, and a blank one ends there

---
 src/onion/request_parser.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e76ddec..511427e 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -726,17 +726,24 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
 static onion_connection_status parse_headers_VALUE(onion_request * req,
                                                    onion_buffer * data);
 
+static onion_connection_status
+parse_headers_VALUE_multiline_if_space(onion_request * req,
+                                       onion_buffer * data);
+
 static onion_connection_status
 parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
                                             onion_buffer * data) {
   while (data->pos < data->size) {
     char peek = data->data[data->pos++];
-    if (peek != '\t' && peek != ' ') {
+    if (peek == '\n') {         // Blank line, adds nothing
+      req->parser = parse_headers_VALUE_multiline_if_space;
+      return OCS_NEED_MORE_DATA;
+    }
+    if (peek != '\t' && peek != ' ' && peek != '\r') {
       onion_token *token = req->parser_data;
-      if (peek == '\n')
-        return OCS_NEED_MORE_DATA;
-      token->str[token->pos++] = ' ';
-      token->str[token->pos++] = peek;
+      data->pos--;              // parse_headers_VALUE reads it again
+      if (token->pos < (sizeof(token->str) - 1))
+        token->str[token->pos++] = ' ';
       req->parser = parse_headers_VALUE;
       return parse_headers_VALUE(req, data);
     }
-- 
2.43.0


From 1d18d4848a9dac65cae142444a40e13dc1829d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:18 +0000
Subject: [PATCH 018/161] fix: request parser: keep a line ending split between
 packets

---
 src/onion/request_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 511427e..6ba1431 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -300,7 +300,6 @@ int token_read_NEW_LINE(onion_token * token, onion_buffer * data) {
     else
       res = OCS_INTERNAL_ERROR;
   }
-  token->pos = 0;
 
   return res;
 }
-- 
2.43.0


From 9a379784dcb480ea7f56f60957daa40575ce1f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:18 +0000
Subject: [PATCH 019/161] fix: request parser: requests without version have a
 query dictionary too

---
 src/onion/request_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 6ba1431..1bbf649 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -873,6 +873,8 @@ static onion_connection_status parse_headers_URL(onion_request * req,
   ONION_DEBUG0("URL path is %s", req->fullpath);
 
   if (res == STRING_NEW_LINE) { // Old HTTP/0? or lazy user, dont set the HTTP version, straigth new line.
+    if (!req->GET)
+      req->GET = onion_dict_new();
     req->parser = parse_headers_KEY;
     return parse_headers_KEY(req, data);
   } else {
-- 
2.43.0


From f0523099e3c25cd8afa5524df2000bd8932305c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:11 +0000
Subject: [PATCH 020/161] fix: request parser: a form dropped half way is freed
 only once

---
 src/onion/request_parser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 1bbf649..9dcf8be 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -715,7 +715,8 @@ static onion_connection_status parse_POST_urlencode(onion_request * req,
 
   req->POST = onion_dict_new();
   onion_request_parse_query_to_dict(req->POST, token->extra);
-  token->extra = NULL;          // At query to dict, it keeps the pointer and free it when POST is freed.
+  req->free_list = onion_ptr_list_add(req->free_list, token->extra);    // POST points to it. Free when the request is freed.
+  token->extra = NULL;
 
   return OCS_REQUEST_READY;
 }
@@ -1050,8 +1051,6 @@ static onion_connection_status prepare_POST(onion_request * req) {
     assert(token->extra == NULL);
     token->extra = onion_low_scalar_malloc(cl + 1);     // Cl + \0
     token->extra_size = cl;
-    req->free_list = onion_ptr_list_add(req->free_list, token->extra);  // Free when the request is freed.
-
     req->parser = parse_POST_urlencode;
     return OCS_NEED_MORE_DATA;
   }
-- 
2.43.0


From e23116fbc31db7357e98df8b910290d31fe351af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:11 +0000
Subject: [PATCH 021/161] fix: request parser: refuse negative, overflowing or
 unparsable body lengths

---
 src/onion/request_parser.c | 44 +++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 9dcf8be..d34fd29 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -23,6 +23,7 @@
 
 #include <string.h>
 #include <stdlib.h>
+#include <stdint.h>
 #include <libgen.h>
 #include <fcntl.h>
 #include <unistd.h>
@@ -93,6 +94,7 @@ typedef struct onion_multipart_buffer_s {
 
 static void onion_request_parse_query_to_dict(onion_dict * dict, char *p);
 static int onion_request_parse_query(onion_request * req);
+static int parse_content_length(const char *p, size_t * length);
 static onion_connection_status prepare_POST(onion_request * req);
 static onion_connection_status prepare_CONTENT_LENGTH(onion_request * req);
 static onion_connection_status prepare_PUT(onion_request * req);
@@ -812,8 +814,8 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
     if ((req->flags & OR_METHODS) == OR_PUT)
       return prepare_PUT(req);
     if (onion_request_get_header(req, "Content-Length")) {      // Some length, not POST, get data.
-      int n = atoi(onion_request_get_header(req, "Content-Length"));
-      if (n > 0)
+      size_t n = 0;
+      if (!parse_content_length(onion_request_get_header(req, "Content-Length"), &n) || n > 0)
         return prepare_CONTENT_LENGTH(req);
     }
 
@@ -1023,6 +1025,26 @@ static void onion_request_parse_query_to_dict(onion_dict * dict, char *p) {
   }
 }
 
+/**
+ * @short Reads a Content-Length value: only digits, and not bigger than a size can be.
+ *
+ * @returns 1 if ok, 0 if it is no valid length.
+ */
+static int parse_content_length(const char *p, size_t * length) {
+  size_t l = 0;
+  if (*p < '0' || *p > '9')
+    return 0;
+  for (; *p >= '0' && *p <= '9'; p++) {
+    if (l > (SIZE_MAX / 2 - (*p - '0')) / 10)
+      return 0;
+    l = l * 10 + (*p - '0');
+  }
+  while (is_space(*p))
+    p++;
+  *length = l;
+  return *p == '\0';
+}
+
 /**
  * @short Prepares the POST
  */
@@ -1036,7 +1058,11 @@ static onion_connection_status prepare_POST(onion_request * req) {
     ONION_ERROR("I need the content size header to support POST data");
     return OCS_INTERNAL_ERROR;
   }
-  size_t cl = atol(content_size);
+  size_t cl;
+  if (!parse_content_length(content_size, &cl)) {
+    ONION_ERROR("Bad Content-Length");
+    return OCS_INTERNAL_ERROR;
+  }
   if (cl == 0)
     return OCS_REQUEST_READY;
 
@@ -1103,7 +1129,11 @@ static onion_connection_status prepare_CONTENT_LENGTH(onion_request * req) {
     ONION_ERROR("I need the Content-Length header to get data");
     return OCS_INTERNAL_ERROR;
   }
-  size_t cl = atol(content_size);
+  size_t cl;
+  if (!parse_content_length(content_size, &cl)) {
+    ONION_ERROR("Bad Content-Length");
+    return OCS_INTERNAL_ERROR;
+  }
 
   if (cl > req->connection.listen_point->server->max_post_size) {
     ONION_ERROR("Trying to set more data at server than allowed %d",
@@ -1134,7 +1164,11 @@ static onion_connection_status prepare_PUT(onion_request * req) {
     ONION_ERROR("I need the Content-Length header to get data");
     return OCS_INTERNAL_ERROR;
   }
-  size_t cl = atol(content_size);
+  size_t cl;
+  if (!parse_content_length(content_size, &cl)) {
+    ONION_ERROR("Bad Content-Length");
+    return OCS_INTERNAL_ERROR;
+  }
 
   if (cl > req->connection.listen_point->server->max_file_size) {
     ONION_ERROR("Trying to PUT a file bigger than allowed size");
-- 
2.43.0


From c096f8ec902689eacbf91b74c25fcbb152ed3d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:11 +0000
Subject: [PATCH 022/161] fix: request parser: multipart names are copied and
 accounted with their real length

---
 src/onion/request_parser.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index d34fd29..00f92a1 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -571,8 +571,8 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
   const char *name;
   name = strstr(token->str, "filename=");
   if (name) {
-    int l = strlen(token->str) - 9;
-    if (l > multipart->post_total_size) {
+    size_t l = strlen(name + 9);
+    if (l + 1 > multipart->post_total_size) {
       ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
       return OCS_INTERNAL_ERROR;
     }
@@ -580,28 +580,30 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
     memcpy(multipart->filename, name + 9, l);
     multipart->filename[l] = 0;
     multipart->data = multipart->data + l + 1;
-    if (*multipart->filename == '"' && multipart->filename[l - 2] == '"') {
-      multipart->filename[l - 2] = '\0';
+    multipart->post_total_size -= l + 1;
+    if (l >= 2 && *multipart->filename == '"'
+        && multipart->filename[l - 1] == '"') {
+      multipart->filename[l - 1] = '\0';
       multipart->filename++;
     }
     ONION_DEBUG0("Set filename '%s'", multipart->filename);
   } else {
     name = strstr(token->str, "name=");
     if (name) {
-      int l = strlen(token->str) - 5;
-      if (l > multipart->post_total_size) {
+      size_t l = strlen(name + 5);
+      if (l + 1 > multipart->post_total_size) {
         ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
         return OCS_INTERNAL_ERROR;
       }
       multipart->name = multipart->data;
       memcpy(multipart->name, name + 5, l);
       multipart->name[l] = 0;
-      if (*multipart->name == '"' && multipart->name[l - 2] == '"') {
-        l -= 2;
-        multipart->name[l] = '\0';
+      multipart->data = multipart->data + l + 1;
+      multipart->post_total_size -= l + 1;
+      if (l >= 2 && *multipart->name == '"' && multipart->name[l - 1] == '"') {
+        multipart->name[l - 1] = '\0';
         multipart->name++;
       }
-      multipart->data = multipart->name + l + 1;
       ONION_DEBUG0("Set field name '%s'", multipart->name);
     }
   }
@@ -1095,11 +1097,11 @@ static onion_connection_status prepare_POST(onion_request * req) {
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
-                       mp_token_size + 2);
+                       mp_token_size + 4 + 1);  // \r\n-- before, \0 after
   assert(token->extra == NULL);
   token->extra = (char *)multipart;
 
-  multipart->boundary = (char *)multipart + sizeof(onion_multipart_buffer) + 1;
+  multipart->boundary = (char *)multipart + sizeof(onion_multipart_buffer);
   multipart->size = mp_token_size + 4;
   multipart->pos = 2;           // First boundary already have [\r]\n readen
   multipart->post_total_size = cl;
-- 
2.43.0


From 4ac2bcb644dd85889820b10d1d424028c9b78de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:11 +0000
Subject: [PATCH 023/161] fix: request parser: refuse multipart fields without
 a name

---
 src/onion/request_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 00f92a1..1607bbf 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -646,6 +646,10 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     ONION_DEBUG("New line");
     onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
     multipart->pos = 0;
+    if (!multipart->name) {
+      ONION_ERROR("Multipart field without name");
+      return OCS_INTERNAL_ERROR;
+    }
 
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
-- 
2.43.0


From ed1d70598cc4a61f22a7d3495a3ab24c113b0c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:11 +0000
Subject: [PATCH 024/161] fix: request parser: multipart field values keep the
 bytes that look like a boundary, and their last new line

---
 src/onion/request_parser.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 1607bbf..a499b6d 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -501,20 +501,22 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
   char *d = &multipart->data[token->pos];
 
   for (; data->pos < data->size; data->pos++) {
-    if (multipart->pos == 0 && *p == '\n')      // \r is optional.
-      multipart->pos = 1;
+    if (multipart->pos == 0) {
+      if (*p == '\n')           // \r is optional.
+        multipart->startpos = multipart->pos = 1;
+      else
+        multipart->startpos = 0;
+    }
     if (*p == multipart->boundary[multipart->pos]) {    // Check boundary
       multipart->pos++;
       if (multipart->pos == multipart->size) {
         multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
-        if (token->pos > 0 && *(d - 1) == '\n') {
-          token->pos--;
-          d--;
+        if (multipart->post_total_size == 0) {
+          ONION_ERROR("No space left for this post.");
+          return OCS_INTERNAL_ERROR;
         }
-        if (token->pos > 0 && *(d - 1) == '\r')
-          d--;
-
+        multipart->post_total_size--;
         *d = '\0';
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
         onion_dict_add(req->POST, multipart->name, multipart->data, 0);
@@ -525,15 +527,18 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
       }
     } else {                    // No boundary
       if (multipart->pos != 0) {        // Maybe i was checking before... so I need to copy as much as I wrongly thought I got.
-        if (multipart->post_total_size <= multipart->pos) {
+        size_t r = multipart->pos - multipart->startpos;
+        if (multipart->post_total_size <= r) {
           ONION_ERROR("No space left for this post.");
           return OCS_INTERNAL_ERROR;
         }
-        multipart->post_total_size -= multipart->pos;
-        memcpy(d, p, multipart->pos);
-        d += multipart->pos;
-        token->pos += multipart->pos;
-        multipart->pos = 0;
+        multipart->post_total_size -= r;
+        memcpy(d, multipart->boundary + multipart->startpos, r);
+        d += r;
+        token->pos += r;
+        multipart->startpos = multipart->pos = 0;
+        data->pos--;            // Ignore read charater, try again. May be start of boundary.
+        continue;
       }
       if (multipart->post_total_size <= 0) {
         ONION_ERROR("No space left for this post.");
-- 
2.43.0


From 31c442bbbdaf2ae7b305ea449aa631dbe025bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:11 +0000
Subject: [PATCH 025/161] fix: request parser: count exactly the bytes stored
 in files against the limit

---
 src/onion/request_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index a499b6d..ffc56e5 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -432,14 +432,16 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         return OCS_NEED_MORE_DATA;
       }
     } else {
+      size_t n =
+          multipart->pos ? multipart->pos - multipart->startpos : 1;
+      multipart->file_total_size += n;
       if (multipart->file_total_size >
           req->connection.listen_point->server->max_file_size) {
         ONION_ERROR("Files on this post too big. Aborting.");
         return OCS_INTERNAL_ERROR;
       }
       if (multipart->pos != 0) {
-        multipart->file_total_size += multipart->pos;
-        int r = multipart->pos - multipart->startpos;
+        int r = n;
         //ONION_DEBUG0("Write %d bytes",r);
         int w = write(multipart->fd, tmp, tmppos);
         if (w != tmppos) {
@@ -474,7 +476,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         tmppos = 0;
       }
     }
-    multipart->file_total_size++;
     p++;
   }
   int w = write(multipart->fd, tmp, tmppos);
-- 
2.43.0


From 4a7356b02f082df95483ab595045d975aee3e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:45 +0000
Subject: [PATCH 026/161] fix: request parser: fail when the temporary file can
 not be created

---
 src/onion/request_parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index ffc56e5..f360cbe 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -660,8 +660,10 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
       multipart->fd = mkstemp(filename);
-      if (multipart->fd < 0)
+      if (multipart->fd < 0) {
         ONION_ERROR("Could not create temporal file at %s.", filename);
+        return OCS_INTERNAL_ERROR;
+      }
       if (!req->FILES)
         req->FILES = onion_dict_new();
       onion_dict_add(req->POST, multipart->name, multipart->filename, 0);
@@ -1191,8 +1193,10 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 
   char filename[] = "/tmp/onion-XXXXXX";
   int fd = mkstemp(filename);
-  if (fd < 0)
+  if (fd < 0) {
     ONION_ERROR("Could not create temporary file at %s.", filename);
+    return OCS_INTERNAL_ERROR;
+  }
 
   onion_block_add_str(req->data, filename);
   ONION_DEBUG0("Creating PUT file %s (%d bytes long)", filename,
-- 
2.43.0


From cbcb48bf4e7ebe67300643bdf0b44557f479fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:45 +0000
Subject: [PATCH 027/161] fix: request parser: fail when the temporary file of
 a PUT is not fully written

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index f360cbe..310f1d8 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -366,7 +366,7 @@ static onion_connection_status parse_PUT(onion_request * req,
 
   int *fd = (int *)token->extra;
   ssize_t w = write(*fd, &data->data[data->pos], length);
-  if (w < 0) {
+  if (w != length) {
     // cleanup
     close(*fd);
     onion_low_free(token->extra);
-- 
2.43.0


From 132800b82ea184fefbf7f209f87ce610d25a50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:47 +0000
Subject: [PATCH 028/161] fix: request parser: close the temporary file of a
 request that is dropped or fails

---
 src/onion/request_parser.c | 47 +++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 310f1d8..9736c7a 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -62,6 +62,7 @@ typedef struct onion_token_s {
 
   char *extra;                  // Only used when need some previous data, like at header value, i need the key
   size_t extra_size;
+  int fd;                       // Temporal file being written, or -1. Closed with the parser data.
 } onion_token;
 
 /// @private
@@ -89,7 +90,6 @@ typedef struct onion_multipart_buffer_s {
   char *filename;               /// point to a in data position
   size_t file_total_size;       /// Total size of all file read data
   size_t post_total_size;       /// Total size of post, to check limits
-  int fd;                       /// If file, the file descriptor.
 } onion_multipart_buffer;
 
 static void onion_request_parse_query_to_dict(onion_dict * dict, char *p);
@@ -364,13 +364,8 @@ static onion_connection_status parse_PUT(onion_request * req,
   }
   //ONION_DEBUG0("Writing %d. %d / %d bytes", length, token->pos+length, token->extra_size);
 
-  int *fd = (int *)token->extra;
-  ssize_t w = write(*fd, &data->data[data->pos], length);
+  ssize_t w = write(token->fd, &data->data[data->pos], length);
   if (w != length) {
-    // cleanup
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
     ONION_ERROR("Could not write all data to temporal file.");
     return OCS_INTERNAL_ERROR;
   }
@@ -383,9 +378,8 @@ static onion_connection_status parse_PUT(onion_request * req,
 #endif
 
   if (exit) {
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+    close(token->fd);
+    token->fd = -1;
     return OCS_REQUEST_READY;
   }
 
@@ -419,15 +413,15 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
 
-        int w = write(multipart->fd, tmp, tmppos);
+        int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
 
-        close(multipart->fd);
+        close(token->fd);
+        token->fd = -1;
         req->parser = parse_POST_multipart_next;
         return OCS_NEED_MORE_DATA;
       }
@@ -443,20 +437,18 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
       if (multipart->pos != 0) {
         int r = n;
         //ONION_DEBUG0("Write %d bytes",r);
-        int w = write(multipart->fd, tmp, tmppos);
+        int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
 
-        w = write(multipart->fd, multipart->boundary + multipart->startpos, r);
+        w = write(token->fd, multipart->boundary + multipart->startpos, r);
         if (w != r) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         multipart->startpos = multipart->pos = 0;
@@ -466,11 +458,10 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
       //ONION_DEBUG0("Write 1 byte");
       tmp[tmppos++] = *p;
       if (tmppos == sizeof(tmp)) {
-        int w = write(multipart->fd, tmp, tmppos);
+        int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -478,11 +469,10 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
     }
     p++;
   }
-  int w = write(multipart->fd, tmp, tmppos);
+  int w = write(token->fd, tmp, tmppos);
   if (w != tmppos) {
     ONION_ERROR
         ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-    close(multipart->fd);
     return OCS_INTERNAL_ERROR;
   }
   return OCS_NEED_MORE_DATA;
@@ -659,8 +649,8 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
 
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
-      multipart->fd = mkstemp(filename);
-      if (multipart->fd < 0) {
+      token->fd = mkstemp(filename);
+      if (token->fd < 0) {
         ONION_ERROR("Could not create temporal file at %s.", filename);
         return OCS_INTERNAL_ERROR;
       }
@@ -938,7 +928,9 @@ static onion_connection_status parse_headers_GET(onion_request * req,
 onion_connection_status onion_request_write(onion_request * req,
                                             const char *data, size_t size) {
   if (!req->parser_data) {
-    req->parser_data = onion_low_calloc(1, sizeof(onion_token));
+    onion_token *token = onion_low_calloc(1, sizeof(onion_token));
+    token->fd = -1;
+    req->parser_data = token;
     req->parser = parse_headers_GET;
   }
 
@@ -1216,11 +1208,8 @@ static onion_connection_status prepare_PUT(onion_request * req) {
     return OCS_REQUEST_READY;
   }
 
-  int *pfd = onion_low_scalar_malloc(sizeof(fd));
-  *pfd = fd;
-
   assert(token->extra == NULL);
-  token->extra = (char *)pfd;
+  token->fd = fd;
   token->extra_size = cl;
   token->pos = 0;
 
@@ -1238,5 +1227,7 @@ void onion_request_parser_data_free(void *t) {
     onion_low_free(token->extra);
     token->extra = NULL;
   }
+  if (token->fd >= 0)
+    close(token->fd);
   onion_low_free(token);
 }
-- 
2.43.0


From ec6f10a7669434e38ea026755e61851a8704a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 029/161] fix: query parser: nothing between two '&' is no
 pair, as at the end of the query

---
 src/onion/request_parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 9736c7a..f76fe0b 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -998,9 +998,11 @@ static void onion_request_parse_query_to_dict(onion_dict * dict, char *p) {
         state = 1;
       } else if (*p == '&') {
         *p = '\0';
-        onion_unquote_inplace(key);
-        ONION_DEBUG0("Adding key %s", key);
-        onion_dict_add(dict, key, "", 0);
+        if (key[0] != '\0') {
+          onion_unquote_inplace(key);
+          ONION_DEBUG0("Adding key %s", key);
+          onion_dict_add(dict, key, "", 0);
+        }
         key = p + 1;
         state = 0;
       }
-- 
2.43.0


From 51bf32f7db3dd67746532642779b26419adcd0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:09 +0000
Subject: [PATCH 030/161] fix: cookies: blanks, empty values and cookies
 without value do not mix up the others

---
 src/onion/request.c | 43 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 00e0af3..934e679 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -686,38 +686,27 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
   if (!ccookies)
     return req->cookies;
   char *cookies = onion_low_strdup(ccookies);   // I prepare a temporary string, will modify it.
-  char *val = NULL;
-  char *key = NULL;
+  req->free_list = onion_ptr_list_add(req->free_list, cookies); // Keys and values point there, freed with the request.
   char *p = cookies;
 
-  int first = 1;
   while (*p) {
-    if (*p != ' ' && !key && !val) {
-      key = p;
-    } else if (*p == '=' && key && !val) {
-      *p = 0;
-      val = p + 1;
-    } else if (*p == ';' && key && val) {
-      *p = 0;
-      if (first) {
-        // The first cookie is special as it is the pointer to the reserved area for all the keys and values
-        // for all th eother cookies, to free at dict free.
-        onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-        first = 0;
-      } else
-        onion_dict_add(req->cookies, key, val, 0);      /// Can use as static data as will be freed at first cookie free
-      ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
-      val = NULL;
-      key = NULL;
+    while (*p == ' ')
+      p++;
+    char *key = p;
+    char *val = NULL;
+    while (*p && *p != ';') {
+      if (*p == '=' && !val) {
+        *p = 0;
+        val = p + 1;
+      }
+      p++;
     }
-    p++;
-  }
-  if (key && val && val < p) {  // A final element, with value.
-    if (first)
-      onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-    else
+    if (*p)
+      *p++ = 0;
+    if (val && *key) {
       onion_dict_add(req->cookies, key, val, 0);
-    ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
+      ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
+    }
   }
 
   return req->cookies;
-- 
2.43.0


From 9686a8fa35e26860f938e39de9ef5a3a85014a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:52 +0000
Subject: [PATCH 031/161] fix: session cookie: only a cookie named exactly
 sessionid names a session

---
 src/onion/request.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 934e679..39bc958 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -405,8 +405,11 @@ void onion_request_guess_session_id(onion_request * req) {
     v = strstr(v, "sessionid=");
     if (!v)                     // exit point, no session found.
       return;
-    if (v > ov && is_alnum(v[-1])) {
-      ONION_DEBUG("At -1: %c %d (%p %p)", v[-1], is_alnum(v[-1]), v, ov);
+    const char *b = v;          // It has to be the full name of the cookie, only blanks before it.
+    while (b > ov && (b[-1] == ' ' || b[-1] == '\t'))
+      b--;
+    if (b > ov && b[-1] != ';') {
+      ONION_DEBUG("Not a session cookie: %s", b);
       v = strstr(v, ";");
     } else {
       v += 10;
-- 
2.43.0


From 93bea8d64e75a8756f70e2c3b5b597d1526f5c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:27 +0000
Subject: [PATCH 032/161] fix: response: skipped content leaves the buffer, big
 writes to HEAD answers do not loop forever

---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 20cc39a..c9be6f2 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -416,8 +416,10 @@ int onion_response_flush(onion_response * res) {
     onion_response_write(res, tmpb, tmpp);
     return 0;
   }
-  if (res->flags & OR_SKIP_CONTENT)     // HEAD request
+  if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
+    res->buffer_pos = 0;
     return 0;
+  }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
   onion_request *req = res->request;
-- 
2.43.0


From 3f670b69b459db1eec5c476333c8fb127fc71765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:27 +0000
Subject: [PATCH 033/161] fix: response: the headers go before the data
 buffered until the response is freed

---
 src/onion/response.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index c9be6f2..743fb48 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -162,8 +162,12 @@ onion_connection_status onion_response_free(onion_response * res) {
   if (!(res->flags & OR_HEADER_SENT) && res->buffer_pos < sizeof(res->buffer))
     onion_response_set_length(res, res->buffer_pos);
 
-  if (!(res->flags & OR_HEADER_SENT))
-    onion_response_write_headers(res);
+  if (!(res->flags & OR_HEADER_SENT)) {
+    if (res->buffer_pos > 0)
+      onion_response_flush(res);        // Sends the headers before the buffered data
+    else
+      onion_response_write_headers(res);
+  }
 
   onion_response_flush(res);
   onion_request *req = res->request;
-- 
2.43.0


From a84484645f78d750304e9e044badeacada330910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:27 +0000
Subject: [PATCH 034/161] fix: response: send whole chunk headers and ends when
 the connection takes them in parts

---
 src/onion/response.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 743fb48..648c892 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -45,6 +45,7 @@
 /// @defgroup response Response. Write response data to client: headers, content body...
 
 const char *onion_response_code_description(int code);
+static int write_all(onion_request * req, const char *data, size_t length);
 
 // DONT_USE_DATE_HEADER is not defined anywhere, but here just in case needed in the future.
 
@@ -173,7 +174,7 @@ onion_connection_status onion_response_free(onion_response * res) {
   onion_request *req = res->request;
 
   if (res->flags & OR_CHUNKED) {        // Set the chunked data end.
-    req->connection.listen_point->write(req, "0\r\n\r\n", 5);
+    write_all(req, "0\r\n\r\n", 5);
   }
 
   int r = OCS_CLOSE_CONNECTION;
@@ -394,6 +395,18 @@ ssize_t onion_response_write(onion_response * res, const char *data,
   return w;
 }
 
+/// Writes all the data to the connection, also when it takes it in several parts. Returns <0 on error.
+static int write_all(onion_request * req, const char *data, size_t length) {
+  while (length > 0) {
+    ssize_t w = req->connection.listen_point->write(req, data, length);
+    if (w <= 0)
+      return OCS_CLOSE_CONNECTION;
+    data += w;
+    length -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Writes all buffered output waiting for sending.
  * @ingroup response
@@ -436,13 +449,13 @@ int onion_response_flush(onion_response * res) {
   if (res->flags & OR_CHUNKED) {
     char tmp[16];
     snprintf(tmp, sizeof(tmp), "%X\r\n", (unsigned int)res->buffer_pos);
-    if ((w = write(req, tmp, strlen(tmp))) <= 0) {
+    if (write_all(req, tmp, strlen(tmp)) < 0) {
       ONION_CALL_MAX_ONCE_PER_T_COUNT(1, ONION_WARNING, "Error writing chunk encoding length (%X) %s. Aborting write. (x%u)",
         (unsigned int)res->buffer_pos, strerror(errno));
       
       return OCS_CLOSE_CONNECTION;
     }
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
+    ONION_DEBUG0("Write chunk of %d bytes", res->buffer_pos);
   }
   int savederrno = errno;
   errno = 0;
@@ -460,7 +473,11 @@ int onion_response_flush(onion_response * res) {
     res->buffer_pos -= w;
   }
   if (res->flags & OR_CHUNKED) {
-    write(req, "\r\n", 2);
+    if (write_all(req, "\r\n", 2) < 0) {
+      res->buffer_pos = 0;
+      errno = savederrno;
+      return OCS_CLOSE_CONNECTION;
+    }
   }
   res->buffer_pos = 0;
   errno = savederrno;
-- 
2.43.0


From fc2f251d5eb652984e61eb8b0bbf4a10021c4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:27 +0000
Subject: [PATCH 035/161] fix: response: after a failed write nothing more is
 sent and the connection is closed

---
 src/onion/response.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 648c892..b1c1c81 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -46,6 +46,7 @@
 
 const char *onion_response_code_description(int code);
 static int write_all(onion_request * req, const char *data, size_t length);
+static int write_failed(onion_response * res);
 
 // DONT_USE_DATE_HEADER is not defined anywhere, but here just in case needed in the future.
 
@@ -173,8 +174,9 @@ onion_connection_status onion_response_free(onion_response * res) {
   onion_response_flush(res);
   onion_request *req = res->request;
 
-  if (res->flags & OR_CHUNKED) {        // Set the chunked data end.
-    write_all(req, "0\r\n\r\n", 5);
+  if ((res->flags & OR_CHUNKED) && !(res->flags & OR_SKIP_CONTENT)) {    // Set the chunked data end.
+    if (write_all(req, "0\r\n\r\n", 5) < 0)
+      write_failed(res);
   }
 
   int r = OCS_CLOSE_CONNECTION;
@@ -381,7 +383,7 @@ ssize_t onion_response_write(onion_response * res, const char *data,
 
     res->buffer_pos = sizeof(res->buffer);
     if (onion_response_flush(res) < 0)
-      return w;
+      return OCS_CLOSE_CONNECTION;
 
     l -= wb;
     data += wb;
@@ -407,6 +409,14 @@ static int write_all(onion_request * req, const char *data, size_t length) {
   return 0;
 }
 
+/// The connection failed: nothing more is sent on this response, and the connection is closed.
+static int write_failed(onion_response * res) {
+  res->buffer_pos = 0;
+  res->flags |= OR_SKIP_CONTENT;
+  onion_request_set_no_keep_alive(res->request);
+  return OCS_CLOSE_CONNECTION;
+}
+
 /**
  * @short Writes all buffered output waiting for sending.
  * @ingroup response
@@ -430,7 +440,9 @@ int onion_response_flush(onion_response * res) {
     res->buffer_pos = 0;
 
     onion_response_write_headers(res);
-    onion_response_write(res, tmpb, tmpp);
+    if (onion_response_write(res, tmpb, tmpp) < 0
+        && (res->request->flags & OR_METHODS) != OR_HEAD)
+      return OCS_CLOSE_CONNECTION;
     return 0;
   }
   if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
@@ -453,7 +465,7 @@ int onion_response_flush(onion_response * res) {
       ONION_CALL_MAX_ONCE_PER_T_COUNT(1, ONION_WARNING, "Error writing chunk encoding length (%X) %s. Aborting write. (x%u)",
         (unsigned int)res->buffer_pos, strerror(errno));
       
-      return OCS_CLOSE_CONNECTION;
+      return write_failed(res);
     }
     ONION_DEBUG0("Write chunk of %d bytes", res->buffer_pos);
   }
@@ -464,9 +476,8 @@ int onion_response_flush(onion_response * res) {
     if (w <= 0 || res->buffer_pos < 0) {
       ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection. Code %d. ",
                   res->buffer_pos, strerror(errno), w);
-      res->buffer_pos = 0;
       errno = savederrno;
-      return OCS_CLOSE_CONNECTION;
+      return write_failed(res);
     }
     pos += w;
     ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
@@ -474,9 +485,8 @@ int onion_response_flush(onion_response * res) {
   }
   if (res->flags & OR_CHUNKED) {
     if (write_all(req, "\r\n", 2) < 0) {
-      res->buffer_pos = 0;
       errno = savederrno;
-      return OCS_CLOSE_CONNECTION;
+      return write_failed(res);
     }
   }
   res->buffer_pos = 0;
-- 
2.43.0


From 90cea8a9539f542ab43d6d929b85ef11e6ecd1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:27 +0000
Subject: [PATCH 036/161] fix: response: set_length has room for any length

---
 src/onion/response.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index b1c1c81..09c24dc 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -231,8 +231,8 @@ void onion_response_set_length(onion_response * res, size_t len) {
         ("Trying to set length after headers sent. Undefined onion behaviour.");
     return;
   }
-  char tmp[16];
-  sprintf(tmp, "%lu", (unsigned long)len);
+  char tmp[32];
+  snprintf(tmp, sizeof(tmp), "%lu", (unsigned long)len);
   onion_response_set_header(res, "Content-Length", tmp);
   res->length = len;
   res->flags |= OR_LENGTH_SET;
-- 
2.43.0


From e0a0fcde8dc4cf9d1f06997966681d24e8e7456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:27 +0000
Subject: [PATCH 037/161] fix: response: cookies that do not fit are refused
 before anything is written past the buffer

---
 src/onion/response.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 09c24dc..100876a 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -657,44 +657,44 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
                                const char *path, const char *domain,
                                int flags) {
   char data[4096];
-  int pos;
-  pos = snprintf(data, sizeof(data), "%s=%s", cookiename, cookievalue);
+  char expires[128] = "";
+  const char *samesite = "";
   if (validity_t == 0)
-    pos +=
-        snprintf(data + pos, sizeof(data) - pos,
-                 "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
+    strcpy(expires, "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
     struct tm *tmp;
     time_t t = time(NULL) + validity_t;
     tmp = localtime(&t);
-    pos +=
-        strftime(data + pos, sizeof(data) - pos,
-                 "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp);
+    if (!tmp
+        || strftime(expires, sizeof(expires),
+                    "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp) == 0) {
+      ONION_WARNING("Invalid cookie validity. Not added to response.");
+      return false;
+    }
   }
-  if (path)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; path=%s", path);
-  if (domain)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; domain=%s", domain);
-  if (flags & OC_HTTP_ONLY)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; HttpOnly");
-  if (flags & OC_SECURE)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; Secure");
 
   switch (flags & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT)) {
   case OC_SAMESITE_NONE:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=None");
+    samesite = "; SameSite=None";
     break;
   case OC_SAMESITE_LAX:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Lax");
+    samesite = "; SameSite=Lax";
     break;
   case OC_SAMESITE_STRICT:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Strict");
+    samesite = "; SameSite=Strict";
     break;
   default:
     break;
   }
 
-  if (pos >= sizeof(data)) {
+  int pos = snprintf(data, sizeof(data), "%s=%s%s%s%s%s%s%s%s%s", cookiename,
+                     cookievalue, expires, path ? "; path=" : "",
+                     path ? path : "", domain ? "; domain=" : "",
+                     domain ? domain : "",
+                     (flags & OC_HTTP_ONLY) ? "; HttpOnly" : "",
+                     (flags & OC_SECURE) ? "; Secure" : "", samesite);
+
+  if (pos < 0 || pos >= sizeof(data)) {
     ONION_WARNING("Cookie too long to be constructed. Not added to response.");
     return false;
   }
-- 
2.43.0


From f3a3eb4542e073902f6a27c553f2af52bc4897d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:27 +0000
Subject: [PATCH 038/161] fix: response: adding a cookie keeps the ones added
 before

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 100876a..6771ff8 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -699,7 +699,7 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
     return false;
   }
 
-  onion_response_set_header(res, "Set-Cookie", data);
+  onion_dict_add(res->headers, "Set-Cookie", data, OD_DUP_ALL); // There may be several
   ONION_DEBUG("Set cookie %s", data);
 
   return true;
-- 
2.43.0


From ad0a4e1219e8755e071205b61048bc2ade4b0ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:27 +0000
Subject: [PATCH 039/161] fix: response: the session cookie line ends as every
 header line

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 6771ff8..0c557aa 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -322,7 +322,7 @@ int onion_response_write_headers(onion_response * res) {
   onion_dict_preorder(res->headers, write_header, res);
 
   if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
-    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\n",
+    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
   onion_response_write(res, "\r\n", 2);
-- 
2.43.0


From 857453d2680e19dc66d0da612ad84255997e88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:46 +0000
Subject: [PATCH 040/161] fix: response: count lengths and sent bytes without
 cutting them to 32 bits

---
 src/onion/response.c       | 17 +++++++++--------
 src/onion/types_internal.h |  6 +++---
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 0c557aa..a4e1817 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -185,9 +185,9 @@ onion_connection_status onion_response_free(onion_response * res) {
   if (req) {
     // keep alive only on HTTP/1.1.
     ONION_DEBUG0
-        ("keep alive [req wants] %d && ([skip] %d || [lenght ok] %d==%d || [chunked] %d)",
+        ("keep alive [req wants] %d && ([skip] %d || [lenght ok] %lu==%lu || [chunked] %d)",
          onion_request_keep_alive(req), res->flags & OR_SKIP_CONTENT,
-         res->length, res->sent_bytes, res->flags & OR_CHUNKED);
+         (unsigned long)res->length, (unsigned long)res->sent_bytes, res->flags & OR_CHUNKED);
     if (onion_request_keep_alive(req)
         && (res->flags & OR_SKIP_CONTENT || res->length == res->sent_bytes
             || res->flags & OR_CHUNKED)
@@ -196,10 +196,11 @@ onion_connection_status onion_response_free(onion_response * res) {
 
     if ((onion_log_flags & OF_NOINFO) != OF_NOINFO)
       // FIXME! This is no proper logging at all. Maybe use a handler.
-      ONION_INFO("[%s] \"%s %s\" %d %d (%s)",
+      ONION_INFO("[%s] \"%s %s\" %d %lu (%s)",
                  onion_request_get_client_description(res->request),
                  onion_request_methods[res->request->flags & OR_METHODS],
-                 res->request->fullpath, res->code, res->sent_bytes,
+                 res->request->fullpath, res->code,
+                 (unsigned long)res->sent_bytes,
                  (r == OCS_KEEP_ALIVE) ? "Keep-Alive" : "Close connection");
   }
 
@@ -375,10 +376,10 @@ ssize_t onion_response_write(onion_response * res, const char *data,
   }
   //ONION_DEBUG0("Write %d bytes [%d total] (%p)", length, res->sent_bytes, res);
 
-  int l = length;
-  int w = 0;
-  while (res->buffer_pos + l > sizeof(res->buffer)) {
-    int wb = sizeof(res->buffer) - res->buffer_pos;
+  size_t l = length;
+  ssize_t w = 0;
+  while (l > sizeof(res->buffer) - res->buffer_pos) {
+    size_t wb = sizeof(res->buffer) - res->buffer_pos;
     memcpy(&res->buffer[res->buffer_pos], data, wb);
 
     res->buffer_pos = sizeof(res->buffer);
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 994333e..82ba55d 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -117,9 +117,9 @@ extern "C" {
     onion_dict *headers;        /// Headers to write when appropiate.
     int code;                   /// Response code
     int flags;                  /// Flags. @see onion_response_flags_e
-    unsigned int length;        /// Length, if known, of the response, to create the Content-Lenght header. 
-    unsigned int sent_bytes;    /// Sent bytes at content.
-    unsigned int sent_bytes_total;      /// Total sent bytes, including headers.
+    size_t length;        /// Length, if known, of the response, to create the Content-Lenght header. 
+    size_t sent_bytes;    /// Sent bytes at content.
+    size_t sent_bytes_total;      /// Total sent bytes, including headers.
     char buffer[ONION_RESPONSE_BUFFER_SIZE];    /// buffer of output data. This way its do not send small chunks all the time, but blocks, so better network use. Also helps to keep alive connections with less than block size bytes.
     off_t buffer_pos;           /// Position in the internal buffer. When sizeof(buffer) its flushed to the onion IO.
   };
-- 
2.43.0


From 8f0dee7d4b2fc8924f687b29be19dceaa7a3c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:46 +0000
Subject: [PATCH 041/161] fix: response: announce the connection is closed when
 it will be, and close it when announced

---
 src/onion/response.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index a4e1817..7c01c47 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -312,9 +312,13 @@ int onion_response_write_headers(onion_response * res) {
                            sizeof(CONNECTION_KEEP_ALIVE) - 1);
   }
 
-  if (!(res->flags & OR_LENGTH_SET) && !chunked
-      && !(res->flags & OR_CONNECTION_UPGRADE))
+  if (!(res->flags & OR_CONNECTION_UPGRADE)
+      && ((!(res->flags & OR_LENGTH_SET) && !chunked)
+          || ((res->request->flags & OR_HTTP11)
+              && !onion_request_keep_alive(res->request)))) {
     onion_response_write(res, CONNECTION_CLOSE, sizeof(CONNECTION_CLOSE) - 1);
+    onion_request_set_no_keep_alive(res->request);      // Do as said
+  }
 
   if (res->flags & OR_CONNECTION_UPGRADE)
     onion_response_write(res, CONNECTION_UPGRADE,
-- 
2.43.0


From 0aec069c954012adcfb44548e6651ac17212a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:07 +0000
Subject: [PATCH 042/161] fix: sqlite3 sessions: removing a session deletes it

---
 src/onion/sessions_sqlite3.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index cf3c1a5..9455b99 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -41,6 +41,7 @@ typedef struct onion_session_sqlite3_t {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
 #endif
@@ -55,6 +56,7 @@ static void onion_sessions_sqlite3_free(onion_sessions * sessions) {
 #endif
   sqlite3_finalize(p->save);
   sqlite3_finalize(p->get);
+  sqlite3_finalize(p->remove);
   sqlite3_close(p->db);
   onion_low_free(sessions->data);
 
@@ -100,8 +102,30 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
   return ret;
 }
 
+static void onion_sessions_sqlite3_remove(onion_sessions * sessions,
+                                          const char *session_id) {
+  onion_session_sqlite3 *p = sessions->data;
+  ONION_DEBUG0("Remove session %s", session_id);
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+#endif
+  sqlite3_reset(p->remove);
+  int rc = sqlite3_bind_text(p->remove, 1, session_id, -1, SQLITE_STATIC);
+  if (rc == SQLITE_OK)
+    rc = sqlite3_step(p->remove);
+  if (rc != SQLITE_DONE)
+    ONION_ERROR("Error removing session (%d)", rc);
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 void onion_sessions_sqlite3_save(onion_sessions * sessions,
                                  const char *session_id, onion_dict * data) {
+  if (data == NULL) {
+    onion_sessions_sqlite3_remove(sessions, session_id);
+    return;
+  }
   onion_block *bl = onion_dict_to_json(data);
 
   ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
@@ -151,6 +175,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
   rc = sqlite3_open(database_filename, &db);
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
@@ -178,6 +203,14 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
     return NULL;
   }
 
+  const char *REMOVE_SQL = "DELETE FROM sessions WHERE id=?";
+  rc = sqlite3_prepare_v2(db, REMOVE_SQL, strlen(REMOVE_SQL), &remove, NULL);
+  if (rc != SQLITE_OK) {
+    ONION_ERROR("Cant prepare statement to remove (%d)", rc);
+    sqlite3_close(db);
+    return NULL;
+  }
+
   onion_sessions *ret = onion_low_malloc(sizeof(onion_sessions));
 
   ret->data = onion_low_malloc(sizeof(onion_session_sqlite3));
@@ -189,6 +222,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   p->db = db;
   p->save = save;
   p->get = get;
+  p->remove = remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_init(&p->mutex, NULL);
 #endif
-- 
2.43.0


From ca8181cc575b16c72193817e7b283fcb91b4059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:07 +0000
Subject: [PATCH 043/161] fix: sqlite3 sessions: release everything when the
 database can not be used

---
 src/onion/sessions_sqlite3.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index 9455b99..412184d 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -180,6 +180,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
   // I blindly try to create tables. If they exist, error, if not, create
@@ -191,6 +192,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   if (rc != SQLITE_OK) {
     ONION_ERROR("Cant prepare statement to get (%d)", rc);
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
 
@@ -199,7 +201,9 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   rc = sqlite3_prepare_v2(db, SAVE_SQL, strlen(SAVE_SQL), &save, NULL);
   if (rc != SQLITE_OK) {
     ONION_ERROR("Cant prepare statement to save (%d)", rc);
+    sqlite3_finalize(get);
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
 
@@ -207,7 +211,10 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   rc = sqlite3_prepare_v2(db, REMOVE_SQL, strlen(REMOVE_SQL), &remove, NULL);
   if (rc != SQLITE_OK) {
     ONION_ERROR("Cant prepare statement to remove (%d)", rc);
+    sqlite3_finalize(get);
+    sqlite3_finalize(save);
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
 
-- 
2.43.0


From 1c7e6e1b40dabf7ced5eb01af25ea783cb815a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:07 +0000
Subject: [PATCH 044/161] fix: redis sessions: removing a session deletes it

---
 src/onion/sessions_redis.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 6b2bf9b..e73ffd2 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -109,16 +109,12 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
 
 void onion_sessions_redis_save(onion_sessions * sessions,
                                const char *session_id, onion_dict * data) {
-  onion_block *bl = onion_dict_to_json(data);
-
-  ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
-
   onion_session_redis *p = sessions->data;
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
 #endif
 
-  if (p == NULL) {
+  if (data == NULL) {
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
@@ -127,7 +123,9 @@ void onion_sessions_redis_save(onion_sessions * sessions,
     }
     freeReplyObject(reply);
   } else {
+    onion_block *bl = onion_dict_to_json(data);
     const char *json = onion_block_data(bl);
+    ONION_DEBUG0("Save session %s: %s", session_id, json);
     redisReply *reply =
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
-- 
2.43.0


From 784b6aeac78a5e36741b7c224a54148931556a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 045/161] fix: redis sessions: survive a lost connection, and
 release everything when it can not connect

---
 src/onion/sessions_redis.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index e73ffd2..46d3753 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -74,6 +74,10 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
       redisCommand(p->context, "HEXISTS SESSIONS %b", session_id,
                    strlen(session_id));
 
+  if (!reply) {
+    ONION_ERROR("Lost connection to redis");
+    goto exit;
+  }
   if (reply->type != REDIS_REPLY_INTEGER) {
     ONION_ERROR("Error getting session_id");
     freeReplyObject(reply);
@@ -85,6 +89,10 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
           redisCommand(p->context, "HGET SESSIONS %b", session_id,
                        strlen(session_id));
 
+      if (!reply) {
+        ONION_ERROR("Lost connection to redis");
+        goto exit;
+      }
       if (reply->type != REDIS_REPLY_STRING) {
         ONION_ERROR("Error loading session.");
         freeReplyObject(reply);
@@ -118,10 +126,11 @@ void onion_sessions_redis_save(onion_sessions * sessions,
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error removing session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
   } else {
     onion_block *bl = onion_dict_to_json(data);
     const char *json = onion_block_data(bl);
@@ -130,10 +139,11 @@ void onion_sessions_redis_save(onion_sessions * sessions,
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error saving session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
     onion_block_free(bl);
   }
 
@@ -159,9 +169,14 @@ onion_sessions *onion_sessions_redis_new(const char *server_ip, int port) {
   onion_session_redis *p = ret->data;
   p->context = redisConnect(server_ip, port);
 
-  if (p->context != NULL && p->context->err) {
-    ONION_ERROR("Can't connect to redis. Error (%s)", p->context->errstr);
-    redisFree(p->context);
+  if (p->context == NULL || p->context->err) {
+    ONION_ERROR("Can't connect to redis. Error (%s)",
+                p->context ? p->context->errstr : "no memory");
+    if (p->context)
+      redisFree(p->context);
+    onion_low_free(ret->data);
+    onion_low_free(ret);
+    onion_random_free();
     return NULL;
   }
 #ifdef HAVE_PTHREADS
-- 
2.43.0


From aac4456a61a4658af95115a05b311ed089057488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 046/161] fix: sessions: a request has a session dictionary
 also when the backend fails

---
 src/onion/request.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/request.c b/src/onion/request.c
index 39bc958..a272976 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -460,6 +460,8 @@ onion_dict *onion_request_get_session_dict(onion_request * req) {
       req->session =
           onion_sessions_get(req->connection.listen_point->server->sessions,
                              req->session_id);
+      if (!req->session)        // Could not be stored; it lives only in this request
+        req->session = onion_dict_new();
     }
   }
   return req->session;
-- 
2.43.0


From 1000d6cc88921440b394303c20a156a76a505f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:05 +0000
Subject: [PATCH 047/161] fix: websocket: announce the length of long messages
 where it belongs in the frame

---
 src/onion/websocket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index cf49bef..650678f 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -194,7 +194,7 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     header[1] = 0x00;           // Do not mask on send
     if (len < 126)
       header[1] |= len;
-    else if (len < 0x0FFFF) {
+    else if (len <= 0x0FFFF) {
       header[1] |= 126;
       header[2] = (len >> 8) & 0x0FF;
       header[3] = (len) & 0x0FF;
@@ -202,9 +202,9 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     } else {
       header[1] |= 127;
       int i;
-      int tlen = len;
+      uint64_t tlen = len;
       for (i = 0; i < 8; i++) {
-        header[3 + 8 - i] = tlen & 0x0FF;
+        header[2 + 7 - i] = tlen & 0x0FF;
         tlen >>= 8;
       }
       hlen += 8;
-- 
2.43.0


From 367fba7c0547e6af33c6ec5f5a0a36d8bda95725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:05 +0000
Subject: [PATCH 048/161] fix: websocket: send every byte of the messages and
 tell when it could not

---
 src/onion/websocket.c | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 650678f..a4b0996 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -165,6 +165,22 @@ void onion_websocket_free(onion_websocket * ws) {
   onion_low_free(ws);
 }
 
+/// Sends all the data, or -1 on error.
+static int onion_websocket_write_all(onion_websocket * ws, const char *data,
+                                     size_t len) {
+  lpwriter_sig_t *lpwriter = ws->req->connection.listen_point->write;
+  while (len > 0) {
+    ssize_t w = (*lpwriter) (ws->req, data, len);
+    if (w <= 0)
+      return -1;
+    if ((size_t) w >= len)
+      break;
+    data += w;
+    len -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Writes a fragment to the websocket
  * @memberof onion_websocket_t
@@ -217,25 +233,12 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
        }
      */
 
-    (*lpwriter) (ws->req, header, hlen);
-  }
-  /// FIXME! powerup using int32_t as basic type.
-  int ret = 0;
-  int i, j;
-  char tout[1024];
-  for (i = 0; i < len - 1024; i += 1024) {
-    for (j = 0; j < sizeof(tout); j++) {
-      //ONION_DEBUG("At %d, %02X ^ %02X = %02X", (i+j)&1023, buffer[i+j]&0x0FF, mask[j&3]&0x0FF, (buffer[i]^mask[j&3])&0x0FF);
-      tout[j] = buffer[i + j];
-    }
-    ret += (*lpwriter) (ws->req, tout, sizeof(tout));
-  }
-  for (; i < len; i++) {
-    //ONION_DEBUG("At %d, %02X ^ %02X = %02X", i&1023, buffer[i]&0x0FF, mask[i&3]&0x0FF, (buffer[i]^mask[i&3])&0x0FF);
-    tout[i & 1023] = buffer[i];
+    if (onion_websocket_write_all(ws, header, hlen) < 0)
+      return -1;
   }
-
-  return (*lpwriter) (ws->req, tout, len & 1023);
+  if (onion_websocket_write_all(ws, buffer, len) < 0)
+    return -1;
+  return len;
 }
 
 /**
-- 
2.43.0


From c1121f9f5e610e30b78d9c3b911c233aa19d9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:05 +0000
Subject: [PATCH 049/161] fix: websocket: formatted messages of any length are
 sent whole

---
 src/onion/websocket.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index a4b0996..fc2fd40 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -317,7 +317,12 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   */
 int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args) {
   char temp[512];
-  int l = vsnprintf(temp, sizeof(temp) - 1, fmt, args);
+  va_list args2;
+  va_copy(args2, args);         // args can not be used twice
+  int l = vsnprintf(temp, sizeof(temp), fmt, args2);
+  va_end(args2);
+  if (l < 0)
+    return -1;
   if (l < sizeof(temp))
     return onion_websocket_write(ws, temp, l);
   else {
@@ -329,7 +334,7 @@ int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args)
       ONION_ERROR("Could not reserve %d bytes", l + 1);
       return -1;
     }
-    vsnprintf(buf, l, fmt, args);
+    vsnprintf(buf, l + 1, fmt, args);
     s = onion_websocket_write(ws, buf, l);
     onion_low_free(buf);
     return s;
-- 
2.43.0


From cd01afc0672b9c6e6e63a4a662dd6681a883d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:10 +0000
Subject: [PATCH 050/161] fix: websocket: frame headers may arrive in several
 pieces

---
 src/onion/websocket.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index fc2fd40..9c928fa 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -407,6 +407,20 @@ void onion_websocket_set_userdata(onion_websocket * ws, void *userdata,
   ws->free_user_data = free_userdata;
 }
 
+/// Reads all the data, as it may come in several pieces, or -1 on error.
+static int onion_websocket_read_all(onion_websocket * ws, char *data,
+                                    size_t len) {
+  lpreader_sig_t *lpreader = ws->req->connection.listen_point->read;
+  while (len > 0) {
+    ssize_t r = (*lpreader) (ws->req, data, len);
+    if (r <= 0)
+      return -1;
+    data += r;
+    len -= r;
+  }
+  return 0;
+}
+
 /**
  * @short Reads a packet header.
  */
@@ -423,9 +437,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return OCS_CLOSE_CONNECTION;
   }
-  int r = (*lpreader) (ws->req, tmp, 2);
-  //ONION_DEBUG("reading input r = %i", r);
-  if (r != 2) {
+  if (onion_websocket_read_all(ws, tmp, 2) < 0) {
     ONION_DEBUG("Error reading header");
     return OCS_CLOSE_CONNECTION;
   }
@@ -438,18 +450,18 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   ws->opcode = tmp[0] & 0x0F;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
+    if (onion_websocket_read_all(ws, tmp, 2) < 0) {
       ONION_DEBUG("Error reading header");
+      ws->data_left = 0;
       return OCS_CLOSE_CONNECTION;
     }
     ONION_DEBUG("%d %d", utmp[0], utmp[1]);
     ws->data_left = utmp[1] + utmp[0] * 256;
   } else if (ws->data_left == 127) {
-    r = (*lpreader) (ws->req, tmp, 8);
     //ONION_DEBUG("%d %d %d %d %d %d %d", utmp[0], utmp[1], utmp[2], utmp[3], utmp[4], utmp[5], utmp[6], utmp[7]);
-    if (r != 8) {
+    if (onion_websocket_read_all(ws, tmp, 8) < 0) {
       ONION_DEBUG("Error reading header");
+      ws->data_left = 0;
       return OCS_CLOSE_CONNECTION;
     }
     ws->data_left = 0;
@@ -459,10 +471,9 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   }
   ONION_DEBUG("Data left %d", ws->data_left);
   if (ws->flags & WS_MASK) {
-    r = (*lpreader) (ws->req, ws->mask, 4);
-    //ONION_DEBUG("bytes read=%i", r);
-    if (r != 4) {
+    if (onion_websocket_read_all(ws, ws->mask, 4) < 0) {
       ONION_DEBUG("Error reading header (4)");
+      ws->data_left = 0;
       return OCS_CLOSE_CONNECTION;
     }
     ws->mask_pos = 0;
@@ -476,8 +487,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     onion_websocket_write(ws, data, r);
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
+    if (onion_websocket_read_all(ws, tmp, 2) < 0) {
       ONION_DEBUG("Error reading status code");
       return OCS_CLOSE_CONNECTION;
     }
-- 
2.43.0


From 25c83b86520ee5955b1f3705da3bd0a0038f89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:10 +0000
Subject: [PATCH 051/161] fix: websocket: refuse frames with impossible lengths

---
 src/onion/websocket.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 9c928fa..793b4f0 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -468,6 +468,11 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     int i;
     for (i = 0; i < 8; i++)
       ws->data_left += ((uint64_t) utmp[i]) << ((7 - i) * 8);   // Maybe problematic on 32bits systems
+    if (ws->data_left < 0) {
+      ONION_DEBUG("Frame too long");
+      ws->data_left = 0;
+      return OCS_CLOSE_CONNECTION;
+    }
   }
   ONION_DEBUG("Data left %d", ws->data_left);
   if (ws->flags & WS_MASK) {
-- 
2.43.0


From faa3f450f6a6f2eb3508d25ad9456a9b3949aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:10 +0000
Subject: [PATCH 052/161] fix: websocket: answer every ping with its own data

---
 src/onion/websocket.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 793b4f0..ef38ff4 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -485,11 +485,20 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   }
 
   if (ws->opcode == OWS_PING) { // I do answer ping myself.
+    char data[125];             // Control frames can not be longer
+    size_t i, len = ws->data_left;
+    ws->data_left = 0;
+    if (len > sizeof(data) || onion_websocket_read_all(ws, data, len) < 0) {
+      ONION_DEBUG("Error reading ping");
+      return OCS_CLOSE_CONNECTION;
+    }
+    if (ws->flags & WS_MASK) {
+      for (i = 0; i < len; i++)
+        data[i] ^= ws->mask[i & 3];
+    }
     onion_websocket_set_opcode(ws, OWS_PONG);
-    char *data = onion_low_scalar_malloc(ws->data_left);
-    ssize_t r = onion_websocket_read(ws, data, ws->data_left);
-
-    onion_websocket_write(ws, data, r);
+    if (onion_websocket_write(ws, data, len) < 0)
+      return OCS_CLOSE_CONNECTION;
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
     if (onion_websocket_read_all(ws, tmp, 2) < 0) {
-- 
2.43.0


From b0cf622034a31d55b828716454e55862b9cc7063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:11 +0000
Subject: [PATCH 053/161] fix: websocket: close frames may have no status and
 no mask

---
 src/onion/websocket.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index ef38ff4..59af120 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -501,15 +501,21 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
       return OCS_CLOSE_CONNECTION;
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
-    if (onion_websocket_read_all(ws, tmp, 2) < 0) {
-      ONION_DEBUG("Error reading status code");
-      return OCS_CLOSE_CONNECTION;
+    char status[2] = { 0x03, 0xE8 };    // Normal closure, if client did not tell
+    if (ws->data_left >= 2) {
+      ws->data_left = 0;
+      if (onion_websocket_read_all(ws, status, 2) < 0) {
+        ONION_DEBUG("Error reading status code");
+        return OCS_CLOSE_CONNECTION;
+      }
+      if (ws->flags & WS_MASK) {
+        status[0] ^= ws->mask[0];
+        status[1] ^= ws->mask[1];
+      }
     }
-    char status[2];
-    status[0] = utmp[0] ^ ws->mask[0];
-    status[1] = utmp[1] ^ ws->mask[1];
+    ws->data_left = 0;
     ONION_DEBUG("Connection closed by client, status=%u",
-                (status[0] << 8) + status[1]);
+                ((status[0] & 0x0FF) << 8) + (status[1] & 0x0FF));
     onion_websocket_close(ws, (const char *)&status);
     return OCS_CLOSE_CONNECTION;
   }
-- 
2.43.0


From c17f1854bebfe15b18260df756ef3ceaddbd81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:11 +0000
Subject: [PATCH 054/161] fix: websocket: reads over several frames count what
 was read, and end with the connection

---
 src/onion/websocket.c | 62 +++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 59af120..8d2a683 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -267,40 +267,40 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     return -1;
   }
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
-  if (ws->data_left == 0) {
-    onion_connection_status status;
-    if ((status = onion_websocket_read_packet_header(ws)) < 0) {
-      if (status == -2)
-        return -2;
-      ONION_ERROR("Error reading websocket header (%i)", status);
-      return -1;
+  size_t total = 0;
+  while (total < len) {         // May need several fragments
+    if (ws->data_left == 0) {
+      onion_connection_status status = onion_websocket_read_packet_header(ws);
+      if (status < 0) {
+        if (status != -2)
+          ONION_ERROR("Error reading websocket header (%i)", status);
+        ws->callback = NULL;    // Easy way to force close of websocket, which is ok as it closed.
+        return total > 0 ? total : (status == -2 ? -2 : -1);
+      }
+      continue;                 // It may have no data
     }
-  }
-
-  size_t left_len = 0;
-  if (len > ws->data_left) {
-    left_len = len - ws->data_left;
-    len = ws->data_left;
-    //ONION_DEBUG("Read %d bytes now, %d bytes later", len, left_len);
-  }
-  int r = (*lpreader) (ws->req, buffer, len);
-  if (ws->flags & WS_MASK) {
-    char *p = buffer;
-    int i;
-    for (i = 0; i < r; i++) {
-      *p = *p ^ ws->mask[(ws->mask_pos++) & 3];
-      p++;
+    size_t want = len - total;
+    if (want > ws->data_left)
+      want = ws->data_left;
+    ssize_t r = (*lpreader) (ws->req, &buffer[total], want);
+    if (r <= 0) {
+      ws->callback = NULL;      // Easy way to force close of websocket, which is ok as it closed.
+      return total > 0 ? total : r;
     }
+    if (ws->flags & WS_MASK) {
+      char *p = &buffer[total];
+      int i;
+      for (i = 0; i < r; i++) {
+        *p = *p ^ ws->mask[(ws->mask_pos++) & 3];
+        p++;
+      }
+    }
+    ws->data_left -= r;
+    total += r;
+    if (r < want)               // No more ready now
+      break;
   }
-  ws->data_left -= r;
-
-  if (left_len && r == len)
-    r += onion_websocket_read(ws, &buffer[len], left_len);
-
-  if (r < 0 || (r == 0 && errno != 0)) {
-    ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
-  }
-  return r;
+  return total;
 }
 
  /**
-- 
2.43.0


From b91519b2a34f6f148d75e33b276fee8844982431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:45 +0000
Subject: [PATCH 055/161] fix: websocket: use the ping and pong codes of the
 protocol

---
 src/onion/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/types.h b/src/onion/types.h
index 5ef24be..d86ced9 100644
--- a/src/onion/types.h
+++ b/src/onion/types.h
@@ -273,8 +273,8 @@ extern "C" {
     OWS_TEXT = 1,
     OWS_BINARY = 2,
     OWS_CONNECTION_CLOSE = 8,
-    OWS_PING = 0x0a,
-    OWS_PONG = 0x0b
+    OWS_PING = 0x09,
+    OWS_PONG = 0x0a
   };
 
   typedef enum onion_websocket_opcode_e onion_websocket_opcode;
-- 
2.43.0


From 629352276f6d4ec76d99522d3831d3489dc438a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:44 +0000
Subject: [PATCH 056/161] fix: websocket: nothing is read after the peer closed

---
 src/onion/websocket.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 8d2a683..b992f8d 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -43,6 +43,7 @@
 enum onion_websocket_flags_e {
   WS_FIN = 1,
   WS_MASK = 2,
+  WS_CLOSED = 4,
 };
 
 // signature of writer in listen point.
@@ -437,12 +438,12 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return OCS_CLOSE_CONNECTION;
   }
-  if (onion_websocket_read_all(ws, tmp, 2) < 0) {
+  if (ws->flags & WS_CLOSED || onion_websocket_read_all(ws, tmp, 2) < 0) {
     ONION_DEBUG("Error reading header");
     return OCS_CLOSE_CONNECTION;
   }
 
-  ws->flags = 0;
+  ws->flags &= WS_CLOSED;
   if (tmp[0] & 0x80)
     ws->flags |= WS_FIN;
   if (tmp[1] & 0x80)
@@ -501,6 +502,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
       return OCS_CLOSE_CONNECTION;
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
+    ws->flags |= WS_CLOSED;
     char status[2] = { 0x03, 0xE8 };    // Normal closure, if client did not tell
     if (ws->data_left >= 2) {
       ws->data_left = 0;
-- 
2.43.0


From a128618936ada9e374c533958a93e517fe8d1991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:11 +0000
Subject: [PATCH 057/161] fix: websocket: a refused upgrade does not keep the
 random generator

---
 src/onion/websocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index b992f8d..476fc81 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -78,8 +78,6 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   if (req->websocket)
     return req->websocket;
 
-  onion_random_init();
-
   const char *upgrade = onion_request_get_header(req, "Upgrade");
   if (!upgrade || strcasecmp(upgrade, "websocket") != 0)
     return NULL;
@@ -129,6 +127,8 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   onion_response_write_headers(res);
   onion_response_write(res, "", 0);     // AKA flush
 
+  onion_random_init();          // Released at onion_websocket_free
+
   onion_websocket *ret = onion_low_malloc(sizeof(onion_websocket));
   ret->callback = NULL;
   ret->req = req;
-- 
2.43.0


From 9e4eaa695b4eaa00caaa9bbff9128cc457231662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:11 +0000
Subject: [PATCH 058/161] fix: websocket: answer the subprotocol in the right
 header

---
 src/onion/websocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 476fc81..9954384 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -120,7 +120,7 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   res->flags |= OR_LENGTH_SET;  // Fix for Chrome to close cleanly websocket connections
   onion_response_set_header(res, "Upgrade", "websocket");
   if (ws_protocol)
-    onion_response_set_header(res, "Sec-Websocket-Procotol", ws_protocol);
+    onion_response_set_header(res, "Sec-Websocket-Protocol", ws_protocol);
   onion_response_set_header(res, "Sec-Websocket-Accept", key_answer);
   onion_low_free(key_answer);
 
-- 
2.43.0


From d597e2824bc610cf029589d19932f528dbe6f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:43 +0000
Subject: [PATCH 059/161] fix: request: forbidden requests get the forbidden
 answer

---
 src/onion/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index a272976..189fede 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -584,7 +584,7 @@ onion_connection_status onion_request_process(onion_request * req) {
       onion_handler_handle(req->connection.listen_point->server->root_handler,
                            req, res);
 
-  if (hs == OCS_INTERNAL_ERROR ||
+  if (hs == OCS_INTERNAL_ERROR || hs == OCS_FORBIDDEN ||
       hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
-- 
2.43.0


From 6df45c85917e8ec1a8f68dc2eefcc6df05da10d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:43 +0000
Subject: [PATCH 060/161] fix: request: no error page after an answer that was
 already begun

---
 src/onion/request.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 189fede..edaff23 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -595,8 +595,11 @@ onion_connection_status onion_request_process(onion_request * req) {
     if (hs == OCS_FORBIDDEN)
       req->flags |= OR_FORBIDDEN;
 
-    hs = onion_handler_handle(req->connection.listen_point->server->
-                              internal_error_handler, req, res);
+    if (res->flags & OR_HEADER_SENT)    // Too late, there is an answer already
+      hs = OCS_CLOSE_CONNECTION;
+    else
+      hs = onion_handler_handle(req->connection.listen_point->server->
+                                internal_error_handler, req, res);
   }
 
   if (hs == OCS_YIELD) {
-- 
2.43.0


From f7e3cfdb64a221f5ec2775d6a1e7ad52e916abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 061/161] fix: url: when the inside handler declines, the next
 one gets the path it should

---
 src/onion/url.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 4d0d643..ff88d1d 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -80,7 +80,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
         ONION_DEBUG0("Ok, simple match.");
 
         onion_request_advance_path(request, strlen(next->str));
-        return onion_handler_handle(next->inside, request, response);
+        int res = onion_handler_handle(next->inside, request, response);
+        if (res == OCS_NOT_PROCESSED)   // Others may want it
+          request->path = (char *)path;
+        return res;
       }
     } else
         if (regexec
@@ -104,7 +107,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
 
-      return onion_handler_handle(next->inside, request, response);
+      int res = onion_handler_handle(next->inside, request, response);
+      if (res == OCS_NOT_PROCESSED)     // Others may want it
+        request->path = (char *)path;
+      return res;
     }
 
     next = next->next;
-- 
2.43.0


From b37e13081eeb74a30a8279ba9dd4fdfb3406275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 062/161] fix: path: when the inside handler declines, the next
 one gets the path it should

---
 src/onion/handlers/path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/path.c b/src/onion/handlers/path.c
index 53e27c0..83e044b 100644
--- a/src/onion/handlers/path.c
+++ b/src/onion/handlers/path.c
@@ -54,7 +54,11 @@ int onion_handler_path_handler(onion_handler_path_data * d,
 
   onion_request_advance_path(request, match[0].rm_eo);
 
-  return onion_handler_handle(d->inside, request, response);
+  int res = onion_handler_handle(d->inside, request, response);
+  if (res == OCS_NOT_PROCESSED) // Others may want it
+    onion_request_advance_path(request,
+                               path - onion_request_get_path(request));
+  return res;
 }
 
 void onion_handler_path_delete(void *data) {
-- 
2.43.0


From 1d122864b1ee1e5784c2592b492ff15ec4cc1cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 063/161] fix: url: groups after an optional one that did not
 match are not lost

---
 src/onion/url.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index ff88d1d..31f8a03 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -101,8 +101,7 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           snprintf(tmpn, sizeof(tmpn), "%d", i);
           onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
-        } else
-          break;
+        }
       }
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
-- 
2.43.0


From c766a8d624f4b90d5e976ff5147c3fd280222866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 064/161] fix: url: the client can not give other values to the
 groups of the url

---
 src/onion/url.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 31f8a03..6955b55 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -99,7 +99,7 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           tmp[rm->rm_eo - rm->rm_so] = '\0';    // proper finish string
           char tmpn[4];
           snprintf(tmpn, sizeof(tmpn), "%d", i);
-          onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
+          onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE | OD_REPLACE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
         }
       }
-- 
2.43.0


From fd9a769f5f3ccbf826dd37b4298fa4a83257b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:11 +0000
Subject: [PATCH 065/161] fix: shortcuts: a long Range header does not overflow
 the etag

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 860a2be..6eb273e 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -198,7 +198,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
 
   const char *range = onion_request_get_header(request, "Range");
   if (range) {
-    strncat(etag, range, sizeof(etag) - 1);
+    strncat(etag, range, sizeof(etag) - strlen(etag) - 1);
   }
   onion_response_set_header(res, "Etag", etag);
 
-- 
2.43.0


From b385327a574d3d548004c192a596ab7f5fa43bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:11 +0000
Subject: [PATCH 066/161] fix: shortcuts: ranges give exactly those bytes of
 the file, and never more than it has

---
 src/onion/shortcuts.c | 81 ++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 6eb273e..86312e3 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -32,6 +32,7 @@
 #include <sys/stat.h>
 #include <stdlib.h>
 #include <stdio.h>
+#include <stdint.h>
 #include <time.h>
 #include <errno.h>
 #ifdef USE_SENDFILE
@@ -137,6 +138,39 @@ onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                               root_handler, req, res);
 }
 
+/**
+ * @short Reads the byte range "start-[end]" or "-last" of a file of the given length
+ *
+ * @returns 1 if it is a range of the file, 0 if it is no range at all, and -1 if there are no such bytes
+ */
+static int onion_shortcut_parse_range(const char *range, size_t length,
+                                      size_t * starts, size_t * ends) {
+  char *p = (char *)range;
+  int has_start = (*p >= '0' && *p <= '9');
+  if (has_start)
+    *starts = strtoull(p, &p, 10);
+  if (*p++ != '-')
+    return 0;
+  int has_end = (*p >= '0' && *p <= '9');
+  if (has_end)
+    *ends = strtoull(p, &p, 10);
+  else
+    *ends = SIZE_MAX;
+  if (*p || (!has_start && !has_end))
+    return 0;
+  if (!has_start) {             // The last bytes
+    if (*ends == 0)
+      return -1;
+    *starts = (*ends < length) ? length - *ends : 0;
+    *ends = SIZE_MAX;
+  }
+  if (*starts > *ends || *starts >= length)
+    return -1;
+  if (*ends >= length)
+    *ends = length - 1;
+  return 1;
+}
+
 /**
  * @short This shortcut returns the given file contents.
  * @ingroup shortcuts
@@ -203,44 +237,27 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   onion_response_set_header(res, "Etag", etag);
 
   if (range && strncmp(range, "bytes=", 6) == 0) {
-    onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
     //ONION_DEBUG("Need just a range: %s",range);
-    char tmp[1024];
-    if (strlen(range + 6) >= sizeof(tmp)) {
+    char tmp[128];
+    size_t ends, starts;
+    int r = onion_shortcut_parse_range(range + 6, length, &starts, &ends);
+    if (r < 0) {
+      ONION_DEBUG0("Range not satisfiable");
+      snprintf(tmp, sizeof(tmp), "bytes */%zu", length);
+      onion_response_set_header(res, "Content-Range", tmp);
+      onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
+      onion_response_set_length(res, 0);
+      onion_response_write_headers(res);
       close(fd);
-      return OCS_INTERNAL_ERROR;        // Bad specified range. Very bad indeed.
+      return OCS_PROCESSED;
     }
-    strncpy(tmp, range + 6, sizeof(tmp) - 1);
-    char *start = tmp;
-    char *end = tmp;
-    while (*end != '-' && *end)
-      end++;
-    if (*end == '-') {
-      *end = '\0';
-      end++;
-
-      //ONION_DEBUG("Start %s, end %s",start,end);
-      size_t ends, starts;
-      if (*end)
-        ends = atol(end);
-      else
-        ends = length - 1;
-      starts = atol(start);
-      if (starts > ends || starts > length) {
-        ONION_DEBUG0("Range not satisfiable");
-        snprintf(tmp, sizeof(tmp), "bytes */%d", (unsigned int)length);
-        onion_response_set_header(res, "Content-Range", tmp);
-        onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
-        onion_response_write_headers(res);
-        close(fd);
-        return OCS_PROCESSED;
-      }
-      length = ends - starts + 1;
+    if (r > 0) {                // If it is not a valid range, send it all.
+      onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
       lseek(fd, starts, SEEK_SET);
-      snprintf(tmp, sizeof(tmp), "bytes %d-%d/%d", (unsigned int)starts,
-               (unsigned int)ends, (unsigned int)st.st_size);
+      snprintf(tmp, sizeof(tmp), "bytes %zu-%zu/%zu", starts, ends, length);
       //onion_response_set_header(res, "Accept-Ranges","bytes");
       onion_response_set_header(res, "Content-Range", tmp);
+      length = ends - starts + 1;
     }
   }
 
-- 
2.43.0


From 33d344d561927c349ac166cb174435d3dcf802fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:11 +0000
Subject: [PATCH 067/161] fix: shortcuts: only HEAD gets a file without its
 content

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 86312e3..bc601ba 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -276,7 +276,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     return OCS_PROCESSED;
   }
   onion_response_write_headers(res);
-  if ((onion_request_get_flags(request) & OR_HEAD) == OR_HEAD) {        // Just head.
+  if ((onion_request_get_flags(request) & OR_METHODS) == OR_HEAD) {     // Just head.
     length = 0;
   }
 
-- 
2.43.0


From ed4a01c615ad86fd3c893471ffb448bacf7ea6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:11 +0000
Subject: [PATCH 068/161] fix: shortcuts: file reads may be short, fail or find
 the end of a shrunk file

---
 src/onion/shortcuts.c | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index bc601ba..fdc2bb1 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -298,32 +298,27 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     } else
 #endif
     {                           // Ok, no I cant, do it as always.
-      int r = 0, w;
+      ssize_t r, w;
       size_t tr = 0;
       char tmp[4046];
-      if (length > sizeof(tmp)) {
-        size_t max = length - sizeof(tmp);
-        while (tr < max) {
-          r = read(fd, tmp, sizeof(tmp));
-          tr += r;
-          if (r < 0)
-            break;
-          w = onion_response_write(res, tmp, r);
-          if (w != r) {
-            ONION_ERROR
-                ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-                 w, r);
-            break;
-          }
+      while (tr < length) {
+        r = read(fd, tmp,
+                 (length - tr < sizeof(tmp)) ? length - tr : sizeof(tmp));
+        if (r < 0 && errno == EINTR)
+          continue;
+        if (r <= 0) {           // Error, or the file is now shorter. The response can not be completed.
+          ONION_ERROR("Could not read all the file (%s)",
+                      r < 0 ? strerror(errno) : "end of file");
+          close(fd);
+          return OCS_CLOSE_CONNECTION;
         }
-      }
-      if (sizeof(tmp) >= (length - tr)) {
-        r = read(fd, tmp, length - tr);
+        tr += r;
         w = onion_response_write(res, tmp, r);
         if (w != r) {
           ONION_ERROR
               ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-               w, r);
+               (int)w, (int)r);
+          break;
         }
       }
     }
-- 
2.43.0


From 0c601db6049b2b8a5be2d6d96ed391c9d5cdd42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:11 +0000
Subject: [PATCH 069/161] fix: shortcuts: sendfile may send only part of the
 file at once

---
 src/onion/shortcuts.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index fdc2bb1..b2b4c1b 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -285,16 +285,21 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     if (use_sendfile && request->connection.listen_point->write == (void *)onion_http_write) {  // Lets have a house party! I can use sendfile!
       onion_response_write(res, NULL, 0);
       ONION_DEBUG("Using sendfile");
-      int r = sendfile(request->connection.fd, fd, NULL, length);
-      ONION_DEBUG("Wrote %d, should be %d (%s)", r, length,
-                  r == length ? "ok" : "nok");
-      if (r != length || r < 0) {
-        ONION_ERROR("Could not send all file (%s)", strerror(errno));
-        close(fd);
-        return OCS_INTERNAL_ERROR;
+      size_t sent = 0;
+      while (sent < length) {
+        ssize_t r = sendfile(request->connection.fd, fd, NULL, length - sent);
+        if (r < 0 && errno == EINTR)
+          continue;
+        if (r <= 0) {
+          ONION_ERROR("Could not send all file (%s)",
+                      r < 0 ? strerror(errno) : "end of file");
+          close(fd);
+          return OCS_CLOSE_CONNECTION;
+        }
+        sent += r;
+        res->sent_bytes += r;
+        res->sent_bytes_total += r;
       }
-      res->sent_bytes += length;
-      res->sent_bytes_total += length;
     } else
 #endif
     {                           // Ok, no I cant, do it as always.
-- 
2.43.0


From 258e13ae7c4e2fd426e25c97c15bc1c95323ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:11 +0000
Subject: [PATCH 070/161] fix: shortcuts: date strings stay inside the buffer,
 for any time

---
 src/onion/shortcuts.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index b2b4c1b..6447b51 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -365,7 +365,8 @@ onion_connection_status onion_shortcut_response_json(onion_dict * d,
 void onion_shortcut_date_string(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%a, %d %b %Y %T %Z", &ts);
+  if (strftime(dest, 32, "%a, %d %b %Y %T %Z", &ts) == 0)
+    *dest = '\0';
 }
 
 /**
@@ -377,7 +378,8 @@ void onion_shortcut_date_string(time_t t, char *dest) {
 void onion_shortcut_date_string_iso(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%FT%TZ", &ts);
+  if (strftime(dest, 21, "%FT%TZ", &ts) == 0)
+    *dest = '\0';
 }
 
 /**
-- 
2.43.0


From 4d8105c4a6c07cf8d0eef5aa62f2beecf3bad9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:11 +0000
Subject: [PATCH 071/161] fix: shortcuts: moving to another file system removes
 the original only when all was copied

---
 src/onion/shortcuts.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 6447b51..87579bb 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -421,22 +421,36 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
     if (ok == 0) {
       char tmp[4096];
       int r;
-      while ((r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
-        r = write(fd_dest, tmp, r);
+      while (ok == 0 && (r = read(fd_orig, tmp, sizeof(tmp))) != 0) {
         if (r < 0) {
-          ONION_ERROR("Error writing to destination file (%s)",
-                      strerror(errno));
+          if (errno == EINTR)
+            continue;
+          ONION_ERROR("Error reading the original file (%s)", strerror(errno));
           ok = 1;
-          break;
+        }
+        int pos = 0;
+        while (pos < r) {
+          int w = write(fd_dest, tmp + pos, r - pos);
+          if (w < 0) {
+            if (errno == EINTR)
+              continue;
+            ONION_ERROR("Error writing to destination file (%s)",
+                        strerror(errno));
+            ok = 1;
+            break;
+          }
+          pos += w;
         }
       }
     }
-    if (fd_orig >= 0) {
+    if (fd_orig >= 0)
       close(fd_orig);
-      unlink(orig);
+    if (fd_dest >= 0 && close(fd_dest) < 0) {
+      ONION_ERROR("Error writing to destination file (%s)", strerror(errno));
+      ok = 1;
     }
-    if (fd_dest >= 0)
-      close(fd_dest);
+    if (ok == 0)                // All is safe at the destination
+      unlink(orig);
   }
   return ok;
 }
-- 
2.43.0


From ca479d68d4fa5eb50a6d12e248ebc0a16fba0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:11 +0000
Subject: [PATCH 072/161] fix: shortcuts: an internal redirect may use part of
 the current path

---
 src/onion/shortcuts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 87579bb..8de3fe5 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -132,8 +132,9 @@ onion_connection_status onion_shortcut_redirect(const char *newurl,
 onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                                                          onion_request * req,
                                                          onion_response * res) {
+  char *path = onion_low_strdup(newurl);        // newurl may be part of the current path
   onion_low_free(req->fullpath);
-  req->fullpath = req->path = onion_low_strdup(newurl);
+  req->fullpath = req->path = path;
   return onion_handler_handle(req->connection.listen_point->server->
                               root_handler, req, res);
 }
-- 
2.43.0


From dd0da0b5acc98eed2cb36e2c78fa30c14415d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:41 +0000
Subject: [PATCH 073/161] fix: exportlocal: a directory beside the exported one
 is not inside of it

---
 src/onion/handlers/exportlocal.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index df4051b..dbdc4e5 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -61,6 +61,16 @@ int onion_handler_export_local_file(const char *realp, struct stat *reals,
                                     onion_request * request,
                                     onion_response * response);
 
+/// Whether realp, already resolved, is the exported path or is inside of it
+static int onion_handler_export_local_is_inside(const char *localpath,
+                                                const char *realp) {
+  size_t l = strlen(localpath);
+  if (strncmp(realp, localpath, l) != 0)
+    return 0;
+  return realp[l] == '\0' || realp[l] == '/' || (l > 0
+                                                && localpath[l - 1] == '/');
+}
+
 int onion_handler_export_local_handler(onion_handler_export_local_data * d,
                                        onion_request * request,
                                        onion_response * response) {
@@ -89,10 +99,10 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
   }
 
   const char *ret = realpath(tmp, realp);
-  if (!ret || strncmp(realp, d->localpath, strlen(d->localpath)) != 0) {        // out of secured dir.
+  if (!ret || !onion_handler_export_local_is_inside(d->localpath, realp)) {     // out of secured dir.
     ONION_WARNING
         ("Trying to escape from secured dir (secured dir %s, trying %s).",
-         d->localpath, realp);
+         d->localpath, ret ? realp : tmp);
     return 0;
   }
 
-- 
2.43.0


From f43ab8ec249250c6e09731a2eb55e3751df3363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:41 +0000
Subject: [PATCH 074/161] fix: exportlocal: a path that is too long is not
 found, instead of cut

---
 src/onion/handlers/exportlocal.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index dbdc4e5..d73e3d1 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -82,10 +82,13 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
       ONION_ERROR("File path too long");
       return OCS_INTERNAL_ERROR;
     }
-    strncpy(tmp, d->localpath, PATH_MAX - 1);
-  } else
-    snprintf(tmp, PATH_MAX, "%s/%s", d->localpath,
-             onion_request_get_path(request));
+    strcpy(tmp, d->localpath);
+  } else {
+    int l = snprintf(tmp, PATH_MAX, "%s/%s", d->localpath,
+                     onion_request_get_path(request));
+    if (l < 0 || l >= PATH_MAX) // It would be another path
+      return OCS_NOT_PROCESSED;
+  }
 
   ONION_DEBUG0("Get %s (base %s)", tmp, d->localpath);
 
-- 
2.43.0


From bb3fdf543ae4ed65d1bce4860e09e675ac5c712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:41 +0000
Subject: [PATCH 075/161] fix: exportlocal: entries that can not be examined
 are not listed with random data

---
 src/onion/handlers/exportlocal.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index d73e3d1..99c5370 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -202,8 +202,9 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
-    snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
-    stat(temp, &st);
+    int l = snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
+    if (l < 0 || l >= (int)sizeof(temp) || stat(temp, &st) != 0)        // Broken links, just removed...
+      continue;
     pwd = getpwuid(st.st_uid);
 
     if (S_ISDIR(st.st_mode))
-- 
2.43.0


From cbce28ad7a1fa7f00b5f4f01c26cd14b27e2bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:41 +0000
Subject: [PATCH 076/161] fix: exportlocal: names in the listings are text,
 never code

---
 src/onion/handlers/exportlocal.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 99c5370..b1c9844 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -37,6 +37,7 @@
 #include <onion/handler.h>
 #include <onion/response.h>
 #include <onion/codecs.h>
+#include <onion/block.h>
 #include <onion/log.h>
 #include <onion/low.h>
 
@@ -132,7 +133,9 @@ void onion_handler_export_local_header_default(onion_response * res,
                         " table a{ display: block; } th{ cursor: pointer} h1,h2{ color: black; text-align: center; } \n"
                         " a{ color: red; text-decoration: none; }</style>\n");
 
-  onion_response_printf(res, "<h1>Listing of directory %s</h1>\n", dirname);
+  onion_response_write0(res, "<h1>Listing of directory ");
+  onion_response_write_html_safe(res, dirname);
+  onion_response_write0(res, "</h1>\n");
 
   if (dirname[0] != '\0' && dirname[1] != '\0') // It will be 0, when showpath is "/"
     onion_response_write0(res, "<h2><a href=\"..\">Go up..</a></h2>\n");
@@ -162,10 +165,10 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
                         "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Transitional//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd\">\n"
                         "<html>\n"
                         " <head><meta content=\"text/html; charset=UTF-8\" http-equiv=\"content-type\"/>\n");
-  onion_response_printf(res, "<title>Directory listing of %s</title>\n",
-                        showpath);
+  onion_response_write0(res, "<title>Directory listing of ");
+  onion_response_write_html_safe(res, showpath);
   onion_response_write0(res,
-                        "</head>\n" " <body>\n" "<script>\n"
+                        "</title>\n" "</head>\n" " <body>\n" "<script>\n"
                         "showListing = function(){\n"
                         "	var q = function(t){\n"
                         "		return t.replace('\"','%22')\n"
@@ -207,12 +210,22 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
       continue;
     pwd = getpwuid(st.st_uid);
 
+    // The script adds it as HTML.
+    onion_block *name = onion_block_new();
+    char *html = onion_html_quote(fi->d_name);
+    onion_json_quote_add(name, html ? html : fi->d_name);
+    if (html)
+      onion_low_free(html);
+
     if (S_ISDIR(st.st_mode))
-      onion_response_printf(res, "  ['%s/',%ld,'%s','dir'],\n", fi->d_name,
-                            st.st_size, pwd ? pwd->pw_name : "???");
+      onion_response_printf(res, "  [\"%s/\",%ld,'%s','dir'],\n",
+                            onion_block_data(name), st.st_size,
+                            pwd ? pwd->pw_name : "???");
     else
-      onion_response_printf(res, "  ['%s',%ld,'%s','file'],\n", fi->d_name,
-                            st.st_size, pwd ? pwd->pw_name : "???");
+      onion_response_printf(res, "  [\"%s\",%ld,'%s','file'],\n",
+                            onion_block_data(name), st.st_size,
+                            pwd ? pwd->pw_name : "???");
+    onion_block_free(name);
   }
 
   onion_response_write0(res, "  [] ]\n</script>\n");
-- 
2.43.0


From 1a1a98a733861f05177c51a14739759295536123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 077/161] fix: webdav: a path that is too long is refused,
 instead of using another file

---
 src/onion/handlers/webdav.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9298dd8..9a3f1d5 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -112,8 +112,10 @@ onion_connection_status onion_webdav_handler(onion_webdav * wd,
 #endif
 
   char filename[512];
-  snprintf(filename, sizeof(filename), "%s/%s", wd->path,
-           onion_request_get_path(req));
+  int l = snprintf(filename, sizeof(filename), "%s/%s", wd->path,
+                   onion_request_get_path(req));
+  if (l < 0 || l >= (int)sizeof(filename))      // It would be another file
+    return onion_shortcut_response("Path too long", HTTP_BAD_REQUEST, req, res);
 
   ONION_DEBUG("Check %s and %s", wd->path, filename);
   if (wd->check_permissions(wd->path, filename, req) != 0) {
-- 
2.43.0


From 4f6bf1247f1262be7b85cd884c89145962058c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 078/161] fix: webdav: MOVE moves to the destination, once it
 is checked too

---
 src/onion/handlers/webdav.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9a3f1d5..266dc8c 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -32,6 +32,7 @@
 #include <onion/block.h>
 #include <onion/shortcuts.h>
 #include <onion/low.h>
+#include <onion/codecs.h>
 
 #include "webdav.h"
 #include <string.h>
@@ -193,9 +194,12 @@ onion_connection_status onion_webdav_move(const char *filename,
     if (*dest == 0)
       return OCS_INTERNAL_ERROR;
   dest--;
+  char *dest_path = alloca(strlen(dest) + 1);
+  strcpy(dest_path, dest);
+  onion_unquote_inplace(dest_path);
+  dest = dest_path;
 
   const char *fullpath = onion_request_get_fullpath(req);
-  const char *partialpath = onion_request_get_path(req);
   // Not the fixed URL part for this handler.
   int fpl = strlen(fullpath);   // Full path length
   int ppl = strlen(onion_request_get_path(req));        // Partial, the fullpath[fpl-ppl] is the end point of the handler path
@@ -211,15 +215,16 @@ onion_connection_status onion_webdav_move(const char *filename,
   }
   dest = &dest[fpl - ppl];
 
-  char orig[512];
-  snprintf(orig, sizeof(orig), "%s/%s", wd->path, partialpath);
+  const char *orig = filename;  // Already checked
+  char fdest[512];
+  int l = snprintf(fdest, sizeof(fdest), "%s/%s", wd->path, dest);
+  if (l < 0 || l >= (int)sizeof(fdest))
+    return onion_shortcut_response("Path too long", HTTP_BAD_REQUEST, req, res);
 
-  if (wd->check_permissions(wd->path, orig, req) != 0) {
+  if (wd->check_permissions(wd->path, fdest, req) != 0) {
     return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
   }
 
-  const char *fdest = filename;
-
   ONION_INFO("Move %s to %s (webdav)", fullpath, dest_orig);
 
   int ok = onion_shortcut_rename(orig, fdest);
-- 
2.43.0


From 71321a8250fb9b0317b1cfcf65f94a02729350bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 079/161] fix: webdav: a PUT without content is an error, not a
 crash

---
 src/onion/handlers/webdav.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 266dc8c..1e04df8 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -263,7 +263,10 @@ onion_connection_status onion_webdav_put(const char *filename,
                                          onion_response * res) {
   ONION_DEBUG("Webdav puts %s", filename);
 
-  const char *tmpfile = onion_block_data(onion_request_get_data(req));
+  const onion_block *data = onion_request_get_data(req);
+  if (!data)                    // No content
+    return OCS_INTERNAL_ERROR;
+  const char *tmpfile = onion_block_data(data);
 
   int ok = onion_shortcut_rename(tmpfile, filename);
 
-- 
2.43.0


From 195336fb660a421144ddfedb80d8d770d503ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 080/161] fix: webdav: a PROPFIND without content, or that is
 not XML, is answered

---
 src/onion/handlers/webdav.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 1e04df8..e8d5436 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -307,6 +307,10 @@ onion_connection_status onion_webdav_options(const char *filename,
  * 
  */
 static int onion_webdav_parse_propfind(const onion_block * block) {
+  if (!block)                   // No content, asks for them all
+    return WD_RESOURCE_TYPE | WD_CONTENT_LENGTH | WD_LAST_MODIFIED |
+        WD_CREATION_DATE | WD_ETAG | WD_CONTENT_TYPE | WD_DISPLAY_NAME |
+        WD_EXECUTABLE;
   // For parsing the data
   xmlDocPtr doc;
   doc =
@@ -607,6 +611,8 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   }
 
   int props = onion_webdav_parse_propfind(onion_request_get_data(req));
+  if (props < 0)
+    return props;
   ONION_DEBUG("Asking for props %08X, depth %d", props, depth);
 
   onion_block *block = onion_webdav_write_propfind(basepath, filename,
-- 
2.43.0


From a52c3ed7b7e07378b34698b5a91e63b3f9029bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 081/161] fix: webdav: the base of the answers to PROPFIND is
 just the path of the handler

---
 src/onion/handlers/webdav.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index e8d5436..5991cad 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -589,11 +589,10 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   const char *fullpath = onion_request_get_fullpath(req);
   pathlen = (current_path - fullpath);
   basepath = alloca(pathlen + 1);
-  memcpy(basepath, fullpath, pathlen + 1);
-  ONION_DEBUG0("Pathbase initial <%s> %d", basepath, pathlen);
-  while (basepath[pathlen] == '/' && pathlen > 0)
+  memcpy(basepath, fullpath, pathlen);
+  while (pathlen > 0 && basepath[pathlen - 1] == '/')
     pathlen--;
-  basepath[pathlen + 1] = 0;
+  basepath[pathlen] = 0;
 
   ONION_DEBUG0("PROPFIND; pathbase %s", basepath);
   int depth;
-- 
2.43.0


From 001a4c0f2d1602acdaed083eaa028c65846daac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 082/161] fix: webdav: long paths and big files in the answers
 to PROPFIND

---
 src/onion/handlers/webdav.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 5991cad..ce7114b 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -421,7 +421,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
     }
   }
   if (S_ISDIR(st.st_mode) && urlpath[0] != 0)
-    strncat(tmp, "/", sizeof(tmp) - 1);
+    strncat(tmp, "/", sizeof(tmp) - strlen(tmp) - 1);
   ONION_DEBUG0("Props for %s", tmp);
 
   xmlTextWriterStartElement(writer, BAD_CAST "D:response");
@@ -456,7 +456,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
                               BAD_CAST time);
   }
   if (props & WD_CONTENT_LENGTH && !S_ISDIR(st.st_mode)) {
-    snprintf(tmp, sizeof(tmp), "%d", (int)st.st_size);
+    snprintf(tmp, sizeof(tmp), "%lld", (long long)st.st_size);
     xmlTextWriterWriteElement(writer, BAD_CAST "lp1:getcontentlength",
                               BAD_CAST tmp);
   }
-- 
2.43.0


From bb07a357e21490b192a13088c349c9a3afd25666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 083/161] fix: webdav: PROPPATCH of an empty value or of a
 missing file is an error

---
 src/onion/handlers/webdav.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index ce7114b..5dac56a 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -671,17 +671,19 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
               while (prop) {
                 ONION_DEBUG("prop %s", prop->name);
                 if (strcmp((const char *)prop->name, "executable") == 0) {
-                  ONION_DEBUG("Setting executable %s", prop->children->content);
+                  const char *value = prop->children ?
+                      (const char *)prop->children->content : NULL;
+                  ONION_DEBUG("Setting executable %s", value);
                   struct stat st;
-                  stat(filename, &st);
-                  if (prop->children->content[0] == 'T'
-                      || prop->children->content[0] == 't') {
-                    chmod(filename, st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH);
-                  } else {
-                    chmod(filename,
-                          st.st_mode & ~(S_IXUSR | S_IXGRP | S_IXOTH));
+                  if (value && stat(filename, &st) == 0) {
+                    if (value[0] == 'T' || value[0] == 't') {
+                      chmod(filename, st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH);
+                    } else {
+                      chmod(filename,
+                            st.st_mode & ~(S_IXUSR | S_IXGRP | S_IXOTH));
+                    }
+                    ok = 1;
                   }
-                  ok = 1;
                 }
                 prop = prop->next;
               }
-- 
2.43.0


From 6ccc38d6a45a20c718fa2d1604c209fe6fcd66a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 084/161] fix: webdav: broken links and directories beside the
 shared one are not inside of it

---
 src/onion/handlers/webdav.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 5dac56a..743af4b 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -746,17 +746,22 @@ int onion_webdav_default_check_permissions(const char *exported_path,
   if (!file) {                  // Maybe it reffers to a non existent file, so we need the parent permissions
     char *fname = alloca(strlen(filename) + 1);
     strcpy(fname, filename);
-    file = realpath(dirname(fname), NULL);
+    struct stat st;
+    if (lstat(filename, &st) != 0)      // but a broken link may lead anywhere
+      file = realpath(dirname(fname), NULL);
   }
   if (!base || !file) {
     ret = 1;
     ONION_ERROR("Could not resolve real path for %s or %s", exported_path,
                 filename);
   }
-  if ((ret == 0) && strncmp(base, file, strlen(base)) != 0) {
-    ret = 1;
-    ONION_ERROR("Base %s is not for file %s (%p)", base, file,
-                strncmp(base, file, strlen(base)));
+  if (ret == 0) {
+    size_t l = strlen(base);
+    if (strncmp(base, file, l) != 0
+        || (file[l] != 0 && file[l] != '/' && base[l - 1] != '/')) {
+      ret = 1;
+      ONION_ERROR("Base %s is not for file %s", base, file);
+    }
   }
 
   if (base)
-- 
2.43.0


From 426b80e809a984c5b0d0c37692a33ffa64ef174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 085/161] fix: auth_pam: malformed credentials are not
 authorized, instead of a crash

---
 src/onion/handlers/auth_pam.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 4be8fa1..e9d993e 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -58,9 +58,10 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   char *auth = NULL;
   char *username = NULL;
   char *passwd = NULL;
-  if (o && strncmp(o, "Basic", 5) == 0) {
-    //fprintf(stderr,"auth: '%s'\n",&o[6]);
+  if (o && strncmp(o, "Basic ", 6) == 0)
     auth = onion_base64_decode(&o[6], NULL);
+  if (auth) {
+    //fprintf(stderr,"auth: '%s'\n",&o[6]);
     username = auth;
     int i = 0;
     while (auth[i] != '\0' && auth[i] != ':')
-- 
2.43.0


From aa64eed786615b10686a1081ca9f916affbc8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 086/161] fix: auth_pam: long realms

---
 src/onion/handlers/auth_pam.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index e9d993e..03f95ad 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -25,6 +25,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <unistd.h>
+#include <alloca.h>
 
 #include <security/pam_appl.h>
 
@@ -92,8 +93,9 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
     onion_low_free(auth);
 
   // Not authorized. Ask for it.
-  char temp[256];
-  sprintf(temp, "Basic realm=\"%s\"", d->realm);
+  size_t l = strlen(d->realm) + sizeof("Basic realm=\"\"");
+  char *temp = alloca(l);
+  snprintf(temp, l, "Basic realm=\"%s\"", d->realm);
   onion_response_set_header(res, "WWW-Authenticate", temp);
   onion_response_set_code(res, HTTP_UNAUTHORIZED);
   onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED));
-- 
2.43.0


From e1738d2a0d1c4b9e3d81ff55da447950bff6a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 087/161] fix: auth_pam: the page of unauthorized access has no
 final NUL

---
 src/onion/handlers/auth_pam.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 03f95ad..14d7cd7 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -98,10 +98,10 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   snprintf(temp, l, "Basic realm=\"%s\"", d->realm);
   onion_response_set_header(res, "WWW-Authenticate", temp);
   onion_response_set_code(res, HTTP_UNAUTHORIZED);
-  onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED));
+  onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED) - 1);
 
   onion_response_write(res, RESPONSE_UNAUTHORIZED,
-                       sizeof(RESPONSE_UNAUTHORIZED));
+                       sizeof(RESPONSE_UNAUTHORIZED) - 1);
   return OCS_PROCESSED;
 }
 
-- 
2.43.0


From 0c19efa5ed70d85c511fc153a614de5faa13e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 088/161] fix: poller: removing from an empty poller does not
 crash

---
 src/onion/poller.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 39d5678..1f27a14 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -450,7 +450,7 @@ int onion_poller_remove(onion_poller * poller, int fd) {
     onion_poller_slot_free(el);
     return 0;
   }
-  while (el->next) {
+  while (el && el->next) {
     if (el->next->fd == fd) {
       ONION_DEBUG0("Removed from tail %p", el);
       onion_poller_slot *t = el->next;
-- 
2.43.0


From e66cb5250529a64a557df49ec607b0084e9e3043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 089/161] fix: poller: negative timeouts wait forever, short
 ones are not immediate

---
 src/onion/poller.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 1f27a14..1ea3c50 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -212,10 +212,16 @@ void onion_poller_slot_set_shutdown(onion_poller_slot * el, void (*sd) (void *),
  * @memberof onion_poller_slot_t
  *
  * @param el Slot to modify
- * @param timeout Time in milliseconds that this file can be waiting.
+ * @param timeout Time in milliseconds that this file can be waiting. If negative, forever.
  */
 void onion_poller_slot_set_timeout(onion_poller_slot * el, int timeout) {
-  el->timeout = timeout / 1000; // I dont have that resolution.
+  if (timeout < 0) {            // Forever
+    el->timeout = -1;
+    el->timeout_limit = INT_MAX;
+    return;
+  }
+  // I dont have that resolution. Rounds up, so that it is never before time.
+  el->timeout = timeout / 1000 + (timeout % 1000 != 0);
   el->timeout_limit = onion_time() + el->timeout;
   ONION_DEBUG0("Set timeout to %d, %d s", el->timeout_limit, el->timeout);
 }
-- 
2.43.0


From 3a0bfeb241701dfc40f4c67355ca9e24a8c99375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 090/161] fix: poller: timeouts set in the same second as
 another check are not lost

---
 src/onion/poller.c | 56 +++++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 1ea3c50..0573c71 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -245,16 +245,13 @@ static int onion_poller_stop_helper(void *p) {
   return 1;
 }
 
-static time_t onion_poller_last_time = 0;
-
 static int onion_poller_timer(void *p_);
 
 static void onion_poller_timer_check(onion_poller * p, time_t timelimit) {
-  // If maybe timeout limit (p->current_timeout_limit is used atomically)
-  if (timelimit < p->current_timeout_limit) {
-    // Recalculate with proper mutexes.
+  pthread_mutex_lock(&p->mutex);
+  if (timelimit < p->current_timeout_limit)
     onion_poller_timer(p);
-  }
+  pthread_mutex_unlock(&p->mutex);
 }
 
 static int onion_poller_timer(void *p_) {
@@ -266,46 +263,31 @@ static int onion_poller_timer(void *p_) {
   //if (read(p->timerfd, &count, sizeof(count))>0){ // Triggered.. not really interested
   //}
 
+  // Everything with the mutex, so that a limit set meanwhile is not lost.
+  pthread_mutex_lock(&p->mutex);
   time_t ctime = onion_time();
   time_t next_timeout = ctime + (24 * 60 * 60); // At least once per day
 
-  // Do this only once per second max.
-  if (ctime != onion_poller_last_time) {
-    onion_poller_last_time = ctime;
-    pthread_mutex_lock(&p->mutex);
-    onion_poller_slot *next = p->head;
-    while (next) {
-      onion_poller_slot *cur = next;
-      next = next->next;
-      if (cur->timeout_limit <= ctime) {
-        ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
-                    cur->timeout_limit, ctime);
-        cur->timeout_limit = INT_MAX;
-        shutdown(cur->fd, SHUT_RD);
-      } else if (cur->timeout_limit < next_timeout) {
-        next_timeout = cur->timeout_limit;
-      }
+  onion_poller_slot *slot = p->head;
+  while (slot) {
+    onion_poller_slot *cur = slot;
+    slot = slot->next;
+    if (cur->timeout_limit <= ctime) {
+      ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
+                  cur->timeout_limit, ctime);
+      cur->timeout_limit = INT_MAX;
+      shutdown(cur->fd, SHUT_RD);
+    } else if (cur->timeout_limit < next_timeout) {
+      next_timeout = cur->timeout_limit;
     }
-    pthread_mutex_unlock(&p->mutex);
   }
-  // Atomic store.
-  // Try until set if <= next_timeout.
-  time_t origval;
-  time_t oldval;
-  do {                          // Spin until change is acceptable.
-    origval = p->current_timeout_limit;
-    oldval =
-        __sync_val_compare_and_swap(&p->current_timeout_limit, origval,
-                                    next_timeout);
-  } while (                     // Repeat if
-            origval != oldval   // different, so not changed because somebody else changed the value
-            && oldval > next_timeout    // and current timer is for later than my timeout
-      );                        // Ths is when another thread changed if for a later timeout, so I must insist on mine
+  p->current_timeout_limit = next_timeout;
 
   //ONION_DEBUG("Next timeout in %d seconds", p->current_timeout_limit - ctime);
   // rearm
   struct itimerspec next = { {0, 0}, {next_timeout - ctime, 0} };
   timerfd_settime(p->timerfd, 0, &next, NULL);
+  pthread_mutex_unlock(&p->mutex);
 
   return 1;
 }
@@ -563,8 +545,10 @@ void onion_poller_poll(onion_poller * p) {
         n = el->f(el->data);
 
         if (el->timeout > 0) {
+          pthread_mutex_lock(&p->mutex);
           el->timeout_limit = onion_time() + el->timeout;
           onion_poller_timer_check(p, el->timeout_limit);
+          pthread_mutex_unlock(&p->mutex);
         }
       }
       if (n < 0) {
-- 
2.43.0


From f7ea6b191100515b8ab5d4c9564da05759d9fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 091/161] fix: poller: descriptors that can not be polled are
 released

---
 src/onion/poller.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 0573c71..cf6f7ba 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -384,6 +384,10 @@ void onion_poller_free(onion_poller * p) {
  * When new data is available (read/write/event) the given function
  * is called with that data.
  *
+ * If it can not be added the slot is released, calling its shutdown.
+ *
+ * @returns 1 if added, negative on error.
+ *
  * Once the slot is added is not safe anymore to set data on it, unless its detached from the epoll. (see EPOLLONESHOT)
  */
 int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
@@ -406,7 +410,15 @@ int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
   ev.data.ptr = el;
   if (epoll_ctl(poller->fd, EPOLL_CTL_ADD, el->fd, &ev) < 0) {
     ONION_ERROR("Error add descriptor to listen to. %s", strerror(errno));
-    return 1;
+    pthread_mutex_lock(&poller->mutex);
+    onion_poller_slot **prev = &poller->head;
+    while (*prev && *prev != el)
+      prev = &(*prev)->next;
+    if (*prev)
+      *prev = el->next;
+    pthread_mutex_unlock(&poller->mutex);
+    onion_poller_slot_free(el);
+    return -1;
   }
   onion_poller_timer_check(poller, el->timeout_limit);
 
-- 
2.43.0


From d725042b8632dcc0a9e3ea4b62b0ab647d6333f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 092/161] fix: poller: out of descriptors is an error, not a
 crash

---
 src/onion/poller.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index cf6f7ba..4f239f3 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -334,11 +334,15 @@ onion_poller *onion_poller_new(int n) {
 
   onion_poller_slot *ev =
       onion_poller_slot_new(p->eventfd, onion_poller_stop_helper, p);
-  onion_poller_add(p, ev);
-
   p->timerfd = timerfd_create(CLOCK_MONOTONIC, TFD_CLOEXEC | TFD_NONBLOCK);
-  ev = onion_poller_slot_new(p->timerfd, &onion_poller_timer, p);
-  onion_poller_add(p, ev);
+  onion_poller_slot *tev =
+      onion_poller_slot_new(p->timerfd, &onion_poller_timer, p);
+  if (!ev || !tev || onion_poller_add(p, ev) < 0
+      || onion_poller_add(p, tev) < 0) {
+    ONION_ERROR("Error creating the poller descriptors. %s", strerror(errno));
+    onion_poller_free(p);
+    return NULL;
+  }
   onion_poller_timer(p);        // Force first timeout
 
   return p;
-- 
2.43.0


From 3a8184e9e30b2904d90ab39fd136fb1219be0c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:29 +0000
Subject: [PATCH 093/161] fix: poller: events of descriptors just removed are
 ignored

---
 src/onion/poller.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 4f239f3..f603d32 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -449,6 +449,7 @@ int onion_poller_remove(onion_poller * poller, int fd) {
     ONION_DEBUG0("Removed from head %p", el);
 
     poller->head = el->next;
+    el->f = NULL;               // Maybe there are events already waiting.
     pthread_mutex_unlock(&poller->mutex);
 
     onion_poller_slot_free(el);
@@ -459,6 +460,7 @@ int onion_poller_remove(onion_poller * poller, int fd) {
       ONION_DEBUG0("Removed from tail %p", el);
       onion_poller_slot *t = el->next;
       el->next = t->next;
+      t->f = NULL;              // Maybe there are events already waiting.
 
       if (poller->head->next == NULL) { // This means only eventfd is here.
         ONION_DEBUG0("Removed last, stopping poll");
@@ -542,7 +544,7 @@ void onion_poller_poll(onion_poller * p) {
     int i;
     for (i = 0; i < nfds; i++) {
       onion_poller_slot *el = (onion_poller_slot *) event[i].data.ptr;
-      if (!el)
+      if (!el || !el->f)        // Removed by a previous event
         continue;
       // Call the callback
       //ONION_DEBUG("Calling callback for fd %d (%X %X)", el->fd, event[i].events);
-- 
2.43.0


From e1e6135af81e04af18ecf652af6195742ae1e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 094/161] fix: mime: long extensions and types are not cut, nor
 the ones after them lost

---
 src/onion/mime.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index ea2925b..455d268 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -111,7 +111,7 @@ static void onion_mime_fill() {
     return;
   }
   char mimetype[128];
-  char extension[8];
+  char extension[64];
   int mode = 0;                 // 0 mimetype, 1 extension
   int i = 0;
   int c;
@@ -144,16 +144,16 @@ static void onion_mime_fill() {
         if (mode == 0) {
           if (i >= sizeof(mimetype) - 1) {
             while ((c = getc(fd)) >= 0 && c != '\n') ;
+            i = 0;              // Ignored, but the next ones are not.
           } else
             mimetype[i++] = c;
         } else {
           if (i >= sizeof(extension) - 1) {
-            while ((c = getc(fd)) >= 0 && c != '\n') ;
-            extension[i] = '\0';
+            // Ignored, but the next ones of the line are not.
+            while ((c = getc(fd)) >= 0 && !is_space(c) && c != '#') ;
             i = 0;
-            mode = 0;
-            onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
-            //ONION_DEBUG("Add mimetype '%s' (%s)..", extension, mimetype);
+            if (c >= 0)
+              ungetc(c, fd);
           } else
             extension[i++] = c;
         }
-- 
2.43.0


From ba4b1d76a1185271e196a89c7337e91f0ee9ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 095/161] fix: mime: the last line of the file counts also
 without an end of line

---
 src/onion/mime.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 455d268..4ef9cd6 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -116,11 +116,12 @@ static void onion_mime_fill() {
   int i = 0;
   int c;
 
-  while ((c = getc(fd)) >= 0) {
+  do {
+    c = getc(fd);
     if (c == '#') {
       while ((c = getc(fd)) >= 0 && c != '\n') ;
     }
-    if (c == '\n') {
+    if (c == '\n' || c < 0) {   // The last line may have no end
       if (mode == 1 && i != 0) {
         extension[i] = 0;
         onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
@@ -159,7 +160,7 @@ static void onion_mime_fill() {
         }
       }
     }
-  }
+  } while (c >= 0);
   fclose(fd);
 
   ONION_DEBUG("I know %d mime types", onion_dict_count(onion_mime_dict));
-- 
2.43.0


From a0b702af29d844e60d74a68ea9d0ad3b055f4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 096/161] fix: mime: blanks before a type are not an empty type

---
 src/onion/mime.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 4ef9cd6..d860808 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -132,9 +132,11 @@ static void onion_mime_fill() {
     } else {
       if (is_space(c)) {
         if (mode == 0) {
-          mimetype[i] = '\0';
-          mode = 1;
-          i = 0;
+          if (i != 0) {         // else, blanks before the type
+            mimetype[i] = '\0';
+            mode = 1;
+            i = 0;
+          }
         } else if (i != 0) {
           extension[i] = '\0';
           i = 0;
-- 
2.43.0


From a7c2b3404133f80d11c4d61cd73c6423d29b6fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 097/161] fix: mime: updating a known extension changes it

---
 src/onion/mime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index d860808..7b4becd 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -179,7 +179,8 @@ void onion_mime_update(const char *extension, const char *mimetype) {
     onion_mime_fill();
 
   if (mimetype)
-    onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+    onion_dict_add(onion_mime_dict, extension, mimetype,
+                   OD_DUP_ALL | OD_REPLACE);
   else
     onion_dict_remove(onion_mime_dict, extension);
 }
-- 
2.43.0


From 666036e385279520ac306693e13ecbf70664ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 098/161] fix: log: long file names do not overflow the line

---
 src/onion/log.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onion/log.c b/src/onion/log.c
index d034652..665165d 100644
--- a/src/onion/log.c
+++ b/src/onion/log.c
@@ -174,9 +174,13 @@ void onion_log_stderr(onion_log_level level, const char *filename, int lineno,
   struct tm result;
   t = time(NULL);
   localtime_r(&t, &result);
-  strftime(datetime, sizeof(datetime), "%Y-%m-%d %H:%M:%S", &result);
+  if (strftime(datetime, sizeof(datetime), "%Y-%m-%d %H:%M:%S", &result) == 0)
+    datetime[0] = '\0';
 
-  strout_length += sprintf(strout + strout_length, "[%s] [%s %s:%d] ", datetime, levelstr[level], filename, lineno);    // I dont know why basename is char *. Please somebody tell me.
+  // At most 128 bytes of filename, so there is always space for the message
+  strout_length +=
+      sprintf(strout + strout_length, "[%s] [%s %.128s:%d] ", datetime,
+              levelstr[level], filename, lineno);
 
   va_list ap;
   va_start(ap, fmt);
-- 
2.43.0


From 1ca62ddba8f2a4c2e9894e8319ae07c9fdb935b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 099/161] fix: log: messages just one byte too long have no NUL
 inside

---
 src/onion/log.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/onion/log.c b/src/onion/log.c
index 665165d..cb1d106 100644
--- a/src/onion/log.c
+++ b/src/onion/log.c
@@ -188,10 +188,12 @@ void onion_log_stderr(onion_log_level level, const char *filename, int lineno,
   // can be no less than sizeof(strout), and his check ensures there is space for
   // following adds
   {
-    size_t maxsize = sizeof(strout) - strout_length - 6;
-    size_t total_size = vsnprintf(strout + strout_length, maxsize, fmt, ap);
-    if (total_size > maxsize) { // Message too long, truncates it
-      strout_length += maxsize;
+    ssize_t maxsize = sizeof(strout) - strout_length - 6;
+    ssize_t total_size = vsnprintf(strout + strout_length, maxsize, fmt, ap);
+    if (total_size < 0) {       // Could not be formatted
+      ;
+    } else if (total_size >= maxsize) { // Message too long, truncates it
+      strout_length += maxsize - 1;
       strout[strout_length - 1] = '.';
       strout[strout_length - 2] = '.';
       strout[strout_length - 3] = '.';
-- 
2.43.0


From 0f98ae8044a5fa59350a452850f6305b797c7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:58 +0000
Subject: [PATCH 100/161] fix: sessions: the table of the memory backend is
 locked while it is used

---
 src/onion/sessions_mem.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/onion/sessions_mem.c b/src/onion/sessions_mem.c
index f8a31ce..97fac6d 100644
--- a/src/onion/sessions_mem.c
+++ b/src/onion/sessions_mem.c
@@ -35,25 +35,28 @@ char *last_data = NULL;
 static onion_dict *onion_sessions_mem_get(onion_sessions * sessions,
                                           const char *session_id) {
   ONION_DEBUG0("Accessing session '%s'", session_id);
+  onion_dict_lock_read(sessions->data);
   onion_dict *sess = onion_dict_get_dict(sessions->data, session_id);
-  if (!sess) {
+  if (sess)
+    sess = onion_dict_dup(sess);
+  else
     ONION_DEBUG0("Unknown session '%s'.", session_id);
-    return NULL;
-  }
-  return onion_dict_dup(sess);
+  onion_dict_unlock(sessions->data);
+  return sess;
 }
 
 static void onion_sessions_mem_save(onion_sessions * sessions,
                                     const char *session_id, onion_dict * data) {
+  onion_dict_lock_write(sessions->data);
   if (data == NULL) {
     data = onion_dict_get_dict(sessions->data, session_id);
     if (data) {
       onion_dict_remove(sessions->data, session_id);
     }
-    return;
-  }
-  onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
-                 OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
+  } else
+    onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
+                   OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
+  onion_dict_unlock(sessions->data);
 }
 
 static void onion_sessions_mem_free(onion_sessions * sessions) {
-- 
2.43.0


From 1fdbdf7242d60dc264358b5ea9019aea6e0f7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 101/161] fix: listen_point: those not listening do not use the
 standard input

---
 src/onion/https.c        | 8 +++++---
 src/onion/listen_point.c | 1 +
 src/onion/onion.c        | 6 +++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index e1c9e71..15e0654 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -167,9 +167,11 @@ onion_listen_point *onion_https_new() {
  */
 static void onion_https_listen_stop(onion_listen_point * op) {
   ONION_DEBUG("Close HTTPS %s:%s", op->hostname, op->port);
-  shutdown(op->listenfd, SHUT_RDWR);
-  close(op->listenfd);
-  op->listenfd = -1;
+  if (op->listenfd >= 0) {
+    shutdown(op->listenfd, SHUT_RDWR);
+    close(op->listenfd);
+    op->listenfd = -1;
+  }
 }
 
 /**
diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index ebc5bb3..53dd9c7 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -63,6 +63,7 @@ static int onion_listen_point_read_ready(onion_request * req);
  */
 onion_listen_point *onion_listen_point_new() {
   onion_listen_point *ret = onion_low_calloc(1, sizeof(onion_listen_point));
+  ret->listenfd = -1;           // Not listening yet
   return ret;
 }
 
diff --git a/src/onion/onion.c b/src/onion/onion.c
index 279fd18..860ae88 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -498,13 +498,17 @@ int onion_listen(onion * o) {
     onion_listen_point **listen_points = o->listen_points;
     while (*listen_points) {
       onion_listen_point *p = *listen_points;
+      listen_points++;
+      if (p->listenfd < 0)      // Could not listen, or not fd based
+        continue;
       ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
       onion_poller_slot *slot =
           onion_poller_slot_new(p->listenfd, (void *)onion_listen_point_accept,
                                 p);
+      if (!slot)
+        continue;
       onion_poller_slot_set_type(slot, O_POLL_ALL);
       onion_poller_add(o->poller, slot);
-      listen_points++;
     }
 
 #ifdef HAVE_PTHREADS
-- 
2.43.0


From c6ff5f6914085ab2477e3fcd5a86783a0fd5f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 102/161] fix: listen_point: errors when listening are always
 told, and nothing is leaked

---
 src/onion/listen_point.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index 53dd9c7..3395b32 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -185,6 +185,7 @@ int onion_listen_point_listen(onion_listen_point * op) {
   struct addrinfo *result, *rp;
   int sockfd;
 
+  errno = 0;
   memset(&hints, 0, sizeof(struct addrinfo));
   hints.ai_canonname = NULL;
   hints.ai_addr = NULL;
@@ -199,7 +200,7 @@ int onion_listen_point_listen(onion_listen_point * op) {
   if (getaddrinfo(op->hostname, op->port ? op->port : "8080", &hints, &result)
       != 0) {
     ONION_ERROR("Error getting local address and port: %s", strerror(errno));
-    return errno;
+    return errno ? errno : EADDRNOTAVAIL;
   }
 
   int optval = 1;
@@ -230,8 +231,10 @@ int onion_listen_point_listen(onion_listen_point * op) {
     close(sockfd);
   }
   if (rp == NULL) {
+    int err = errno ? errno : EADDRNOTAVAIL;
     ONION_ERROR("Could not find any suitable address to bind to.");
-    return errno;
+    freeaddrinfo(result);
+    return err;
   }
 #ifdef __DEBUG__
   char address[64];
@@ -240,7 +243,12 @@ int onion_listen_point_listen(onion_listen_point * op) {
   ONION_DEBUG("Listening to %s:%s, fd %d", address, &address[32], sockfd);
 #endif
   freeaddrinfo(result);
-  listen(sockfd, 5);            // queue of only 5.
+  if (listen(sockfd, 5) < 0) {  // queue of only 5.
+    int err = errno ? errno : EADDRINUSE;
+    ONION_ERROR("Could not listen: %s", strerror(err));
+    close(sockfd);
+    return err;
+  }
 
   op->listenfd = sockfd;
   return 0;
-- 
2.43.0


From 2619b817f3d6aacd56ee0611503033fdfd92afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 103/161] fix: listen_point: connections that can not be polled
 are closed

---
 src/onion/listen_point.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index 3395b32..2f82003 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -111,8 +111,10 @@ int onion_listen_point_accept(onion_listen_point * op) {
                                                       (void *)
                                                       onion_listen_point_read_ready,
                                                       req);
-      if (!slot)
+      if (!slot) {
+        onion_request_free(req);
         return 1;
+      }
       onion_poller_slot_set_timeout(slot,
                                     req->connection.listen_point->server->
                                     timeout);
-- 
2.43.0


From b75f94f5e3dc4db8d5d5be489b3bb2f1c50bd8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 104/161] fix: onion: asking for a listen point that is not
 there gives NULL

---
 src/onion/onion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 860ae88..7dc22f4 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -674,7 +674,7 @@ int onion_add_listen_point(onion * server, const char *hostname,
  */
 onion_listen_point *onion_get_listen_point(onion * server, int nlisten_point) {
   onion_listen_point **next = server->listen_points;
-  while (next) {                // I have to go one by one, as NULL is the stop marker.
+  while (next && *next) {       // I have to go one by one, as NULL is the stop marker.
     if (nlisten_point == 0)
       return *next;
     nlisten_point--;
-- 
2.43.0


From 17fc1da7f1de00539c620aada6e8aaba93a1c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 105/161] fix: onion: replaced user names and error handlers
 are released

---
 src/onion/onion.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 7dc22f4..cc0aa4d 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -615,6 +615,9 @@ onion_handler *onion_get_root_handler(onion * server) {
  * @ingroup onion
  */
 void onion_set_internal_error_handler(onion * server, onion_handler * handler) {
+  if (server->internal_error_handler
+      && server->internal_error_handler != handler)
+    onion_handler_free(server->internal_error_handler);
   server->internal_error_handler = handler;
 }
 
@@ -729,6 +732,8 @@ int onion_flags(onion * onion) {
  * but the proper way should be use capabilities and/or SELinux.
  */
 void onion_set_user(onion * server, const char *username) {
+  if (server->username)
+    onion_low_free(server->username);
   server->username = onion_low_strdup(username);
 }
 
-- 
2.43.0


From c3cafc4a6ca1bf0ca5f418a5ef96a626e5a92e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 106/161] fix: onion: only threads that were created are
 joined, and their list is released

---
 src/onion/onion.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index cc0aa4d..707c22d 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -515,20 +515,28 @@ int onion_listen(onion * o) {
     ONION_DEBUG("Start polling / listening %p, %p, %p", o->listen_points,
                 *o->listen_points, *(o->listen_points + 1));
     if (o->flags & O_THREADED) {
-      o->threads = onion_low_malloc(sizeof(pthread_t) * (o->nthreads - 1));
-      int i;
+      int i, nthreads = 0;
+      if (o->nthreads > 1)
+        o->threads = onion_low_malloc(sizeof(pthread_t) * (o->nthreads - 1));
       for (i = 0; i < o->nthreads - 1; i++) {
-        onion_low_pthread_create(&o->threads[i], NULL, onion_poller_poll_start,
-                                 o->poller);
+        if (onion_low_pthread_create
+            (&o->threads[nthreads], NULL, onion_poller_poll_start,
+             o->poller) == 0)
+          nthreads++;
+        else
+          ONION_ERROR("Could not create a thread");
       }
 
       // Here is where it waits.. but eventually it will exit at onion_listen_stop
       onion_poller_poll(o->poller);
       ONION_DEBUG("Closing onion_listen");
 
-      for (i = 0; i < o->nthreads - 1; i++) {
+      for (i = 0; i < nthreads; i++) {
         onion_low_pthread_join(o->threads[i], NULL);
       }
+      if (o->threads)
+        onion_low_free(o->threads);
+      o->threads = NULL;
     } else
 #endif
       onion_poller_poll(o->poller);
-- 
2.43.0


From c0891a336712c22232ef75a5cf092e2de0dd1097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 107/161] fix: onion: a stopped server can listen again, and
 stopping waits for the handlers

---
 src/onion/onion.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 707c22d..85e6e80 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -447,8 +447,8 @@ int onion_listen(onion * o) {
         onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
                                  o);
     if (errcode != 0)
-      return errcode;
-    return 0;
+      o->flags &= ~O_DETACHED;
+    return errcode;
   }
 #endif
 
@@ -582,6 +582,9 @@ void onion_listen_stop(onion * server) {
   /// Stop listening
   onion_listen_point **lp = server->listen_points;
   while (*lp) {
+    // Out of the poller before closing it, as that fd may be used again
+    if (server->poller && (*lp)->listenfd >= 0 && !(server->flags & O_ONE))
+      onion_poller_remove(server->poller, (*lp)->listenfd);
     onion_listen_point_listen_stop(*lp);
     lp++;
   }
@@ -590,9 +593,14 @@ void onion_listen_stop(onion * server) {
     onion_poller_stop(server->poller);
   }
 #ifdef HAVE_PTHREADS
-  if (server->flags & O_DETACHED)
-    onion_low_pthread_join(server->listen_thread, NULL);
+  bool detached = server->flags & O_DETACHED;
+  server->flags &= ~O_DETACHED;
+  // Not while waiting, as the handlers that are still working may need it.
   pthread_mutex_unlock (&server->mutex);
+  if (detached) {
+    onion_low_pthread_join(server->listen_thread, NULL);
+    server->flags &= ~O_DETACHED;       // That thread changed the flags too
+  }
 #endif	/* end HAVE_PTHREADS */
 }
 
-- 
2.43.0


From 57c3c511385b9c275e4f37204b9bac8f72cd8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 108/161] fix: https: everything is released when it can not be
 initialized

---
 src/onion/https.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 15e0654..5155dd3 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -108,12 +108,23 @@ onion_listen_point *onion_https_new() {
   gcry_control(GCRYCTL_ENABLE_QUICK_RANDOM, 0);
   //}
 
-  gnutls_global_init();
-  gnutls_certificate_allocate_credentials(&https->x509_cred);
+  int e;
+  e = gnutls_global_init();
+  if (e >= 0) {
+    e = gnutls_certificate_allocate_credentials(&https->x509_cred);
+    if (e < 0)
+      gnutls_global_deinit();
+  }
+  if (e < 0) {
+    ONION_ERROR("Error initializing HTTPS: %s", gnutls_strerror(e));
+    op->free_user_data = NULL;
+    onion_listen_point_free(op);
+    onion_low_free(https);
+    return NULL;
+  }
 
   // set cert here??
   //onion_https_set_certificate(op,O_SSL_CERTIFICATE_KEY, "mycert.pem","mycert.pem");
-  int e;
 #if GNUTLS_VERSION_NUMBER >= 0x020C00
   int bits = gnutls_sec_param_to_pk_bits(GNUTLS_PK_DH, GNUTLS_SEC_PARAM_LOW);
 #else
@@ -123,6 +134,7 @@ onion_listen_point *onion_https_new() {
   if (e < 0) {
     ONION_ERROR("Error initializing HTTPS: %s", gnutls_strerror(e));
     gnutls_certificate_free_credentials(https->x509_cred);
+    gnutls_global_deinit();
     op->free_user_data = NULL;
     onion_listen_point_free(op);
     onion_low_free(https);
@@ -132,6 +144,8 @@ onion_listen_point *onion_https_new() {
   if (e < 0) {
     ONION_ERROR("Error initializing HTTPS: %s", gnutls_strerror(e));
     gnutls_certificate_free_credentials(https->x509_cred);
+    gnutls_dh_params_deinit(https->dh_params);
+    gnutls_global_deinit();
     op->free_user_data = NULL;
     onion_listen_point_free(op);
     onion_low_free(https);
@@ -144,6 +158,7 @@ onion_listen_point *onion_https_new() {
     ONION_ERROR("Error initializing HTTPS: %s", gnutls_strerror(e));
     gnutls_certificate_free_credentials(https->x509_cred);
     gnutls_dh_params_deinit(https->dh_params);
+    gnutls_global_deinit();
     op->free_user_data = NULL;
     onion_listen_point_free(op);
     onion_low_free(https);
-- 
2.43.0


From d603a6634d24289dbccad61f6d4d4eb988f48b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 109/161] fix: https: connections that fail or do not say
 anything do not block the server

---
 src/onion/https.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 5155dd3..810b627 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -219,14 +219,20 @@ static void onion_https_free_user_data(onion_listen_point * op) {
  * @returns <0 in case of error.
  */
 static int onion_https_request_init(onion_request * req) {
-  onion_listen_point_request_init_from_socket(req);
+  if (onion_listen_point_request_init_from_socket(req) < 0)
+    return -1;
   onion_https *https = (onion_https *) req->connection.listen_point->user_data;
 
   ONION_DEBUG("Accept new request, fd %d", req->connection.fd);
 
   gnutls_session_t session;
 
-  gnutls_init(&session, GNUTLS_SERVER);
+  int ret = gnutls_init(&session, GNUTLS_SERVER);
+  if (ret < 0) {
+    ONION_ERROR("Could not create the session (%s)", gnutls_strerror(ret));
+    onion_listen_point_request_close_socket(req);
+    return -1;
+  }
   gnutls_priority_set(session, https->priority_cache);
   gnutls_credentials_set(session, GNUTLS_CRD_CERTIFICATE, https->x509_cred);
   /* Set maximum compatibility mode. This is only suggested on public webservers
@@ -236,10 +242,10 @@ static int onion_https_request_init(onion_request * req) {
 
   gnutls_transport_set_ptr(session,
                            (gnutls_transport_ptr_t) (long)req->connection.fd);
-  int ret;
+  // On timeout it gives AGAIN, and a silent client can not keep this thread.
   do {
     ret = gnutls_handshake(session);
-  } while (ret < 0 && gnutls_error_is_fatal(ret) == 0);
+  } while (ret < 0 && ret != GNUTLS_E_AGAIN && gnutls_error_is_fatal(ret) == 0);
   if (ret < 0) {                // could not handshake. assume an error.
     ONION_ERROR("Handshake has failed (%s)", gnutls_strerror(ret));
     gnutls_bye(session, GNUTLS_SHUT_WR);
-- 
2.43.0


From d1e79d8556ae107e9d05a5d4671acaa0c99c38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 110/161] fix: https: data that was received together is
 processed together

---
 src/onion/https.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 810b627..6558969 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -64,6 +64,7 @@ struct onion_https_t {
 typedef struct onion_https_t onion_https;
 
 int onion_http_read_ready(onion_request * req);
+static int onion_https_read_ready(onion_request * req);
 static int onion_https_request_init(onion_request * req);
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len);
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
@@ -93,7 +94,7 @@ onion_listen_point *onion_https_new() {
   op->read = onion_https_read;
   op->write = onion_https_write;
   op->close = onion_https_close;
-  op->read_ready = onion_http_read_ready;
+  op->read_ready = onion_https_read_ready;
   op->secure = true;
 
   op->user_data = onion_low_calloc(1, sizeof(onion_https));
@@ -258,6 +259,24 @@ static int onion_https_request_init(onion_request * req) {
   return 0;
 }
 
+/**
+ * @short HTTPS client has data ready to be readen
+ * @memberof onion_https_t
+ * @ingroup https
+ *
+ * Data already received and decrypted does not wake up the poller, so it has
+ * to be all processed here.
+ */
+static int onion_https_read_ready(onion_request * req) {
+  int ret;
+  do {
+    ret = onion_http_read_ready(req);
+  } while (ret >= 0
+           && gnutls_record_check_pending((gnutls_session_t)
+                                          req->connection.user_data) > 0);
+  return ret;
+}
+
 /**
  * @short Method to read some HTTPS data.
  * @memberof onion_https_t
@@ -310,7 +329,7 @@ static void onion_https_close(onion_request * req) {
     ONION_DEBUG("Free session %p", session);
     gnutls_bye(session, GNUTLS_SHUT_WR);
     gnutls_deinit(session);
-
+    req->connection.user_data = NULL;
   }
   onion_listen_point_request_close_socket(req);
 }
-- 
2.43.0


From 874c9df1679131a5b759e30fee6808fafa78dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:52 +0000
Subject: [PATCH 111/161] fix: otemplate: a single brace, percent or hash does
 not end or lose anything

---
 tools/otemplate/parser.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index efb3cad..4fb7c5c 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -76,7 +76,7 @@ void parse_template(parser_status * status) {
     case COMMENTHASH:
       if (c == '}')
         set_mode(status, TEXT);
-      else
+      else if (c != '#')
         set_mode(status, COMMENT);
       break;
     case VARIABLE:
@@ -95,7 +95,7 @@ void parse_template(parser_status * status) {
       if (c == '}')
         set_mode(status, TEXT);
       else {
-        set_mode(status, VARIABLE);
+        status->mode = VARIABLE;        // Still the same one
         add_char(status, '}');
         add_char(status, c);
       }
@@ -104,9 +104,11 @@ void parse_template(parser_status * status) {
       if (c == '}')
         set_mode(status, TEXT);
       else {
-        set_mode(status, END_TAG);
         add_char(status, '%');
-        add_char(status, c);
+        if (c != '%') {
+          status->mode = TAG;   // Still the same one
+          add_char(status, c);
+        }
       }
       break;
     default:
@@ -115,6 +117,8 @@ void parse_template(parser_status * status) {
       return;
     }
   }
+  if (status->mode == BEGIN)    // A { at the very end
+    add_char(status, '{');
   set_mode(status, END);
 }
 
-- 
2.43.0


From 1de3cb9d900d13786e775373dc1522c8e5e0863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 112/161] fix: otemplate: long lines are not cut

---
 tools/otemplate/functions.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index 358f1cf..289f2d3 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -222,6 +222,17 @@ function_data *function_pop(parser_status * st) {
   return p;
 }
 
+/// Writes the code to new memory, as long as it is.
+static char *code_new(const char *fmt, va_list ap) {
+  va_list ap2;
+  va_copy(ap2, ap);
+  int l = vsnprintf(NULL, 0, fmt, ap2);
+  va_end(ap2);
+  char *ret = malloc(l + 1);
+  vsnprintf(ret, l + 1, fmt, ap);
+  return ret;
+}
+
 /**
  * @short Adds some code to the top function
  */
@@ -230,11 +241,9 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
   if (p->flags & F_NO_MORE_WRITE)
     return;
 
-  char tmp[4096];
-
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  char *tmp = code_new(fmt, ap);
   va_end(ap);
 
   if (use_orig_line_numbers) {
@@ -262,20 +271,20 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
     //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
     onion_block_add_str(st->current_code, tmp);
   }
+  free(tmp);
 }
 
 /**
  * @short Adds some code to a given function.
  */
 void function_add_code_f(struct function_data_t *f, const char *fmt, ...) {
-  char tmp[4096];
-
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  char *tmp = code_new(fmt, ap);
   va_end(ap);
 
   //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
 
   onion_block_add_str(f->code, tmp);
+  free(tmp);
 }
-- 
2.43.0


From 2bcbf56cc8ad409f1746d4c69e90496f99c9d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 113/161] fix: otemplate: any element of a list can be removed

---
 tools/otemplate/list.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/otemplate/list.c b/tools/otemplate/list.c
index 9442a89..fb6c5be 100644
--- a/tools/otemplate/list.c
+++ b/tools/otemplate/list.c
@@ -93,11 +93,14 @@ void list_pop(list * l) {
   void (*f) (void *p);
   list_item *tail = l->tail;
   f = l->free;
-  if (f)
+  if (f && (tail->flags & LIST_ITEM_FREE))
     f(tail->data);
 
   l->tail = tail->prev;
-  l->tail->next = NULL;
+  if (l->tail)
+    l->tail->next = NULL;
+  else
+    l->head = NULL;
   free(tail);
 }
 
-- 
2.43.0


From 68aca80cf41222c5a5bf367ddd8cb959314a54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 114/161] fix: otemplate: unbalanced or incomplete tags are
 errors, not crashes

---
 tools/otemplate/functions.h    |  5 ++++
 tools/otemplate/otemplate.c    |  6 +++++
 tools/otemplate/tag_builtins.c | 45 +++++++++++++++++++++++++++++++---
 3 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/tools/otemplate/functions.h b/tools/otemplate/functions.h
index 3324375..5fa27a8 100644
--- a/tools/otemplate/functions.h
+++ b/tools/otemplate/functions.h
@@ -29,6 +29,11 @@
 
 enum function_data_flags_e {
   F_NO_MORE_WRITE = 1,
+  // tag it is the content of
+  F_IF = 2,
+  F_ELSE = 4,
+  F_FOR = 8,
+  F_BLOCK = 16,
 };
 
 typedef enum function_data_flags_e function_data_flags;
diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index bd1576e..a9e97d4 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -208,6 +208,12 @@ int work(const char *infilename, const char *outfilename,
 
   parse_template(&status);
 
+  if (list_count(status.function_stack) != 2) {
+    ONION_ERROR("%s:%d There are tags that are never closed", infilename,
+                status.line);
+    status.status = 1;
+  }
+
   ((function_data *) status.function_stack->tail->data)->flags = 0;
 
   function_add_code(&status,
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 4cc9864..6d3bdb2 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -68,6 +68,27 @@ void tag_init_builtins() {
   tag_add("endblock", tag_endblock);
 }
 
+/// Checks that the tag closes one of these, or it is an error.
+static int tag_closes(parser_status * st, list * l, int flags) {
+  function_data *d = (function_data *) st->function_stack->tail->data;
+  if (d->flags & flags)
+    return 1;
+  ONION_ERROR("%s:%d Unexpected tag '%s'", st->infilename, st->line,
+              tag_value_arg(l, 0));
+  st->status = 1;
+  return 0;
+}
+
+/// Checks the tag has at least these arguments, or it is an error.
+static int tag_needs_args(parser_status * st, list * l, int n) {
+  if (list_count(l) > n)
+    return 1;
+  ONION_ERROR("%s:%d Tag '%s' needs %d arguments", st->infilename, st->line,
+              tag_value_arg(l, 0), n);
+  st->status = 1;
+  return 0;
+}
+
 /// Loads an external handler set
 void tag_load(parser_status * st, list * l) {
   list_item *it = l->head->next;
@@ -87,6 +108,8 @@ void tag_load(parser_status * st, list * l) {
 
 /// Do the first for part.
 void tag_for(parser_status * st, list * l) {
+  if (!tag_needs_args(st, l, 3))
+    return;
   function_add_code(st, "  {\n" "    onion_dict *loopdict=NULL;\n");
   variable_solve(st, tag_value_arg(l, 3), "loopdict", 2);
 // "    onion_dict_get_dict(context, \"%s\");\n", tag_value_arg (l,3));
@@ -102,11 +125,14 @@ void tag_for(parser_status * st, list * l) {
                     "  onion_dict_add(dr->dict, \"%s\", value, OD_DUP_VALUE|OD_REPLACE|(flags&OD_TYPE_MASK));\n",
                     tag_value_arg(l, 1));
 
-  function_new(st, NULL);
+  d = function_new(st, NULL);
+  d->flags |= F_FOR;
 }
 
 /// Ends a for
 void tag_endfor(parser_status * st, list * l) {
+  if (!tag_closes(st, l, F_FOR))
+    return;
   // First the preorder function
   function_data *d = function_pop(st);
   function_add_code(st, "  %s(dr->dict, dr->res);\n", d->id);
@@ -159,19 +185,23 @@ void tag_if(parser_status * st, list * l) {
                 st->infilename, st->line, lc - 1);
     st->status = 1;
   }
-  function_new(st, NULL);
+  function_new(st, NULL)->flags |= F_IF;
 }
 
 /// Else part
 void tag_else(parser_status * st, list * l) {
+  if (!tag_closes(st, l, F_IF))
+    return;
   function_data *d = function_pop(st);
   function_add_code(st, "      %s(context, res);\n    else\n", d->id);
 
-  function_new(st, NULL);
+  function_new(st, NULL)->flags |= F_ELSE;
 }
 
 /// endif
 void tag_endif(parser_status * st, list * l) {
+  if (!tag_closes(st, l, F_IF | F_ELSE))
+    return;
   function_data *d = function_pop(st);
   function_add_code(st, "      %s(context, res);\n  }\n", d->id);
 }
@@ -179,6 +209,8 @@ void tag_endif(parser_status * st, list * l) {
 /// Include an external html. This is only the call, the programmer must compile such html too.
 void tag_include(parser_status * st, list * l) {
   assert(st != NULL);           // Tell coverty that at function_new it will keep a pointer to the original, always.
+  if (!tag_needs_args(st, l, 1))
+    return;
 
   function_data *d = function_new(st, "%s", tag_value_arg(l, 1));
   function_pop(st);
@@ -189,6 +221,8 @@ void tag_include(parser_status * st, list * l) {
 }
 
 void tag_extends(parser_status * st, list * l) {
+  if (!tag_needs_args(st, l, 1))
+    return;
   function_data *d = function_new(st, "%s", tag_value_arg(l, 1));
   function_pop(st);
   onion_block_free(d->code);
@@ -200,6 +234,8 @@ void tag_extends(parser_status * st, list * l) {
 }
 
 void tag_block(parser_status * st, list * l) {
+  if (!tag_needs_args(st, l, 1))
+    return;
   const char *block_name = tag_value_arg(l, 1);
   function_add_code(st,
                     "  {\n"
@@ -213,6 +249,7 @@ void tag_block(parser_status * st, list * l) {
   strncpy(tmp, st->infilename, sizeof(tmp) - 1);
   function_data *d =
       function_new(st, "%s__block_%s", onion_basename(tmp), block_name);
+  d->flags |= F_BLOCK;
   function_add_code_f(st->blocks_init,
                       "  if (!onion_dict_get(context, \"__block_%s__\"))\n"
                       "    onion_dict_add(context, \"__block_%s__\", %s, 0);\n",
@@ -220,5 +257,7 @@ void tag_block(parser_status * st, list * l) {
 }
 
 void tag_endblock(parser_status * st, list * l) {
+  if (!tag_closes(st, l, F_BLOCK))
+    return;
   function_pop(st);
 }
-- 
2.43.0


From 8cb86606526bef399cbfc89ed9a9298d48b3be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 115/161] fix: otemplate: a value is neither different, less
 nor greater than itself

---
 tools/otemplate/tag_builtins.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 6d3bdb2..76beb20 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -156,25 +156,30 @@ void tag_if(parser_status * st, list * l) {
   } else if (lc == 4) {
     const char *op = tag_value_arg(l, 2);
     const char *opcmp = NULL;
+    const char *opnull = "op1==op2";    // if any of them does not exist
     if (strcmp(op, "==") == 0)
       opcmp = "==0";
     else if (strcmp(op, "<=") == 0)
       opcmp = "<=0";
-    else if (strcmp(op, "<") == 0)
+    else if (strcmp(op, "<") == 0) {
       opcmp = "<0";
-    else if (strcmp(op, ">=") == 0)
+      opnull = "0";
+    } else if (strcmp(op, ">=") == 0)
       opcmp = ">=0";
-    else if (strcmp(op, ">") == 0)
+    else if (strcmp(op, ">") == 0) {
       opcmp = ">0";
-    else if (strcmp(op, "!=") == 0)
+      opnull = "0";
+    } else if (strcmp(op, "!=") == 0) {
       opcmp = "!=0";
+      opnull = "op1!=op2";
+    }
     if (opcmp) {
       function_add_code(st, "  {\n" "    const char *op1, *op2;\n");
       variable_solve(st, tag_value_arg(l, 1), "op1", tag_type_arg(l, 1));
       variable_solve(st, tag_value_arg(l, 3), "op2", tag_type_arg(l, 3));
       function_add_code(st,
-                        "    if (op1==op2 || (op1 && op2 && strcmp(op1, op2)%s))\n",
-                        opcmp);
+                        "    if ((op1 && op2) ? strcmp(op1, op2)%s : %s)\n",
+                        opcmp, opnull);
     } else {
       ONION_ERROR("%s:%d Unkonwn operator for if: %s", st->infilename, st->line,
                   op);
-- 
2.43.0


From db18780c69a3e511510a127d1abb35f0a73f7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 116/161] fix: otemplate: files that can not be opened are
 errors

---
 tools/otemplate/otemplate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index a9e97d4..76d749f 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -194,6 +194,7 @@ int work(const char *infilename, const char *outfilename,
 
   if (!status.in) {
     ONION_ERROR("Could not open in file %s", infilename);
+    status.status = 1;
     goto work_end;
   }
 
@@ -230,6 +231,7 @@ int work(const char *infilename, const char *outfilename,
     status.out = fopen(outfilename, "wt");
   if (!status.out) {
     ONION_ERROR("Could not open out file %s", infilename);
+    status.status = 1;
     goto work_end;
   }
 
-- 
2.43.0


From 3e1464cdd952d7553c59287846286edf56f719f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 117/161] fix: otemplate: file names are not formats, and may
 be long

---
 tools/otemplate/otemplate.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index 76d749f..34151df 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -180,9 +180,7 @@ int work(const char *infilename, const char *outfilename,
   status.line = 1;
   status.rawblock = onion_block_new();
   status.infilename = infilename;
-  char tmp2[256];
-  strncpy(tmp2, infilename, sizeof(tmp2) - 1);
-  const char *tname = onion_basename(tmp2);
+  const char *tname = onion_basename(infilename);
   ONION_DEBUG("Create init function on top, tname %s", tname);
   status.blocks_init = function_new(&status, "%s_blocks_init", tname);
   status.blocks_init->signature = "onion_dict *context";
@@ -199,7 +197,7 @@ int work(const char *infilename, const char *outfilename,
   }
 
   ONION_DEBUG("Create main function on top, tname %s", tname);
-  function_new(&status, tname);
+  function_new(&status, "%s", tname);
 
   function_add_code(&status,
                     "  int has_context=(context!=NULL);\n"
-- 
2.43.0


From 64957faf039d8dc04d11ca266ebe9915c7f0171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 118/161] fix: otemplate: the template can be read from the
 standard input

---
 tools/otemplate/otemplate.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index 34151df..d393fa4 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -102,14 +102,12 @@ int main(int argc, char **argv) {
     return 2;
   }
 
-  if (strcmp(infilename, "-") == 0) {
-    infilename = "";
-  } else {
+  if (strcmp(infilename, "-") != 0) {
     char tmp2[256];
-    strncpy(tmp2, argv[1], sizeof(tmp2) - 1);
+    snprintf(tmp2, sizeof(tmp2), "%s", infilename);
     snprintf(tmp, sizeof(tmp), "%s/lib%%s.so", dirname(tmp2));
     list_add(plugin_search_path, strdup(tmp));
-    strncpy(tmp2, argv[1], sizeof(tmp2) - 1);
+    snprintf(tmp2, sizeof(tmp2), "%s", infilename);
     snprintf(tmp, sizeof(tmp), "%s/templatetags/lib%%s.so", dirname(tmp2));
     list_add(plugin_search_path, strdup(tmp));
   }
-- 
2.43.0


From bba4215f27b147d6bc7f87e8d02560f88aebfb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 119/161] fix: otemplate: blocks can be in templates with long
 names

---
 tools/otemplate/tag_builtins.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 76beb20..b014980 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -249,11 +249,9 @@ void tag_block(parser_status * st, list * l) {
                     "    if (f)\n"
                     "      f(context, res);\n" "  }\n", block_name);
 
-  char tmp[256];
-  assert(strlen(st->infilename) < sizeof(tmp));
-  strncpy(tmp, st->infilename, sizeof(tmp) - 1);
   function_data *d =
-      function_new(st, "%s__block_%s", onion_basename(tmp), block_name);
+      function_new(st, "%s__block_%s", onion_basename(st->infilename),
+                   block_name);
   d->flags |= F_BLOCK;
   function_add_code_f(st->blocks_init,
                       "  if (!onion_dict_get(context, \"__block_%s__\"))\n"
-- 
2.43.0


From 28bf41e5393596b56c6b3eeb4090e573e050467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:23 +0000
Subject: [PATCH 120/161] fix: opack: each directory has its own name

---
 tools/opack/opack.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index fb63675..24d70e3 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -90,9 +90,8 @@ int main(int argc, char **argv) {
   for (i = 1; i < argc; i++) {
     if (argv[i]) {
       struct stat st;
-      stat(argv[i], &st);
-      if (S_ISDIR(st.st_mode)) {
-        parse_directory(onion_basename(argv[1]), argv[i], outfd, assets);
+      if (stat(argv[i], &st) == 0 && S_ISDIR(st.st_mode)) {
+        parse_directory(onion_basename(argv[i]), argv[i], outfd, assets);
       } else {
         parse_file("", argv[i], outfd, assets);
       }
-- 
2.43.0


From 25c2b93e8b08fe690b2aad8abb2fdcbe1e00dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:23 +0000
Subject: [PATCH 121/161] fix: opack, otemplate: asset files longer than 4 kB
 are kept whole

---
 tools/common/updateassets.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index 35484d9..37a7688 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -139,13 +139,13 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
   if (file) {
     char buffer[4096];
     int r = 0;
-    int o = 0;
+    int used = 0;               // Last line at the buffer, not complete yet
     int total = 0;
     do {
-      r = fread(&buffer[o], 1, sizeof(buffer) - o, file);
-      int i;
-      o = 0;
-      for (i = 0; i < r; i++) {
+      r = fread(&buffer[used], 1, sizeof(buffer) - 1 - used, file);
+      int i, o = 0;
+      int end = used + r;
+      for (i = used; i < end; i++) {
         if (buffer[i] == '\n') {
           buffer[i] = 0;
           ONION_DEBUG("Read original line <%s>", &buffer[o]);
@@ -154,6 +154,14 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
           o = i + 1;
         }
       }
+      used = end - o;
+      if (used > 0 && (r <= 0 || used == sizeof(buffer) - 1)) {
+        buffer[end] = 0;        // Without end of line, or too long
+        onion_assets_file_add_line(ret, &buffer[o]);
+        total += used;
+        used = 0;
+      }
+      memmove(buffer, &buffer[o], used);
     } while (r > 0);
     onion_assets_file_set_tail(ret);
     fclose(file);
-- 
2.43.0


From 714ffd21c2df88df743601c6acb037ab18c82c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:23 +0000
Subject: [PATCH 122/161] fix: opack, otemplate: the assets file is always
 closed

---
 tools/common/updateassets.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index 37a7688..86aab3f 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -238,7 +238,8 @@ int onion_assets_file_free(onion_assets_file * f) {
   if (f->tail)
     onion_assets_write_and_free_until_null(f->tail, file);
 
-  assert(fclose(file) == 0);
+  if (fclose(file) != 0)
+    ONION_ERROR("Could not write all data to %s", f->filename);
   free(f->filename);
   free(f);
   return 0;
-- 
2.43.0


From b0011450fc325e2bc80708833b465aacab35178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 123/161] fix: otemplate: blocks can be inside loops

---
 tools/otemplate/otemplate.c    |  1 +
 tools/otemplate/tag_builtins.c | 14 +++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index d393fa4..5c090c8 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -235,6 +235,7 @@ int work(const char *infilename, const char *outfilename,
           "/** Autogenerated by otemplate v. 0.2.0 */\n"
           "\n"
           "#include <libintl.h>\n"
+          "#include <stdio.h>\n"
           "#include <string.h>\n\n"
           "#include <onion/onion.h>\n"
           "#include <onion/dict.h>\n"
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index b014980..a46c9d0 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -245,8 +245,8 @@ void tag_block(parser_status * st, list * l) {
   function_add_code(st,
                     "  {\n"
                     "    void (*f)(onion_dict *context, onion_response *res);\n"
-                    "    f=(void*)onion_dict_get(context, \"__block_%s__\");\n"
-                    "    if (f)\n"
+                    "    const char *block=onion_dict_get(context, \"__block_%s__\");\n"
+                    "    if (block && sscanf(block, \"%%p\", (void **)&f)==1)\n"
                     "      f(context, res);\n" "  }\n", block_name);
 
   function_data *d =
@@ -254,9 +254,13 @@ void tag_block(parser_status * st, list * l) {
                    block_name);
   d->flags |= F_BLOCK;
   function_add_code_f(st->blocks_init,
-                      "  if (!onion_dict_get(context, \"__block_%s__\"))\n"
-                      "    onion_dict_add(context, \"__block_%s__\", %s, 0);\n",
-                      block_name, block_name, d->id);
+                      // As text, so that the context can be duplicated, as in loops.
+                      "  if (!onion_dict_get(context, \"__block_%s__\")){\n"
+                      "    char block[32];\n"
+                      "    snprintf(block, sizeof(block), \"%%p\", (void *)%s);\n"
+                      "    onion_dict_add(context, \"__block_%s__\", block, OD_DUP_VALUE);\n"
+                      "  }\n",
+                      block_name, d->id, block_name);
 }
 
 void tag_endblock(parser_status * st, list * l) {
-- 
2.43.0


From 76eb518520b7b8572a9b1ff2440050f844f3e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 124/161] fix: otemplate: room for the underscore before names
 that begin with a digit

---
 tools/otemplate/functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index 289f2d3..0066c07 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -178,7 +178,7 @@ function_data *function_new(parser_status * st, const char *fmt, ...) {
     d->is_static = 0;
     va_list va;
     va_start(va, fmt);
-    vsnprintf(tmp, sizeof(tmp), fmt, va);
+    vsnprintf(tmp, sizeof(tmp) - 1, fmt, va);
     va_end(va);
 
     char *p = tmp;
-- 
2.43.0


From 581e67ff6e5c85f55d84fc29b613b296d086f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:24 +0000
Subject: [PATCH 125/161] fix: opack, otemplate: lines that are twice at the
 assets file are kept

---
 tools/common/updateassets.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index 86aab3f..bde4e2b 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -95,23 +95,6 @@ void onion_assets_file_add_line(onion_assets_file * f, const char *line) {
     onion_assets_file_set_head(f);
   }
 
-  if (line) {                   // Check line not yet in.
-    if (f->head) {
-      char **ll = f->head;
-      while (*ll) {
-        if (strcmp(*ll, line) == 0)
-          return;
-        ++ll;
-      }
-    }
-
-    int i;
-    for (i = 0; i < f->lines_count; i++) {
-      if (strcmp(f->lines[i], line) == 0)       // Already in
-        return;
-    }
-  }
-
   if (f->lines_count == f->lines_capacity) {
     if (f->lines_capacity < 2048)
       f->lines_capacity *= 2;
@@ -191,8 +174,21 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
   return ret;
 }
 
+/// Whether the line is at that list of lines
+static int onion_assets_has_line(char **lines, const char *line) {
+  while (lines && *lines) {
+    if (strcmp(*lines, line) == 0)
+      return 1;
+    ++lines;
+  }
+  return 0;
+}
+
 int onion_assets_file_update(onion_assets_file * file, const char *line) {
   int i;
+  if (onion_assets_has_line(file->head, line)
+      || onion_assets_has_line(file->tail, line))
+    return 0;
   for (i = 0; i < file->lines_count; i++) {
     if (strcmp(file->lines[i], line) == 0)
       return 0;
-- 
2.43.0


From c7a9fac3400bcdfa500b42c99e8f390cc3f9ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:24 +0000
Subject: [PATCH 126/161] fix: opack: the handler of a file does not return its
 size

---
 tools/opack/opack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 24d70e3..b1f4c1c 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -176,7 +176,8 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
           "  onion_response_set_header(res, \"Content-Type\", \"%s\");\n",
           mime_type);
   fprintf(outfd,
-          "  return onion_response_write(res, data, sizeof(data));\n}\n\n");
+          "  onion_response_write(res, data, sizeof(data));\n"
+          "  return OCS_PROCESSED;\n}\n\n");
 
   fprintf(outfd, "const unsigned int %s_length = %d;\n\n", fname, l);
 
-- 
2.43.0


From bb8cf77d6df088c8f7756fa32de2f732657e023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:24 +0000
Subject: [PATCH 127/161] fix: opack: file names can have quotes

---
 tools/opack/opack.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index b1f4c1c..9185ed0 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -28,6 +28,7 @@
 #include <unistd.h>
 #include <dirent.h>
 #include <sys/stat.h>
+#include <onion/codecs.h>
 #include <onion/mime.h>
 #include <onion/utils.h>
 
@@ -228,15 +229,16 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
     if (de->d_name[0] == '.' || de->d_name[strlen(de->d_name) - 1] == '~')
       continue;
     char *fname = funcname(prefix, de->d_name);
+    char *name = onion_c_quote_new(de->d_name);
     if (de->d_type == DT_DIR) {
       int l = strlen(de->d_name);
-      fprintf(outfd, "  if (strncmp(\"%s/\", path, %d)==0){\n", de->d_name,
-              l + 1);
+      fprintf(outfd, "  if (strncmp(%s \"/\", path, %d)==0){\n", name, l + 1);
       fprintf(outfd, "    onion_request_advance_path(req, %d);\n", l + 1);
     } else
-      fprintf(outfd, "  if (strcmp(\"%s\", path)==0){\n", de->d_name);
+      fprintf(outfd, "  if (strcmp(%s, path)==0){\n", name);
     fprintf(outfd, "    return %s(_, req, res);\n", fname);
     fprintf(outfd, "  }\n");
+    free(name);
     free(fname);
   }
   closedir(dir);
-- 
2.43.0


From 29594c1f45db0f45834b9631294d778a0194ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:02 +0000
Subject: [PATCH 128/161] fix: opack, otemplate: an assets file of empty lines
 does not leak

---
 tools/common/updateassets.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index bde4e2b..a53ee52 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -146,9 +146,9 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
       }
       memmove(buffer, &buffer[o], used);
     } while (r > 0);
-    onion_assets_file_set_tail(ret);
     fclose(file);
     if (total > 0) {
+      onion_assets_file_set_tail(ret);
       return ret;
     }
   }
-- 
2.43.0


From 936bfcf9b6e2435ae1b1258cb3de26809a498f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 129/161] fix: Onion::Dict assigned to itself, or copied when
 it wraps no dict, uses an invalid dict

---
 src/bindings/cpp/dict.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 110c4bf..4191330 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -76,20 +76,19 @@ Onion::Dict::Dict(const Dict & d)
 d.ptr.get(), &onion_dict_free}
 
 {
-  onion_dict_dup(ptr.get());
+  if (ptr)
+    onion_dict_dup(ptr.get());
 }
 
 Onion::Dict & Onion::Dict::operator=(const Dict & o) {
-  ptr = internal_pointer {
-  o.ptr.get(), &onion_dict_free};
-  onion_dict_dup(o.ptr.get());
-  return *this;
+  return *this = o.ptr.get();
 }
 
 Onion::Dict & Onion::Dict::operator=(onion_dict * o) {
+  if (o)
+    onion_dict_dup(o);          // Before releasing the old one, it may be the same
   ptr = internal_pointer {
   o, &onion_dict_free};
-  onion_dict_dup(ptr.get());
   return *this;
 }
 
-- 
2.43.0


From b6fa861ba86418eb351faf11b3883fc28fc250c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 130/161] fix: Onion::Dict::fromJSON never frees the parsed
 dict

---
 src/bindings/cpp/dict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 4191330..dc6dcfe 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -129,7 +129,7 @@ std::string Onion::Dict::toJSON() const noexcept {
 }
 
 Onion::Dict Onion::Dict::fromJSON(const std::string & jsondata)noexcept {
-  return Dict(onion_dict_from_json(jsondata.c_str()));
+  return Dict(onion_dict_from_json(jsondata.c_str()), true);
 }
 
 Onion::Dict & Onion::Dict::merge(const Dict & other)noexcept {
-- 
2.43.0


From 5d52131a7c2881fa793672956b692a4611f425d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 131/161] fix: a moved from Onion::Dict::lock unlocks a NULL
 dict

---
 src/bindings/cpp/dict.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.hpp b/src/bindings/cpp/dict.hpp
index 77c7c1c..c60177f 100644
--- a/src/bindings/cpp/dict.hpp
+++ b/src/bindings/cpp/dict.hpp
@@ -77,7 +77,8 @@ namespace Onion {
                         /**
 			 * @short Automatically releases a lock when the scope is exited.
 			 */ ~lock() {
-        onion_dict_unlock(dict);
+        if (dict)
+          onion_dict_unlock(dict);
       }
  private:
       onion_dict * dict;
-- 
2.43.0


From 220a94a6e1d799ea7d51f1db64da4ddeee63cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 132/161] fix: Onion::HttpNotFound answers internal error

---
 src/bindings/cpp/exceptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/exceptions.hpp b/src/bindings/cpp/exceptions.hpp
index c332356..dd34988 100644
--- a/src/bindings/cpp/exceptions.hpp
+++ b/src/bindings/cpp/exceptions.hpp
@@ -74,7 +74,7 @@ namespace Onion {
 	*/
   class HttpNotFound:public HttpException {
  public:
-    HttpNotFound(const std::string & str):HttpException(str) {
+    HttpNotFound(const std::string & str):HttpException(str, HTTP_NOT_FOUND) {
     };
     virtual ~ HttpNotFound()throw() {
     }
-- 
2.43.0


From 0e6ea20801d892bfc7e47594b9715bf70b6ff050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 133/161] fix: exceptions not derived from std::exception cross
 the C code and end the program

---
 src/bindings/cpp/handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindings/cpp/handler.cpp b/src/bindings/cpp/handler.cpp
index 13c89c3..07081a6 100644
--- a/src/bindings/cpp/handler.cpp
+++ b/src/bindings/cpp/handler.cpp
@@ -65,6 +65,10 @@ static onion_connection_status onion_handler_call_operator(void *ptr,
     ONION_ERROR("Catched exception: %s", e.what());
     return OCS_INTERNAL_ERROR;
   }
+  catch( ...) {
+    ONION_ERROR("Catched unknown exception");
+    return OCS_INTERNAL_ERROR;
+  }
 }
 
 static void onion_handler_delete_operator(void *ptr) {
-- 
2.43.0


From fea635cd685616ccbd376208d61e8233696e5707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 134/161] fix: moving an Onion::Url that does not own its
 onion_url frees it

---
 src/bindings/cpp/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/url.cpp b/src/bindings/cpp/url.cpp
index cba09b0..5a9dc29 100644
--- a/src/bindings/cpp/url.cpp
+++ b/src/bindings/cpp/url.cpp
@@ -61,7 +61,7 @@ new HandlerMethod < Url > (this, &::Onion::Url::operator())}, ptr {
 Onion::Url::Url(Url && o)
  : Handler {
 new HandlerMethod < Url > (this, &::Onion::Url::operator())}, ptr {
-o.ptr.get(), &onion_url_free}
+o.ptr.get(), o.ptr.get_deleter()}
 
 {
   o.ptr.get_deleter() =[](onion_url *)->void {
-- 
2.43.0


From 092d800ed32cacfdce2679ec8335b8af239d252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 135/161] fix: Onion::ListenPoint::release frees the listen
 point instead of releasing it

---
 src/bindings/cpp/listen_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/listen_point.hpp b/src/bindings/cpp/listen_point.hpp
index 4392b8e..6ef969b 100644
--- a/src/bindings/cpp/listen_point.hpp
+++ b/src/bindings/cpp/listen_point.hpp
@@ -57,7 +57,7 @@ namespace Onion {
 		 * @short Release ownership of the underlying pointer.
 		 */
     void release() {
-      ptr.reset(nullptr);
+      ptr.release();
     }
 
                 /**
-- 
2.43.0


From d9af767e86f1025abfc74fca830d3fa4ee6de65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 136/161] fix: Onion::HttpListenPoint is never freed when it is
 not added to a server

---
 src/bindings/cpp/http.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindings/cpp/http.hpp b/src/bindings/cpp/http.hpp
index 5038ddb..fb5d6b8 100644
--- a/src/bindings/cpp/http.hpp
+++ b/src/bindings/cpp/http.hpp
@@ -40,6 +40,7 @@ namespace Onion {
   class HttpListenPoint:public ListenPoint {
  public:
     HttpListenPoint():ListenPoint(onion_http_new()) {
+      ptr.get_deleter() = onion_listen_point_free;
   }};
 }
 
-- 
2.43.0


From bcdfa83dc3401efa346ac0ddc59296e73667c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 137/161] fix: Onion::HttpsListenPoint is never freed when it
 is not added to a server

---
 src/bindings/cpp/https.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindings/cpp/https.hpp b/src/bindings/cpp/https.hpp
index 9fcb1a6..87c8096 100644
--- a/src/bindings/cpp/https.hpp
+++ b/src/bindings/cpp/https.hpp
@@ -43,6 +43,7 @@ namespace Onion {
   class HttpsListenPoint:public ListenPoint {
  public:
     HttpsListenPoint():ListenPoint(onion_https_new()) {
+      ptr.get_deleter() = onion_listen_point_free;
     }
                 /**
 		 * @short Sets the SSL certificate and key.
-- 
2.43.0


From 9fcd66cc0f1d6754ee27cc69a2e14701fe2ec0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 138/161] fix: Onion::Mime::set leaves the mime system with a
 freed dict

---
 src/bindings/cpp/mime.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/mime.hpp b/src/bindings/cpp/mime.hpp
index 5dc65b5..3456400 100644
--- a/src/bindings/cpp/mime.hpp
+++ b/src/bindings/cpp/mime.hpp
@@ -34,7 +34,7 @@ namespace Onion {
 		 * @short Sets the mime dictionary (extension -> mime_type)
 		 */
     static void set(Onion::Dict & dict) {
-      onion_mime_set(dict.c_handler());
+      onion_mime_set(onion_dict_dup(dict.c_handler()));
     }
                 /**
 		 * @short Get the mime type based on the file name.
-- 
2.43.0


From 5f7042ffe0b7a2adeda34bdc751d853633f0b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:14 +0000
Subject: [PATCH 139/161] fix: flushing the Onion::Response stream buffer with
 no character writes one

---
 src/bindings/cpp/response.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bindings/cpp/response.hpp b/src/bindings/cpp/response.hpp
index 38c4131..7d1f34d 100644
--- a/src/bindings/cpp/response.hpp
+++ b/src/bindings/cpp/response.hpp
@@ -47,6 +47,8 @@ namespace Onion {
  public:
        ResponseBuf(Response * _res):res(_res) {
       } virtual int overflow(int c = traits_type::eof()) {
+        if (traits_type::eq_int_type(c, traits_type::eof()))
+          return traits_type::not_eof(c);
         char C = c;
          res->write(&C, 1);
          return traits_type::not_eof(c);
-- 
2.43.0


From 5ffe4c7257abbed9cc7032eacc610cd518ae9318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:46 +0000
Subject: [PATCH 140/161] fix: the internal status page shows headers of the
 client unquoted

---
 src/onion/handlers/internal_status.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/internal_status.c b/src/onion/handlers/internal_status.c
index b7e2d33..37ad8c4 100644
--- a/src/onion/handlers/internal_status.c
+++ b/src/onion/handlers/internal_status.c
@@ -23,12 +23,18 @@
 
 #include <onion/onion.h>
 #include <onion/dict.h>
+#include <onion/codecs.h>
+#include <onion/low.h>
 #include <onion/types.h>
 #include <onion/types_internal.h>
 
 static void header_write(onion_response * res, const char *key,
                          const char *value, int flags) {
-  onion_response_printf(res, "<li><b>%s</b> = %s</li>", key, value);
+  const char *k = onion_html_quote_dup(key);
+  const char *v = onion_html_quote_dup(value);
+  onion_response_printf(res, "<li><b>%s</b> = %s</li>", k, v);
+  onion_low_free((char *)k);
+  onion_low_free((char *)v);
 }
 
 // static void session_write(onion_response *res, const char *key, onion_dict *value, int flags){
-- 
2.43.0


From 3243189f52fad987cd2d6c07fb727a8771c2bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:15 +0000
Subject: [PATCH 141/161] fix: onion_set_certificate crashes when the HTTPS
 listen point can not be made

---
 src/onion/onion.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 85e6e80..fc16437 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -866,7 +866,8 @@ int onion_set_certificate_va(onion * onion, onion_ssl_certificate_type type,
                              const char *filename, va_list va) {
 #ifdef HAVE_GNUTLS
   if (!onion->listen_points) {
-    onion_add_listen_point(onion, NULL, NULL, onion_https_new());
+    if (onion_add_listen_point(onion, NULL, NULL, onion_https_new()) != 0)
+      return -1;
   } else {
     onion_listen_point *first_listen_point = onion->listen_points[0];
     if (first_listen_point->write != onion_https_write) {
@@ -876,19 +877,18 @@ int onion_set_certificate_va(onion * onion, onion_ssl_certificate_type type,
         return -1;
       }
       ONION_DEBUG("Promoting from HTTP to HTTPS");
-      char *port = first_listen_point->port
-          ? onion_low_strdup(first_listen_point->port) : NULL;
-      char *hostname = first_listen_point->hostname
-          ? onion_low_strdup(first_listen_point->hostname) : NULL;
-      onion_listen_point_free(first_listen_point);
       onion_listen_point *https = onion_https_new();
-      https->server = onion;
       if (NULL == https) {
         ONION_ERROR
             ("Could not promote from HTTP to HTTPS. Certificate not set.");
+        return -1;
       }
-      https->port = port;
-      https->hostname = hostname;
+      https->server = onion;
+      https->port = first_listen_point->port
+          ? onion_low_strdup(first_listen_point->port) : NULL;
+      https->hostname = first_listen_point->hostname
+          ? onion_low_strdup(first_listen_point->hostname) : NULL;
+      onion_listen_point_free(first_listen_point);
       onion->listen_points[0] = https;
       first_listen_point = https;
     }
-- 
2.43.0


From e1760753e757f66cb89e667566a4244db1bb6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:15 +0000
Subject: [PATCH 142/161] fix: onion_set_user does not drop the privileges when
 listening

---
 src/onion/onion.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index fc16437..404ea22 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -147,6 +147,9 @@ onion_url_add_url(url, ...); // Nesting
 #include <signal.h>
 #include <string.h>
 #include <errno.h>
+#include <unistd.h>
+#include <pwd.h>
+#include <grp.h>
 #include <stdbool.h>
 
 //#define HAVE_PTHREADS
@@ -429,6 +432,29 @@ long onion_count_poller_threads(void) {
 }
 #endif
 
+/**
+ * @short Becomes the given user, with its groups.
+ *
+ * @returns 0 if ok, or the errno of the failing step.
+ */
+static int onion_drop_privileges(const char *username) {
+  errno = 0;
+  struct passwd *pw = getpwnam(username);
+  if (!pw) {
+    ONION_ERROR("Can not find user %s to drop privileges", username);
+    return errno ? errno : EINVAL;
+  }
+  if (getuid() == pw->pw_uid && geteuid() == pw->pw_uid)
+    return 0;                   // Nothing to drop
+  if (initgroups(username, pw->pw_gid) != 0 || setgid(pw->pw_gid) != 0
+      || setuid(pw->pw_uid) != 0) {
+    int err = errno ? errno : EPERM;
+    ONION_ERROR("Can not set the uid/gid of user %s", username);
+    return err;
+  }
+  return 0;
+}
+
 /**
  * @short Performs the listening with the given mode
  * @ingroup onion
@@ -471,6 +497,15 @@ int onion_listen(onion * o) {
     return 1;
   }
 
+  if (o->username) {
+    int err = onion_drop_privileges(o->username);
+    if (err != 0) {
+      for (lp = o->listen_points; *lp; lp++)
+        onion_listen_point_listen_stop(*lp);
+      return err;
+    }
+  }
+
   o->flags |= O_LISTENING;
 
   if (o->flags & O_ONE) {
-- 
2.43.0


From 6d272f9b866979eadcfd392c6c9868892e24e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:31 +0000
Subject: [PATCH 143/161] fix: a websocket callback that asks to close is
 called again

---
 src/onion/websocket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 9954384..011b71b 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -559,7 +559,8 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       do {
         last_d_l = ws->data_left;
         ret = ws->callback(ws->user_data, ws, ws->data_left);
-      } while (ws->data_left != 0 && last_d_l != ws->data_left && ws->callback);
+      } while (ret == OCS_NEED_MORE_DATA && ws->data_left != 0
+               && last_d_l != ws->data_left && ws->callback);
     }
 
     if (!ws->callback)          // ws->callback can change ws->callback, so another test, not else.
-- 
2.43.0


From b65b745a8c0781e8e07f8754ddc5ba8e72bd7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:31 +0000
Subject: [PATCH 144/161] fix: the last call of a websocket callback gets the
 data of the request already freed

---
 src/onion/request.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index edaff23..b559775 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -120,11 +120,14 @@ static void unlink_files(void *p, const char *key, const char *value, int flags)
  */
 void onion_request_free(onion_request * req) {
   ONION_DEBUG0("Free request %p", req);
-  onion_dict_free(req->headers);
-
   if (req->connection.listen_point != NULL
       && req->connection.listen_point->close)
     req->connection.listen_point->close(req);
+
+  if (req->websocket)           // Its callback may use the request, so first
+    onion_websocket_free(req->websocket);
+
+  onion_dict_free(req->headers);
   if (req->fullpath)
     onion_low_free(req->fullpath);
   if (req->GET)
@@ -150,9 +153,6 @@ void onion_request_free(onion_request * req) {
   if (req->connection.cli_info)
     onion_low_free(req->connection.cli_info);
 
-  if (req->websocket)
-    onion_websocket_free(req->websocket);
-
   if (req->parser_data)
     onion_request_parser_data_free(req->parser_data);
 
-- 
2.43.0


From 8c214ef913da80b5cdea2a8197726e323bfd0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:14 +0000
Subject: [PATCH 145/161] fix: export_local gives memory of the system to the
 configured free function

---
 src/onion/handlers/exportlocal.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index b1c9844..2b7c24c 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -287,12 +287,14 @@ void onion_handler_export_local_set_footer(onion_handler * handler,
  * that localpath. Normal permissions apply.
  */
 onion_handler *onion_handler_export_local_new(const char *localpath) {
-  char *rp = realpath(localpath, NULL);
-  if (!rp) {
+  char *real = realpath(localpath, NULL);
+  if (!real) {
     ONION_ERROR("Cant calculate the realpath of the given directory (%s).",
                 localpath);
     return NULL;
   }
+  char *rp = onion_low_strdup(real);
+  free(real);                   // From the system, not from onion_low
   struct stat st;
   if (stat(rp, &st) != 0) {
     ONION_ERROR("Cant access to the exported directory/file (%s).", rp);
-- 
2.43.0


From 7bebc6771af6daf81a6457ee328949cf8a0e1a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:14 +0000
Subject: [PATCH 146/161] fix: webdav gives memory of the system to the
 configured free function

---
 src/onion/handlers/webdav.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 743af4b..d1b644e 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -764,10 +764,8 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     }
   }
 
-  if (base)
-    onion_low_free(base);
-  if (file)
-    onion_low_free(file);
+  free(base);                   // From the system, not from onion_low
+  free(file);
   ONION_DEBUG0("Permission %s", ret == 0 ? "granted" : "denied");
   return ret;
 }
-- 
2.43.0


From a406837b3dbb2a2eef867a5c16fd0ff3cb0c8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:02 +0000
Subject: [PATCH 147/161] fix: a line end after a multipart form spoils the
 next request of the connection

---
 src/onion/request_parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index f76fe0b..71679c6 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -893,6 +893,13 @@ static onion_connection_status parse_headers_URL(onion_request * req,
 static onion_connection_status parse_headers_GET(onion_request * req,
                                                  onion_buffer * data) {
   onion_token *token = req->parser_data;
+  if (token->pos == 0) {        // There may be empty lines before the request
+    while (data->pos < data->size
+           && (data->data[data->pos] == '\r' || data->data[data->pos] == '\n'))
+      data->pos++;
+    if (data->pos >= data->size)
+      return OCS_NEED_MORE_DATA;
+  }
   int res = token_read_STRING(token, data);
 
   if (res <= 1000)
-- 
2.43.0


From a160df9ca0a1024c471ac506d97f6ef433e19c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:02 +0000
Subject: [PATCH 148/161] fix: the body of a request sent in chunks is read as
 further requests

---
 src/onion/request_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 71679c6..6c8a622 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -808,6 +808,10 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
   ONION_DEBUG0("Got %d at KEY", res);
 
   if (res == NEW_LINE) {
+    if (onion_request_get_header(req, "Transfer-Encoding")) {
+      ONION_ERROR("Can not read the body of requests with a transfer encoding");
+      return OCS_NOT_IMPLEMENTED;
+    }
     if ((req->flags & OR_METHODS) == OR_POST) {
       const char *content_type = onion_request_get_header(req, "Content-Type");
       if (content_type
-- 
2.43.0


From 97d29880ebdc8c6d3607b01d38a08770c5a101e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:02 +0000
Subject: [PATCH 149/161] fix: a request that arrives together with the end of
 the one before is lost

---
 src/onion/http.c           | 12 ++++++++----
 src/onion/request_parser.c |  4 +++-
 src/onion/types_internal.h |  1 +
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/onion/http.c b/src/onion/http.c
index 1726e22..3995609 100644
--- a/src/onion/http.c
+++ b/src/onion/http.c
@@ -82,13 +82,17 @@ int onion_http_read_ready(onion_request * con) {
   if (len <= 0)
     return OCS_CLOSE_CONNECTION;
 
-  onion_connection_status st = onion_request_write(con, buffer, len);
-  if (st != OCS_NEED_MORE_DATA) {
-    if (st == OCS_REQUEST_READY)
+  size_t pos = 0;
+  onion_connection_status st;
+  do {
+    st = onion_request_write(con, buffer + pos, len - pos);
+    if (st == OCS_REQUEST_READY) {
+      pos += con->parsed;
       st = onion_request_process(con);  // May give error to the connection, or yield or whatever.
+    }
     if (st < 0)
       return st;
-  }
+  } while (st == OCS_KEEP_ALIVE && pos < len);  // The next request may be already here.
 
   return OCS_PROCESSED;
 }
diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 6c8a622..f0a0a2e 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -234,7 +234,7 @@ int token_read_URLENCODE(onion_token * token, onion_buffer * data) {
 
   memcpy(&token->extra[token->pos], &data->data[data->pos], l);
   token->pos += l;
-  data->size -= l;
+  data->pos += l;
 
   if (token->extra_size == token->pos) {
     token->extra[token->pos] = '\0';
@@ -953,10 +953,12 @@ onion_connection_status onion_request_write(onion_request * req,
     while (odata.size > odata.pos) {
       int r = parse(req, &odata);
       if (r != OCS_NEED_MORE_DATA) {
+        req->parsed = odata.pos;
         return r;
       }
       parse = req->parser;
     }
+    req->parsed = odata.pos;
     return OCS_NEED_MORE_DATA;
   }
 
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 82ba55d..dcb6344 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -107,6 +107,7 @@ extern "C" {
     onion_dict *cookies;        /// Data about cookies.
     char *session_id;           /// Session id of the request, if any.
     void *parser;               /// When recieving data, where to put it. Check at request_parser.c.
+    size_t parsed;              /// How much of the data of the last onion_request_write was used.
     void *parser_data;          /// Data necesary while parsing, muy be deleted when state changed. At free is simply freed.
     onion_websocket *websocket; /// Websocket handler. 
     onion_ptr_list *free_list;  /// Memory that should be freed when the request finishes. IT allows to have simpler onion_dict, which dont copy/free data, but just splits a long string inplace.
-- 
2.43.0


From abb40385bd0f79a40c9911ba44673a33d87002be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 150/161] fix: session identifiers are made without random data
 when the generator fails

---
 src/onion/random-gnutls.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/random-gnutls.c b/src/onion/random-gnutls.c
index edbe7a9..2c48167 100644
--- a/src/onion/random-gnutls.c
+++ b/src/onion/random-gnutls.c
@@ -84,7 +84,10 @@ void onion_random_free() {
  */
 void onion_random_generate(void *data, size_t size) {
 #if GNUTLS_VERSION_NUMBER >= 0x020C00
-  gnutls_rnd(GNUTLS_RND_NONCE, data, size);
+  if (gnutls_rnd(GNUTLS_RND_NONCE, data, size) < 0) {
+    ONION_ERROR("Error generating random data");
+    exit(1);
+  }
 #else
   gcry_create_nonce(data, size);
 #endif
-- 
2.43.0


From b221b5609f8aed1bb87e62ddec9be6d2080548d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:36 +0000
Subject: [PATCH 151/161] fix: an image that libpng can not write aborts the
 process

---
 src/onion/extras/png.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/onion/extras/png.c b/src/onion/extras/png.c
index f33811d..7047b5b 100644
--- a/src/onion/extras/png.c
+++ b/src/onion/extras/png.c
@@ -22,6 +22,8 @@
 */
 
 #include <png.h>
+#include <onion/types_internal.h>
+#include <onion/request.h>
 #include <onion/response.h>
 #include <onion/log.h>
 
@@ -52,6 +54,7 @@ static void warning(png_struct * p, const char *msg) {
 // Writes the data to the response
 static void onion_png_write(png_struct * p, png_bytep data, size_t l) {
   onion_png_data *d = (onion_png_data *) png_get_io_ptr(p);
+  d->sent = 1;
   onion_response_write(d->res, (const char *)data, l);
   //ONION_DEBUG("Write");
 }
@@ -103,8 +106,17 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   /* where user_io_ptr is a structure you want available to the callbacks */
 
   onion_response_set_header(res, "Content-Type", "image/png");
-  if (onion_response_write_headers(res) == OR_SKIP_CONTENT)     // Maybe it was HEAD.
+  if ((res->request->flags & OR_METHODS) == OR_HEAD) {
+    onion_response_write_headers(res);
+    png_destroy_write_struct(&png_ptr, &info_ptr);
     return OCS_PROCESSED;
+  }
+
+  // libpng calls error, and comes back here. The headers are not sent until there is some image data.
+  if (setjmp(png_jmpbuf(png_ptr))) {
+    png_destroy_write_struct(&png_ptr, &info_ptr);
+    return OCS_PROCESSED;
+  }
 
   /* Set the image information here.  Width and height are up to 2^31,
    * bit_depth is one of 1, 2, 4, 8, or 16, but valid values also depend on
@@ -157,11 +169,6 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   // Sets the rows to save at the image
   png_set_rows(png_ptr, info_ptr, row_pointers);
 
-  // If header already sent, then there was an error.
-  if (opd.sent) {
-    return OCS_PROCESSED;
-  }
-  opd.sent = 1;
   // Finally WRITE the image. Uses the onion_response_write via onion_png_write helper.
   png_write_png(png_ptr, info_ptr, 0, NULL);
 
-- 
2.43.0


From 33c1c89ffbd0851ff57cc2d3edb2c0ac63563aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:36 +0000
Subject: [PATCH 152/161] fix: large PNG images are read from the wrong place
 and tall ones overflow the stack

---
 src/onion/extras/png.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/onion/extras/png.c b/src/onion/extras/png.c
index 7047b5b..c6600fc 100644
--- a/src/onion/extras/png.c
+++ b/src/onion/extras/png.c
@@ -22,6 +22,7 @@
 */
 
 #include <png.h>
+#include <stdlib.h>
 #include <onion/types_internal.h>
 #include <onion/request.h>
 #include <onion/response.h>
@@ -112,8 +113,11 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
     return OCS_PROCESSED;
   }
 
+  png_bytep *volatile row_pointers = NULL;
+
   // libpng calls error, and comes back here. The headers are not sent until there is some image data.
   if (setjmp(png_jmpbuf(png_ptr))) {
+    free(row_pointers);
     png_destroy_write_struct(&png_ptr, &info_ptr);
     return OCS_PROCESSED;
   }
@@ -158,13 +162,12 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   }
 
   png_uint_32 k;
-  png_bytep row_pointers[height];
-
-  if (height > PNG_UINT_32_MAX / sizeof(png_bytep))
+  row_pointers = malloc((size_t) height * sizeof(png_bytep));
+  if (!row_pointers)
     png_error(png_ptr, "Image is too tall to process in memory");
 
   for (k = 0; k < height; k++)
-    row_pointers[k] = (png_byte *) (image + k * width * Bpp);
+    row_pointers[k] = (png_byte *) (image + (size_t) k * width * Bpp);
 
   // Sets the rows to save at the image
   png_set_rows(png_ptr, info_ptr, row_pointers);
@@ -173,6 +176,7 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   png_write_png(png_ptr, info_ptr, 0, NULL);
 
   /* Clean up after the write, and free any memory allocated */
+  free(row_pointers);
   png_destroy_write_struct(&png_ptr, &info_ptr);
 
   /* That's it */
-- 
2.43.0


From 1ac2f45fcae43fa95d68615993f8a8634c66a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:36 +0000
Subject: [PATCH 153/161] fix: a JPEG image is written past the buffer when the
 headers fill it

---
 src/onion/extras/jpeg.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/onion/extras/jpeg.c b/src/onion/extras/jpeg.c
index 3a9c1fe..463fee2 100644
--- a/src/onion/extras/jpeg.c
+++ b/src/onion/extras/jpeg.c
@@ -75,11 +75,23 @@ void onion_error_exit(j_common_ptr cinfo) {
   longjmp(myerr->setjmp_buffer, 1);
 }
 
-void onion_init_destination(j_compress_ptr cinfo) {
+/// Gives the encoder the free space of the response buffer. There must be some.
+static int onion_jpeg_room(j_compress_ptr cinfo) {
   onion_jpeg_data *d = (onion_jpeg_data *) cinfo->client_data;
+  int ok = 1;
+  while (ok && d->res->buffer_pos == sizeof(d->res->buffer))    // After the headers it may be full again
+    ok = onion_response_flush(d->res) >= 0;
+
   cinfo->dest->next_output_byte =
-      (JOCTET *) & (d->res->buffer[d->res->buffer_pos]);
+      (JOCTET *) & d->res->buffer[d->res->buffer_pos];
   cinfo->dest->free_in_buffer = sizeof(d->res->buffer) - d->res->buffer_pos;
+  return ok;
+}
+
+void onion_init_destination(j_compress_ptr cinfo) {
+  onion_jpeg_data *d = (onion_jpeg_data *) cinfo->client_data;
+  if (!onion_jpeg_room(cinfo))
+    d->sent = 2;
 }
 
 boolean onion_empty_output_buffer(j_compress_ptr cinfo) {
@@ -92,15 +104,12 @@ boolean onion_empty_output_buffer(j_compress_ptr cinfo) {
    */
   d->res->buffer_pos = sizeof(d->res->buffer);
 
-  if (onion_response_flush(d->res) < 0) {
+  if (!onion_jpeg_room(cinfo)) {
     // Flush failed.
     d->sent = 2;
     return FALSE;
   }
 
-  cinfo->dest->next_output_byte =
-      (JOCTET *) & d->res->buffer[d->res->buffer_pos];
-  cinfo->dest->free_in_buffer = sizeof(d->res->buffer) - d->res->buffer_pos;
   return TRUE;
 }
 
-- 
2.43.0


From b111180a92998f563e7f6e7560b15c96c8349515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:36 +0000
Subject: [PATCH 154/161] fix: large JPEG images are read from the wrong place

---
 src/onion/extras/jpeg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/extras/jpeg.c b/src/onion/extras/jpeg.c
index 463fee2..336d8b6 100644
--- a/src/onion/extras/jpeg.c
+++ b/src/onion/extras/jpeg.c
@@ -130,7 +130,7 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
   struct onion_error_mgr jerr;
   /* More stuff */
   JSAMPROW row_pointer[1];      /* pointer to JSAMPLE row[s] */
-  int row_stride;               /* physical row width in image buffer */
+  size_t row_stride;            /* physical row width in image buffer */
 
   onion_response_set_header(res, "Content-Type", "image/jpeg");
   if (onion_response_write_headers(res) == OR_SKIP_CONTENT)     // Maybe it was HEAD.
@@ -205,7 +205,7 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
    * To keep things simple, we pass one scanline per call; you can pass
    * more if you wish, though.
    */
-  row_stride = image_width * image_num_color_channels;  /* JSAMPLEs per row in image_buffer */
+  row_stride = (size_t) image_width * image_num_color_channels;  /* JSAMPLEs per row in image_buffer */
 
   while (cinfo.next_scanline < cinfo.image_height) {
     /* jpeg_write_scanlines expects an array of pointers to scanlines.
-- 
2.43.0


From 2c0b68f8d3ebc9ce1020596b96e1a4672c0f5737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:36 +0000
Subject: [PATCH 155/161] fix: an image that libjpeg can not write is answered
 as success, and again by the next handler

---
 src/onion/extras/jpeg.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/onion/extras/jpeg.c b/src/onion/extras/jpeg.c
index 336d8b6..b159524 100644
--- a/src/onion/extras/jpeg.c
+++ b/src/onion/extras/jpeg.c
@@ -28,6 +28,7 @@
 #include <jpeglib.h>
 
 #include <onion/types_internal.h>
+#include <onion/request.h>
 #include <onion/response.h>
 #include <onion/log.h>
 
@@ -61,9 +62,9 @@ void onion_error_exit(j_common_ptr cinfo) {
   (*(cinfo->err->format_message)) (cinfo, msg);
 
   onion_jpeg_data *d = (onion_jpeg_data *) cinfo->client_data;
-  if (!d->sent) {
+  if (!(d->res->flags & OR_HEADER_SENT)) {
     onion_response_set_code(d->res, HTTP_INTERNAL_ERROR);
-    onion_response_printf(d->res, "Libpng error: %s", msg);
+    onion_response_printf(d->res, "Libjpeg error: %s", msg);
     d->sent = 1;
   }
 
@@ -133,8 +134,16 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
   size_t row_stride;            /* physical row width in image buffer */
 
   onion_response_set_header(res, "Content-Type", "image/jpeg");
-  if (onion_response_write_headers(res) == OR_SKIP_CONTENT)     // Maybe it was HEAD.
+  if ((res->request->flags & OR_METHODS) == OR_HEAD) {
+    onion_response_write_headers(res);
     return OCS_PROCESSED;
+  }
+  // The headers are sent with the first data of the image. Until then errors can be told.
+
+  onion_jpeg_data ojd;
+  ojd.res = res;
+  ojd.sent = 0;
+  cinfo.client_data = (void *)&ojd;     // Errors may happen since the creation
 
   /* Step 1: allocate and initialize JPEG compression object */
   // 1.1 Setup used error routines
@@ -146,17 +155,12 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
      * We need to clean up the JPEG object, and return.
      */
     jpeg_destroy_compress(&cinfo);
-    return 0;
+    return OCS_PROCESSED;
   }
 
   jpeg_create_compress(&cinfo);
 
   /* Step 2: specify data destination */
-  onion_jpeg_data ojd;
-  ojd.res = res;
-  ojd.sent = 0;
-  cinfo.client_data = (void *)&ojd;
-
   // Set function handler to operate directly on response buffers
   struct jpeg_destination_mgr dest;
   cinfo.dest = &dest;
@@ -185,11 +189,6 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
   jpeg_set_quality(&cinfo, output_quality,
                    TRUE /* limit to baseline-JPEG values */ );
 
-  // If header already sent, then there was an error.
-  if (ojd.sent) {
-    return OCS_PROCESSED;
-  }
-
   /* Step 4: Start compressor */
 
   /* TRUE ensures that we will write a complete interchange-JPEG file.
-- 
2.43.0


From 660123c1e35bbe8b824964e82adc60a3146709bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:01 +0000
Subject: [PATCH 156/161] fix: cookies set at the same time in several threads
 get each other's expiry

---
 src/onion/response.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 7c01c47..2d61a2b 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -667,12 +667,11 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
   if (validity_t == 0)
     strcpy(expires, "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
-    struct tm *tmp;
+    struct tm tmp;
     time_t t = time(NULL) + validity_t;
-    tmp = localtime(&t);
-    if (!tmp
+    if (!localtime_r(&t, &tmp)
         || strftime(expires, sizeof(expires),
-                    "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp) == 0) {
+                    "; expires=%a, %d %b %Y %H:%M:%S %Z", &tmp) == 0) {
       ONION_WARNING("Invalid cookie validity. Not added to response.");
       return false;
     }
-- 
2.43.0


From fe070d69b5b6da5631d462218254bc70a4c423f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:48 +0000
Subject: [PATCH 157/161] fix: WebDAV listings give addresses of other
 resources for names with % or other special characters

---
 src/onion/handlers/webdav.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index d1b644e..9f7b717 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -369,6 +369,26 @@ static int onion_webdav_parse_propfind(const onion_block * block) {
   return props;
 }
 
+/**
+ * @short Writes the address of a resource, quoted but for the slashes.
+ */
+static void onion_webdav_write_href(xmlTextWriterPtr writer, const char *path) {
+  onion_block *href = onion_block_new();
+  for (; *path; path++) {
+    if (strchr("/.-_~", *path))
+      onion_block_add_char(href, *path);
+    else {
+      char c[2] = { *path, 0 };
+      char quoted[4];
+      onion_quote(c, quoted, sizeof(quoted));
+      onion_block_add_str(href, quoted);
+    }
+  }
+  xmlTextWriterWriteElement(writer, BAD_CAST "D:href",
+                            BAD_CAST onion_block_data(href));
+  onion_block_free(href);
+}
+
 /**
  * @short Write the properties of a path.
  * 
@@ -430,7 +450,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
   xmlTextWriterWriteAttribute(writer, BAD_CAST "xmlns:a",
                               BAD_CAST "http://apache.org/dav/props/");
 
-  xmlTextWriterWriteElement(writer, BAD_CAST "D:href", BAD_CAST tmp);
+  onion_webdav_write_href(writer, tmp);
 
   /// OK
   xmlTextWriterStartElement(writer, BAD_CAST "D:propstat");
-- 
2.43.0


From e0e860b3aac75dd5c23c90dca0b9b1b98a63d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:48 +0000
Subject: [PATCH 158/161] fix: WebDAV reports success when the permissions
 could not be changed

---
 src/onion/handlers/webdav.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9f7b717..fe67ec1 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -696,13 +696,11 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
                   ONION_DEBUG("Setting executable %s", value);
                   struct stat st;
                   if (value && stat(filename, &st) == 0) {
-                    if (value[0] == 'T' || value[0] == 't') {
-                      chmod(filename, st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH);
-                    } else {
-                      chmod(filename,
-                            st.st_mode & ~(S_IXUSR | S_IXGRP | S_IXOTH));
-                    }
-                    ok = 1;
+                    mode_t mode = st.st_mode & ~(S_IXUSR | S_IXGRP | S_IXOTH);
+                    if (value[0] == 'T' || value[0] == 't')
+                      mode = st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH;
+                    if (chmod(filename, mode) == 0)
+                      ok = 1;
                   }
                 }
                 prop = prop->next;
-- 
2.43.0


From cd070858f26d0a51e032cbcca3263ec11484ebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:48 +0000
Subject: [PATCH 159/161] fix: a WebDAV request for all the properties gets
 none

---
 src/onion/handlers/webdav.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index fe67ec1..383b78f 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -300,6 +300,11 @@ onion_connection_status onion_webdav_options(const char *filename,
   return OCS_PROCESSED;
 }
 
+/// All the properties that can be asked for
+#define WD_ALL (WD_RESOURCE_TYPE | WD_CONTENT_LENGTH | WD_LAST_MODIFIED | \
+                WD_CREATION_DATE | WD_ETAG | WD_CONTENT_TYPE | \
+                WD_DISPLAY_NAME | WD_EXECUTABLE)
+
 /**
  * @short Returns the set of props for this query
  * 
@@ -308,9 +313,7 @@ onion_connection_status onion_webdav_options(const char *filename,
  */
 static int onion_webdav_parse_propfind(const onion_block * block) {
   if (!block)                   // No content, asks for them all
-    return WD_RESOURCE_TYPE | WD_CONTENT_LENGTH | WD_LAST_MODIFIED |
-        WD_CREATION_DATE | WD_ETAG | WD_CONTENT_TYPE | WD_DISPLAY_NAME |
-        WD_EXECUTABLE;
+    return WD_ALL;
   // For parsing the data
   xmlDocPtr doc;
   doc =
@@ -328,6 +331,8 @@ static int onion_webdav_parse_propfind(const onion_block * block) {
     if (strcmp((const char *)root->name, "propfind") == 0) {
       xmlNode *propfind = root->children;
       while (propfind) {
+        if (strcmp((const char *)propfind->name, "allprop") == 0)
+          props |= WD_ALL;
         if (strcmp((const char *)propfind->name, "prop") == 0) {
           xmlNode *prop = propfind->children;
           while (prop) {
-- 
2.43.0


From 443110aef421105edac988795038e9bca1fc31e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 160/161] fix: a websocket callback that writes when its TLS
 connection ends crashes the server

---
 src/onion/https.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/https.c b/src/onion/https.c
index 6558969..20effcd 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -289,6 +289,8 @@ static int onion_https_read_ready(onion_request * req) {
  */
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
   gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
+  if (!session)                 // Already closed
+    return -1;
   ssize_t ret = gnutls_record_recv(session, data, len);
   ONION_DEBUG("Read! (%p), %d bytes", session, ret);
   if (ret < 0) {
@@ -310,6 +312,8 @@ static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len) {
   gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
   ONION_DEBUG("Write! (%p)", session);
+  if (!session)                 // Already closed
+    return -1;
   return gnutls_record_send(session, data, len);
 }
 
-- 
2.43.0


From 358c404dc0dae7e7f27a877a884b42fdef139879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 161/161] fix: the second of two websocket frames that come
 together over TLS waits for more data

---
 src/onion/https.c          | 12 +++++++++---
 src/onion/types_internal.h |  1 +
 src/onion/websocket.c      |  5 ++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 20effcd..0f8c9fc 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -65,6 +65,7 @@ typedef struct onion_https_t onion_https;
 
 int onion_http_read_ready(onion_request * req);
 static int onion_https_read_ready(onion_request * req);
+static int onion_https_pending(onion_request * req);
 static int onion_https_request_init(onion_request * req);
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len);
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
@@ -95,6 +96,7 @@ onion_listen_point *onion_https_new() {
   op->write = onion_https_write;
   op->close = onion_https_close;
   op->read_ready = onion_https_read_ready;
+  op->pending = onion_https_pending;
   op->secure = true;
 
   op->user_data = onion_low_calloc(1, sizeof(onion_https));
@@ -271,12 +273,16 @@ static int onion_https_read_ready(onion_request * req) {
   int ret;
   do {
     ret = onion_http_read_ready(req);
-  } while (ret >= 0
-           && gnutls_record_check_pending((gnutls_session_t)
-                                          req->connection.user_data) > 0);
+  } while (ret >= 0 && onion_https_pending(req));
   return ret;
 }
 
+/// Whether there is data already decrypted at the session
+static int onion_https_pending(onion_request * req) {
+  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
+  return session && gnutls_record_check_pending(session) > 0;
+}
+
 /**
  * @short Method to read some HTTPS data.
  * @memberof onion_https_t
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index dcb6344..7048ce8 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -203,6 +203,7 @@ extern "C" {
      ssize_t(*write) (onion_request * req, const char *data, size_t len);       ///< Write data to the given request.
      ssize_t(*read) (onion_request * req, char *data, size_t len);      ///< Read data from the given request and write it in data.
     void (*close) (onion_request * req);        ///< Closes the connection and frees listen point user data. Request itself it left. It is called from onion_request_free ONLY.
+    int (*pending) (onion_request * req);       ///< Whether there is data already received that does not wake up the poller. NULL if there never is.
     /// @}
   };
 
diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 011b71b..f581c06 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -533,7 +533,10 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
 onion_connection_status onion_websocket_call(onion_websocket * ws) {
   onion_connection_status ret = OCS_NEED_MORE_DATA;
   while (ret == OCS_NEED_MORE_DATA) {
-    if (ws->req->connection.fd > 0) {
+    onion_listen_point *lp = ws->req->connection.listen_point;
+    if (lp && lp->pending && lp->pending(ws->req)) {
+      // Data already received, do not wait for more.
+    } else if (ws->req->connection.fd > 0) {
       struct pollfd pfd;
       pfd.events = POLLIN;
       pfd.fd = ws->req->connection.fd;
-- 
2.43.0

