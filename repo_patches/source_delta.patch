From 2f6c329b0a1492683bdb66956ae2edf72fc44ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 001/145] fix: base64 decode rejects invalid characters and
 stays inside its input

Bytes over 127 indexed past the decode table, several trailing blanks were
decoded as data past the end of the string, and invalid characters were
accepted although the documentation says NULL is returned.
---
 src/onion/codecs.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 1e151c3..70215c1 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -72,8 +72,12 @@ static u_int8_t onion_base64_decode_get_next(const char **I){
     c = (int)**I;
   }
   // ONION_DEBUG("GET %c", (char)c);
+  if (c == '\0')                // Never go past the end
+    return 255;
   (*I)++;
-  return db64[c];
+  if (c == '=')                 // Padding
+    return 64;
+  return (c < sizeof(db64)) ? db64[c] : 255;
 }
 
 /**
@@ -118,33 +122,35 @@ char *onion_base64_decode(const char *orig, int *length) {
 
   if (ol == 0){
     ONION_DEBUG("Empty base64 string.");
+    *ret = 0;
     return ret;
   }
 
   I = orig;
   char *J = ret;
-  while (I < endI){
+  int ll = 0;
+  for (; ol > 0; ol -= 4){
     // ONION_DEBUG("I %p endI %p", I, endI);
     const u_int8_t c1 = onion_base64_decode_get_next(&I);
     const u_int8_t c2 = onion_base64_decode_get_next(&I);
     const u_int8_t c3 = onion_base64_decode_get_next(&I);
     const u_int8_t c4 = onion_base64_decode_get_next(&I);
 
+    // Only the last group may be padded, and only at the end.
+    if (c1 > 63 || c2 > 63 || c3 > 64 || c4 > 64 || (c3 == 64 && c4 != 64)
+        || (c4 == 64 && ol > 4)){
+      ONION_DEBUG("Invalid Base64 string.");
+      onion_low_free(ret);
+      return NULL;
+    }
+
     *J++ = ((c1 & 0x3F) << 2) + ((c2 & 0x30) >> 4);
     *J++ = ((c2 & 0x0F) << 4) + ((c3 & 0x3C) >> 2);
-    *J++ = ((c3 & 0x03) << 6) + (c4);
+    *J++ = ((c3 & 0x03) << 6) + (c4 & 0x3F);
+    ll += (c3 == 64) ? 1 : (c4 == 64) ? 2 : 3;
 
     // ONION_DEBUG("%d / %d: %d %d %d %d -> %c %c %c", I - orig, endI - I, c1, c2, c3, c4, *(J-3), *(J-2), *(J-1));
   }
-  *J = 0;
-
-  // ONION_DEBUG("Two end? %c %c // ll %d, %d", *(I - 2), *(I - 1), max_length,  J - ret);
-  int ll = J - ret;
-  if (*(I - 2) == '=')
-    ll = ll - 2;
-  else if (*(I - 1) == '=')
-    ll = ll - 1;
-
   ret[ll] = 0;
 
   if (length) {                 // Set the right size.. only if i need it.
-- 
2.43.0


From 1ba0c757df72ed3f25f909ca8cd7da028c12dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 002/145] fix: URL unquote of a truncated escape at the end of
 the string

A trailing '%' or '%x' skipped over the terminator and kept on decoding
whatever followed the string in memory.
---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 70215c1..326bc29 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -261,7 +261,7 @@ void onion_unquote_inplace(char *str) {
   char *w = str;
   char tmp[3] = { 0, 0, 0 };
   while (*r) {
-    if (*r == '%') {
+    if (*r == '%' && r[1] && r[2]) {
       r++;
       tmp[0] = *r++;
       tmp[1] = *r;
-- 
2.43.0


From cc9ff7497efb315f93b7542b0aa9f8ee65dc92c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 003/145] fix: onion_quote honours maxlength

The limit was compared with the position in the input and not with what was
already written, so that quoted characters overflowed the result.
---
 src/onion/codecs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 326bc29..0be69cc 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -307,13 +307,13 @@ int onion_quote(const char *str, char *res, int maxlength) {
   int l = strlen(str);
   int i;
   for (i = 0; i < l; i++) {
-    if (i >= maxlength)
+    if (nl + 1 >= maxlength)
       break;
     char c = str[i];
     if (is_alnum(c))
       res[nl++] = c;
     else {
-      if (i + 2 >= maxlength)
+      if (nl + 3 >= maxlength)
         break;
 
       res[nl++] = '%';
-- 
2.43.0


From 09440d0e621705910294ab91f20fd8eba195957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 004/145] fix: C quote of carriage return is \\r, not \\n

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 0be69cc..a1139da 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -367,7 +367,7 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     } else if (*p == '\r') {
       *r = '\\';
       r++;
-      *r = 'n';
+      *r = 'r';
     } else if (*p == '"') {
       *r = '\\';
       r++;
-- 
2.43.0


From 3b5d0bc36ab5b4f1b300df88ca661f7cf6dc1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 005/145] fix: onion_c_quote honours the maximum length

Every character was counted as one byte whatever it is quoted to, so that
quoted characters overflowed the result.
---
 src/onion/codecs.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index a1139da..98387a1 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -354,6 +354,16 @@ char *onion_c_quote(const char *str, char *ret, int l) {
   *r++ = '"';
   l -= 3;                       // both " at start and end, and \0
   while (*p != '\0') {
+    int needed = 1;             // How much is written for this char
+    if (*p == '\n')
+      needed = 5;
+    else if (*p == '\r' || *p == '"' || *p == '\\' || *p == '\t')
+      needed = 2;
+    else if (*p > 127)
+      needed = 4;
+    if (l < needed)             // does not fit!
+      break;
+    l -= needed;
     if (*p == '\n') {
       *r = '\\';
       r++;
@@ -382,10 +392,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
       *r = 't';
     } else if (*p > 127) {
       int c = *p;
-      if (l < 4) {              // does not fit!
-        *r = '\0';
-        return ret;
-      }
       *r = '\\';
       r++;
       *r = '0' + ((c >> 6) & 0x03);
@@ -398,11 +404,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     }
     r++;
     p++;
-    l--;
-    if (l <= 0) {
-      *r = '\0';
-      break;
-    }
   }
   *r++ = '"';
   *r++ = '\0';
-- 
2.43.0


From c10c2fe552bca06976b13edb7ac64973a9a186af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 006/145] fix: onion_html_quote_dup returns a copy when nothing
 needs quoting

It returned NULL instead of a fresh string.
---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 98387a1..1dce5c0 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -532,7 +532,7 @@ const char *onion_html_quote_dup(const char *str) {
   if (quostr != NULL)
     return quostr;
   else
-    return onion_low_strdup(quostr);
+    return onion_low_strdup(str);
 }
 
 /**
-- 
2.43.0


From dee5a65999671627d88abfa1389bc3fd36dbdf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 007/145] fix: unterminated JSON string is an error

The end of string check was only done when it could not happen, and the
parser kept on reading after the terminator.
---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 1dce5c0..c66dec0 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -702,7 +702,7 @@ ssize_t onion_json_unquote_add(onion_block * block, const char *str) {
         continue;
       }
     }
-    if (!eos && !*data) {       // \0, expecting \" as eos
+    if (!*data) {               // \0, expecting \" as eos
       ONION_DEBUG("Expected \" got eof");
       return -1;
     }
-- 
2.43.0


From 8bfddfc018a08630c01e4facb5b602b23d58ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:35 +0000
Subject: [PATCH 008/145] fix: onion_dict_remove tells whether it removed
 something

It is documented to return if any node was removed, but always returned 1.
---
 src/onion/dict.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index fbbe6e5..a098244 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -449,6 +449,8 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
  * Returns if it removed any node.
  */
 int onion_dict_remove(onion_dict * dict, const char *key) {
+  if (!onion_dict_find_node(dict, dict->root, key, NULL))
+    return 0;
   dict->root = onion_dict_node_remove(dict, dict->root, key);
   return 1;
 }
-- 
2.43.0


From 159881f634e901393b0c0a0afbe4bf2b9b6f204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:48 +0000
Subject: [PATCH 009/145] fix: copies of case insensitive dicts are case
 insensitive

---
 src/onion/dict.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index a098244..20de381 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -172,6 +172,7 @@ void onion_dict_hard_dup_helper(onion_dict * dict, const char *key,
  */
 onion_dict *onion_dict_hard_dup(onion_dict * dict) {
   onion_dict *d = onion_dict_new();
+  d->cmp = dict->cmp;
   onion_dict_preorder(dict, onion_dict_hard_dup_helper, d);
   return d;
 }
-- 
2.43.0


From a4deb99fd18a006a0d32c1c387f883c3ccb39c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:48 +0000
Subject: [PATCH 010/145] fix: removing from a dict with repeated keys

The node used as replacement was removed by key, and with repeated keys another
node could be removed (and its data freed) instead: a value was lost and
another one stayed twice, dangling when one of them was removed.
---
 src/onion/dict.c | 55 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 20de381..5fe11a2 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -389,6 +389,43 @@ static void onion_dict_node_data_free(onion_dict_node_data * data) {
   }
 }
 
+/// Rebalances a node after a removal below it
+static onion_dict_node *onion_dict_node_rebalance(onion_dict_node * node) {
+  decrease_level(node);
+  node = skew(node);
+  if (node->right) {
+    node->right = skew(node->right);
+    if (node->right->right)
+      node->right->right = skew(node->right->right);
+  }
+  node = split(node);
+  if (node->right)
+    node->right = split(node->right);
+  return node;
+}
+
+/// Removes the first node by order, but not its data. The key is not enough to find it: there may be more with the same.
+static onion_dict_node *onion_dict_node_remove_first(onion_dict_node * node) {
+  if (!node->left) {
+    onion_dict_node *t = node->right;
+    onion_low_free(node);
+    return t;
+  }
+  node->left = onion_dict_node_remove_first(node->left);
+  return onion_dict_node_rebalance(node);
+}
+
+/// Removes the last node by order, but not its data.
+static onion_dict_node *onion_dict_node_remove_last(onion_dict_node * node) {
+  if (!node->right) {
+    onion_dict_node *t = node->left;
+    onion_low_free(node);
+    return t;
+  }
+  node->right = onion_dict_node_remove_last(node->right);
+  return onion_dict_node_rebalance(node);
+}
+
 /// AA tree remove the node
 static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
                                                onion_dict_node * node,
@@ -415,8 +452,7 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
         t = t->left;
       //ONION_DEBUG("Set data from %p[%s] to %p[already deleted %s]",t,t->data.key, node, key);
       memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->right = onion_dict_node_remove(d, node->right, t->data.key);
+      node->right = onion_dict_node_remove_first(node->right);
       //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
     } else {
       onion_dict_node *t = node->left;  // Get prev key node
@@ -424,22 +460,11 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
         t = t->right;
 
       memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->left = onion_dict_node_remove(d, node->left, t->data.key);
+      node->left = onion_dict_node_remove_last(node->left);
       //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
     }
   }
-  decrease_level(node);
-  node = skew(node);
-  if (node->right) {
-    node->right = skew(node->right);
-    if (node->right->right)
-      node->right->right = skew(node->right->right);
-  }
-  node = split(node);
-  if (node->right)
-    node->right = split(node->right);
-  return node;
+  return onion_dict_node_rebalance(node);
 }
 
 /**
-- 
2.43.0


From 184f0e6247408fda06683665556292de59be5e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:48 +0000
Subject: [PATCH 011/145] fix: JSON keys have to be quoted

An unquoted key was read up to the end of the string, and parsing went on
after the terminator.
---
 src/onion/dict.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 5fe11a2..6fe3048 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -780,6 +780,10 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
   onion_block *value = onion_block_new();
   while (*data != '}') {
     // Get Key
+    if (*data != '"') {         // Includes \0
+      ONION_DEBUG("Expected \" got %c", *data);
+      goto error;
+    }
     ssize_t read_bytes = onion_json_unquote_add(key, data);
     if (read_bytes < 0)
       goto error;
-- 
2.43.0


From e385f553363c5687c08db9ccfb18aa8555670028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:49 +0000
Subject: [PATCH 012/145] fix: too long tokens are detected also when they
 arrive in small pieces

---
 src/onion/request_parser.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e6aa933..5dd3d2c 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -105,8 +105,6 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
   char c = data->data[data->pos++];
   while (!is_space(c)) {
     token->str[token->pos++] = c;
-    if (data->pos >= data->size)
-      return OCS_NEED_MORE_DATA;
     if (token->pos >= (sizeof(token->str) - 1)) {
       char tmp[16];
       strncpy(tmp, token->str, 16);
@@ -116,6 +114,8 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
            token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    if (data->pos >= data->size)
+      return OCS_NEED_MORE_DATA;
     c = data->data[data->pos++];
   }
   int ret;
@@ -148,14 +148,15 @@ int token_read_until(onion_token * token, onion_buffer * data, char delimiter) {
   while (c != delimiter && c != '\n') {
     if (c != '\r')              // Just ignore it here
       token->str[token->pos++] = c;
-    if (data->pos >= data->size) {
-      return OCS_NEED_MORE_DATA;
-    }
     if (token->pos >= (sizeof(token->str) - 1)) {
+      token->str[token->pos] = '\0';
       ONION_ERROR("Token too long to parse it. Part read is %s (%d bytes)",
                   token->str, token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    if (data->pos >= data->size) {
+      return OCS_NEED_MORE_DATA;
+    }
     c = data->data[data->pos++];
   }
   int ret = STRING;
-- 
2.43.0


From 5f75f54a6deb95f6794c1030bdacdf6d5e9192a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:49 +0000
Subject: [PATCH 013/145] fix: empty header values and folded headers with CRLF
 line ends

---
 src/onion/request_parser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 5dd3d2c..6661a08 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -213,10 +213,9 @@ int token_read_LINE(onion_token * token, onion_buffer * data) {
 
     c = data->data[data->pos++];
   }
-  if (token->str[token->pos - 1] == '\r')
-    token->str[token->pos - 1] = '\0';
-  else
-    token->str[token->pos] = '\0';
+  if (token->pos > 0 && token->str[token->pos - 1] == '\r')
+    token->pos--;
+  token->str[token->pos] = '\0';
   //token->pos=0;
 
   //ONION_DEBUG0("Found LINE token %s",token->str);
-- 
2.43.0


From ad09a6377a1d0a6160cb733be98c1c614c24ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:49 +0000
Subject: [PATCH 014/145] fix: continuation lines of folded headers stay inside
 the token and the header

---
 src/onion/request_parser.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 6661a08..73ccc74 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -724,6 +724,9 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
                                                  onion_buffer * data);
 static onion_connection_status parse_headers_VALUE(onion_request * req,
                                                    onion_buffer * data);
+static onion_connection_status
+parse_headers_VALUE_multiline_if_space(onion_request * req,
+                                       onion_buffer * data);
 
 static onion_connection_status
 parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
@@ -732,10 +735,16 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
     char peek = data->data[data->pos++];
     if (peek != '\t' && peek != ' ') {
       onion_token *token = req->parser_data;
-      if (peek == '\n')
+      if (peek == '\r')         // May be the start of the new line
+        continue;
+      if (peek == '\n') {       // Nothing on this line, maybe there is more on the next one.
+        req->parser = parse_headers_VALUE_multiline_if_space;
         return OCS_NEED_MORE_DATA;
-      token->str[token->pos++] = ' ';
-      token->str[token->pos++] = peek;
+      }
+      if (token->pos + 2 < sizeof(token->str)) {        // Else ignore remaining, as at token_read_LINE
+        token->str[token->pos++] = ' ';
+        token->str[token->pos++] = peek;
+      }
       req->parser = parse_headers_VALUE;
       return parse_headers_VALUE(req, data);
     }
-- 
2.43.0


From 200d611afeaa1d1adc0aa2ca6af10840ae4664eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:49 +0000
Subject: [PATCH 015/145] fix: a NUL byte at the start of a header line hangs
 the parser

---
 src/onion/request_parser.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 73ccc74..8c483d0 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -304,12 +304,6 @@ int token_read_NEW_LINE(onion_token * token, onion_buffer * data) {
   return res;
 }
 
-static char token_peek_next_char(onion_buffer * data) {
-  if (data->pos >= data->size)
-    return '\0';                // If not enought data, go to safe side.
-  return data->data[data->pos];
-}
-
 static onion_connection_status parse_POST_multipart_next(onion_request * req,
                                                          onion_buffer * data);
 
@@ -755,12 +749,12 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
 static onion_connection_status
 parse_headers_VALUE_multiline_if_space(onion_request * req,
                                        onion_buffer * data) {
-  char peek = token_peek_next_char(data);
-  ONION_DEBUG0("Multiline if space, peek %d", peek);
-  if (peek == 0) {
+  if (data->pos >= data->size) {        // If not enought data, wait for it.
     req->parser = parse_headers_VALUE_multiline_if_space;
     return OCS_NEED_MORE_DATA;
   }
+  char peek = data->data[data->pos];
+  ONION_DEBUG0("Multiline if space, peek %d", peek);
   if (peek == ' ' || peek == '\t') {
     req->parser = parse_headers_VALUE_skip_leading_whitespace;
     return parse_headers_VALUE_skip_leading_whitespace(req, data);
-- 
2.43.0


From b9122a4013757f958b8e2b97c5125153dd349ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:49 +0000
Subject: [PATCH 016/145] fix: new line after the HTTP version may arrive in
 two pieces

---
 src/onion/request_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 8c483d0..77bd178 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -299,7 +299,6 @@ int token_read_NEW_LINE(onion_token * token, onion_buffer * data) {
     else
       res = OCS_INTERNAL_ERROR;
   }
-  token->pos = 0;
 
   return res;
 }
-- 
2.43.0


From 901ddb995e4eae7dce2f21909520bfccbe9410a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:52 +0000
Subject: [PATCH 017/145] fix: temporal files of uploads are closed and fully
 written, or the request fails

---
 src/onion/request_parser.c | 75 ++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 77bd178..5be879b 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -26,6 +26,7 @@
 #include <libgen.h>
 #include <fcntl.h>
 #include <unistd.h>
+#include <errno.h>
 #include <assert.h>
 
 #include "dict.h"
@@ -61,6 +62,7 @@ typedef struct onion_token_s {
 
   char *extra;                  // Only used when need some previous data, like at header value, i need the key
   size_t extra_size;
+  int fd;                       // Temporal file being written, or -1. Closed when the parser data is freed.
 } onion_token;
 
 /// @private
@@ -88,7 +90,6 @@ typedef struct onion_multipart_buffer_s {
   char *filename;               /// point to a in data position
   size_t file_total_size;       /// Total size of all file read data
   size_t post_total_size;       /// Total size of post, to check limits
-  int fd;                       /// If file, the file descriptor.
 } onion_multipart_buffer;
 
 static void onion_request_parse_query_to_dict(onion_dict * dict, char *p);
@@ -338,6 +339,20 @@ static onion_connection_status parse_CONTENT_LENGTH(onion_request * req,
   return OCS_NEED_MORE_DATA;
 }
 
+/// Writes all the data, or returns -1.
+static int write_all(int fd, const char *data, size_t size) {
+  while (size > 0) {
+    ssize_t w = write(fd, data, size);
+    if (w < 0 && errno == EINTR)
+      continue;
+    if (w <= 0)
+      return -1;
+    data += w;
+    size -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Reads from the data to fulfill content-length data.
  *
@@ -355,13 +370,7 @@ static onion_connection_status parse_PUT(onion_request * req,
   }
   //ONION_DEBUG0("Writing %d. %d / %d bytes", length, token->pos+length, token->extra_size);
 
-  int *fd = (int *)token->extra;
-  ssize_t w = write(*fd, &data->data[data->pos], length);
-  if (w < 0) {
-    // cleanup
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+  if (write_all(token->fd, &data->data[data->pos], length) < 0) {
     ONION_ERROR("Could not write all data to temporal file.");
     return OCS_INTERNAL_ERROR;
   }
@@ -374,9 +383,8 @@ static onion_connection_status parse_PUT(onion_request * req,
 #endif
 
   if (exit) {
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+    close(token->fd);
+    token->fd = -1;
     return OCS_REQUEST_READY;
   }
 
@@ -410,15 +418,14 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
 
-        int w = write(multipart->fd, tmp, tmppos);
-        if (w != tmppos) {
+        if (write_all(token->fd, tmp, tmppos) < 0) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
 
-        close(multipart->fd);
+        close(token->fd);
+        token->fd = -1;
         req->parser = parse_POST_multipart_next;
         return OCS_NEED_MORE_DATA;
       }
@@ -432,20 +439,16 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         multipart->file_total_size += multipart->pos;
         int r = multipart->pos - multipart->startpos;
         //ONION_DEBUG0("Write %d bytes",r);
-        int w = write(multipart->fd, tmp, tmppos);
-        if (w != tmppos) {
+        if (write_all(token->fd, tmp, tmppos) < 0) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
 
-        w = write(multipart->fd, multipart->boundary + multipart->startpos, r);
-        if (w != r) {
+        if (write_all(token->fd, multipart->boundary + multipart->startpos, r) < 0) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         multipart->startpos = multipart->pos = 0;
@@ -455,11 +458,9 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
       //ONION_DEBUG0("Write 1 byte");
       tmp[tmppos++] = *p;
       if (tmppos == sizeof(tmp)) {
-        int w = write(multipart->fd, tmp, tmppos);
-        if (w != tmppos) {
+        if (write_all(token->fd, tmp, tmppos) < 0) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -468,11 +469,9 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
     multipart->file_total_size++;
     p++;
   }
-  int w = write(multipart->fd, tmp, tmppos);
-  if (w != tmppos) {
+  if (write_all(token->fd, tmp, tmppos) < 0) {
     ONION_ERROR
         ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-    close(multipart->fd);
     return OCS_INTERNAL_ERROR;
   }
   return OCS_NEED_MORE_DATA;
@@ -638,9 +637,11 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
 
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
-      multipart->fd = mkstemp(filename);
-      if (multipart->fd < 0)
+      token->fd = mkstemp(filename);
+      if (token->fd < 0) {
         ONION_ERROR("Could not create temporal file at %s.", filename);
+        return OCS_INTERNAL_ERROR;
+      }
       if (!req->FILES)
         req->FILES = onion_dict_new();
       onion_dict_add(req->POST, multipart->name, multipart->filename, 0);
@@ -914,7 +915,9 @@ static onion_connection_status parse_headers_GET(onion_request * req,
 onion_connection_status onion_request_write(onion_request * req,
                                             const char *data, size_t size) {
   if (!req->parser_data) {
-    req->parser_data = onion_low_calloc(1, sizeof(onion_token));
+    onion_token *token = onion_low_calloc(1, sizeof(onion_token));
+    token->fd = -1;
+    req->parser_data = token;
     req->parser = parse_headers_GET;
   }
 
@@ -1139,8 +1142,10 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 
   char filename[] = "/tmp/onion-XXXXXX";
   int fd = mkstemp(filename);
-  if (fd < 0)
+  if (fd < 0) {
     ONION_ERROR("Could not create temporary file at %s.", filename);
+    return OCS_INTERNAL_ERROR;
+  }
 
   onion_block_add_str(req->data, filename);
   ONION_DEBUG0("Creating PUT file %s (%d bytes long)", filename,
@@ -1160,11 +1165,7 @@ static onion_connection_status prepare_PUT(onion_request * req) {
     return OCS_REQUEST_READY;
   }
 
-  int *pfd = onion_low_scalar_malloc(sizeof(fd));
-  *pfd = fd;
-
-  assert(token->extra == NULL);
-  token->extra = (char *)pfd;
+  token->fd = fd;
   token->extra_size = cl;
   token->pos = 0;
 
@@ -1178,6 +1179,8 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 void onion_request_parser_data_free(void *t) {
   ONION_DEBUG0("Free parser data");
   onion_token *token = t;
+  if (token->fd >= 0)
+    close(token->fd);
   if (token->extra) {
     onion_low_free(token->extra);
     token->extra = NULL;
-- 
2.43.0


From 776f85c4ce24a26ad22270b1ec9c82efab70bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:52 +0000
Subject: [PATCH 018/145] fix: the file size limit counts each uploaded byte
 once, and all of them

---
 src/onion/request_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 5be879b..7ebd576 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -430,14 +430,16 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         return OCS_NEED_MORE_DATA;
       }
     } else {
+      int r = 1;
+      if (multipart->pos != 0)
+        r = multipart->pos - multipart->startpos;
+      multipart->file_total_size += r;
       if (multipart->file_total_size >
           req->connection.listen_point->server->max_file_size) {
         ONION_ERROR("Files on this post too big. Aborting.");
         return OCS_INTERNAL_ERROR;
       }
       if (multipart->pos != 0) {
-        multipart->file_total_size += multipart->pos;
-        int r = multipart->pos - multipart->startpos;
         //ONION_DEBUG0("Write %d bytes",r);
         if (write_all(token->fd, tmp, tmppos) < 0) {
           ONION_ERROR
@@ -466,7 +468,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         tmppos = 0;
       }
     }
-    multipart->file_total_size++;
     p++;
   }
   if (write_all(token->fd, tmp, tmppos) < 0) {
-- 
2.43.0


From 6a511b4c2e5e2733f19cbe370795db3901e1cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:52 +0000
Subject: [PATCH 019/145] fix: multipart fields with parts of the boundary or
 new lines in them

---
 src/onion/request_parser.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 7ebd576..47ad862 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -492,19 +492,17 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
   char *d = &multipart->data[token->pos];
 
   for (; data->pos < data->size; data->pos++) {
-    if (multipart->pos == 0 && *p == '\n')      // \r is optional.
-      multipart->pos = 1;
+    if (multipart->pos == 0) {
+      if (*p == '\n')           // \r is optional.
+        multipart->startpos = multipart->pos = 1;
+      else
+        multipart->startpos = 0;
+    }
     if (*p == multipart->boundary[multipart->pos]) {    // Check boundary
       multipart->pos++;
       if (multipart->pos == multipart->size) {
-        multipart->pos = 0;
+        multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
-        if (token->pos > 0 && *(d - 1) == '\n') {
-          token->pos--;
-          d--;
-        }
-        if (token->pos > 0 && *(d - 1) == '\r')
-          d--;
 
         *d = '\0';
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
@@ -516,15 +514,18 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
       }
     } else {                    // No boundary
       if (multipart->pos != 0) {        // Maybe i was checking before... so I need to copy as much as I wrongly thought I got.
-        if (multipart->post_total_size <= multipart->pos) {
+        int r = multipart->pos - multipart->startpos;
+        if (multipart->post_total_size < r) {
           ONION_ERROR("No space left for this post.");
           return OCS_INTERNAL_ERROR;
         }
-        multipart->post_total_size -= multipart->pos;
-        memcpy(d, p, multipart->pos);
-        d += multipart->pos;
-        token->pos += multipart->pos;
-        multipart->pos = 0;
+        multipart->post_total_size -= r;
+        memcpy(d, multipart->boundary + multipart->startpos, r);
+        d += r;
+        token->pos += r;
+        multipart->startpos = multipart->pos = 0;
+        data->pos--;            // Ignore read charater, try again. May be start of boundary.
+        continue;
       }
       if (multipart->post_total_size <= 0) {
         ONION_ERROR("No space left for this post.");
-- 
2.43.0


From d2ce0a6c43efb708d378add408f7da0835abcae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:52 +0000
Subject: [PATCH 020/145] fix: names and filenames of multipart parts are
 parsed inside their bounds

---
 src/onion/request_parser.c | 80 ++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 47ad862..dfd6aa4 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -508,6 +508,8 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
         onion_dict_add(req->POST, multipart->name, multipart->data, 0);
         multipart->data = multipart->data + token->pos + 1;
+        if (multipart->post_total_size > 0)     // For the \0
+          multipart->post_total_size--;
         token->pos = 0;
         req->parser = parse_POST_multipart_next;
         return OCS_NEED_MORE_DATA;
@@ -552,56 +554,59 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
                                                                  onion_buffer *
                                                                  data) {
   onion_token *token = req->parser_data;
-  int res = token_read_until(token, data, ';');
+  int res = token_read_LINE(token, data);
 
   if (res <= 1000)
     return res;
+  token->pos = 0;
 
   //ONION_DEBUG("Got content type %s",token->str);
 
   onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
-  const char *name;
-  name = strstr(token->str, "filename=");
-  if (name) {
-    int l = strlen(token->str) - 9;
-    if (l > multipart->post_total_size) {
-      ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
-      return OCS_INTERNAL_ERROR;
+  const char *p = strchr(token->str, ';');
+  while (p) {                   // One parameter each loop
+    p++;
+    while (is_space(*p))
+      p++;
+    char **dest = NULL;
+    if (strncasecmp(p, "filename=", 9) == 0) {
+      dest = &multipart->filename;
+      p += 9;
+    } else if (strncasecmp(p, "name=", 5) == 0) {
+      dest = &multipart->name;
+      p += 5;
+    } else {
+      p += strcspn(p, "=;");
+      if (*p == '=')
+        p++;
     }
-    multipart->filename = multipart->data;
-    memcpy(multipart->filename, name + 9, l);
-    multipart->filename[l] = 0;
-    multipart->data = multipart->data + l + 1;
-    if (*multipart->filename == '"' && multipart->filename[l - 2] == '"') {
-      multipart->filename[l - 2] = '\0';
-      multipart->filename++;
+    size_t l;
+    const char *next;
+    if (*p == '"' && (next = strchr(p + 1, '"'))) {     // Quoted, may have semicolons inside
+      p++;
+      l = next - p;
+      next++;
+    } else {
+      l = strcspn(p, ";");
+      next = p + l;
     }
-    ONION_DEBUG0("Set filename '%s'", multipart->filename);
-  } else {
-    name = strstr(token->str, "name=");
-    if (name) {
-      int l = strlen(token->str) - 5;
-      if (l > multipart->post_total_size) {
+    if (dest) {
+      if (l + 1 > multipart->post_total_size) {
         ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
         return OCS_INTERNAL_ERROR;
       }
-      multipart->name = multipart->data;
-      memcpy(multipart->name, name + 5, l);
-      multipart->name[l] = 0;
-      if (*multipart->name == '"' && multipart->name[l - 2] == '"') {
-        l -= 2;
-        multipart->name[l] = '\0';
-        multipart->name++;
-      }
-      multipart->data = multipart->name + l + 1;
-      ONION_DEBUG0("Set field name '%s'", multipart->name);
+      multipart->post_total_size -= l + 1;
+      *dest = multipart->data;
+      memcpy(*dest, p, l);
+      (*dest)[l] = 0;
+      multipart->data = multipart->data + l + 1;
     }
+    p = strchr(next, ';');
   }
+  ONION_DEBUG0("Set field name '%s', filename '%s'", multipart->name,
+               multipart->filename);
 
-  if (res == STRING_NEW_LINE) {
-    req->parser = parse_POST_multipart_headers_key;
-    return OCS_NEED_MORE_DATA;
-  }
+  req->parser = parse_POST_multipart_headers_key;
   return OCS_NEED_MORE_DATA;
 }
 
@@ -1068,7 +1073,7 @@ static onion_connection_status prepare_POST(onion_request * req) {
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
-                       mp_token_size + 2);
+                       mp_token_size + 7);      // \r\n--, and some \0
   assert(token->extra == NULL);
   token->extra = (char *)multipart;
 
@@ -1082,8 +1087,7 @@ static onion_connection_status prepare_POST(onion_request * req) {
   multipart->boundary[2] = '-';
   multipart->boundary[3] = '-';
   strcpy(&multipart->boundary[4], mp_token);
-  multipart->data =
-      (char *)multipart + sizeof(onion_multipart_buffer) + multipart->size + 1;
+  multipart->data = multipart->boundary + multipart->size + 1;
 
   //ONION_DEBUG("Multipart POST boundary '%s'",multipart->boundary);
 
-- 
2.43.0


From 7eb3564268716462b59e317f0408cafe3de032cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:19 +0000
Subject: [PATCH 021/145] fix: multipart parts without a name leaked their
 temporal file

---
 src/onion/request_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index dfd6aa4..873db40 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -642,6 +642,10 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
     multipart->pos = 0;
 
+    if (!multipart->name) {
+      ONION_ERROR("Multipart part without name.");
+      return OCS_INTERNAL_ERROR;
+    }
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
       token->fd = mkstemp(filename);
-- 
2.43.0


From 9b45d6c8eee4b67b423388386804c660e703a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:19 +0000
Subject: [PATCH 022/145] fix: quoted multipart boundaries, and parameters
 after the boundary

---
 src/onion/request_parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 873db40..922001e 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -1070,10 +1070,15 @@ static onion_connection_status prepare_POST(onion_request * req) {
     return OCS_INTERNAL_ERROR;
   }
   mp_token += 9;
+  int mp_token_size;
+  if (*mp_token == '"') {       // May be quoted
+    mp_token++;
+    mp_token_size = strcspn(mp_token, "\"");
+  } else
+    mp_token_size = strcspn(mp_token, "; \t");  // There may be more parameters
   if (cl > req->connection.listen_point->server->max_post_size) // I hope the missing part is files, else error later.
     cl = req->connection.listen_point->server->max_post_size;
 
-  int mp_token_size = strlen(mp_token);
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
@@ -1090,7 +1095,8 @@ static onion_connection_status prepare_POST(onion_request * req) {
   multipart->boundary[1] = '\n';
   multipart->boundary[2] = '-';
   multipart->boundary[3] = '-';
-  strcpy(&multipart->boundary[4], mp_token);
+  memcpy(&multipart->boundary[4], mp_token, mp_token_size);
+  multipart->boundary[multipart->size] = '\0';
   multipart->data = multipart->boundary + multipart->size + 1;
 
   //ONION_DEBUG("Multipart POST boundary '%s'",multipart->boundary);
-- 
2.43.0


From 720cff8c7fc90e372e8d0590704d458f7cabdf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:19 +0000
Subject: [PATCH 023/145] fix: new lines before the request line are ignored

---
 src/onion/request_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 922001e..44e20c0 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -891,6 +891,9 @@ static onion_connection_status parse_headers_URL(onion_request * req,
 static onion_connection_status parse_headers_GET(onion_request * req,
                                                  onion_buffer * data) {
   onion_token *token = req->parser_data;
+  while (token->pos == 0 && data->pos < data->size
+         && (data->data[data->pos] == '\r' || data->data[data->pos] == '\n'))
+    data->pos++;                // Ignore new lines before the request, as the ones that may end the previous body.
   int res = token_read_STRING(token, data);
 
   if (res <= 1000)
-- 
2.43.0


From 42540b3706ca9db32d64368b768d5420b002c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:19 +0000
Subject: [PATCH 024/145] fix: Content-Length bigger than an int could be taken
 as no content

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 44e20c0..4f25fdb 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -818,7 +818,7 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
     if ((req->flags & OR_METHODS) == OR_PUT)
       return prepare_PUT(req);
     if (onion_request_get_header(req, "Content-Length")) {      // Some length, not POST, get data.
-      int n = atoi(onion_request_get_header(req, "Content-Length"));
+      long n = atol(onion_request_get_header(req, "Content-Length"));
       if (n > 0)
         return prepare_CONTENT_LENGTH(req);
     }
-- 
2.43.0


From 852a430155bdc9165771c5c0e66471c8e54f4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:19 +0000
Subject: [PATCH 025/145] fix: requests without HTTP version have a query dict
 too

---
 src/onion/request_parser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 4f25fdb..737d796 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -855,9 +855,6 @@ static onion_connection_status parse_headers_VERSION(onion_request * req,
   if (strcmp(token->str, "HTTP/1.1") == 0)
     req->flags |= OR_HTTP11;
 
-  if (!req->GET)
-    req->GET = onion_dict_new();
-
   if (res == STRING) {
     req->parser = parse_headers_KEY_skip_NL;
     return parse_headers_KEY_skip_NL(req, data);
@@ -877,6 +874,8 @@ static onion_connection_status parse_headers_URL(onion_request * req,
 
   req->fullpath = onion_low_strdup(token->str);
   onion_request_parse_query(req);
+  if (!req->GET)
+    req->GET = onion_dict_new();
   ONION_DEBUG0("URL path is %s", req->fullpath);
 
   if (res == STRING_NEW_LINE) { // Old HTTP/0? or lazy user, dont set the HTTP version, straigth new line.
-- 
2.43.0


From 69af83d47735a1c52c2ff1e6339bac2bac81acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:37 +0000
Subject: [PATCH 026/145] fix: after a short or failed write the response is
 completed or the connection closed

---
 src/onion/response.c | 67 +++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 20cc39a..ea68e0c 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -45,6 +45,7 @@
 /// @defgroup response Response. Write response data to client: headers, content body...
 
 const char *onion_response_code_description(int code);
+static int write_all(onion_response * res, const char *data, size_t length);
 
 // DONT_USE_DATE_HEADER is not defined anywhere, but here just in case needed in the future.
 
@@ -168,8 +169,8 @@ onion_connection_status onion_response_free(onion_response * res) {
   onion_response_flush(res);
   onion_request *req = res->request;
 
-  if (res->flags & OR_CHUNKED) {        // Set the chunked data end.
-    req->connection.listen_point->write(req, "0\r\n\r\n", 5);
+  if ((res->flags & OR_CHUNKED) && !(res->flags & OR_CLOSE_CONNECTION)) {       // Set the chunked data end.
+    write_all(res, "0\r\n\r\n", 5);
   }
 
   int r = OCS_CLOSE_CONNECTION;
@@ -181,7 +182,7 @@ onion_connection_status onion_response_free(onion_response * res) {
         ("keep alive [req wants] %d && ([skip] %d || [lenght ok] %d==%d || [chunked] %d)",
          onion_request_keep_alive(req), res->flags & OR_SKIP_CONTENT,
          res->length, res->sent_bytes, res->flags & OR_CHUNKED);
-    if (onion_request_keep_alive(req)
+    if (onion_request_keep_alive(req) && !(res->flags & OR_CLOSE_CONNECTION)
         && (res->flags & OR_SKIP_CONTENT || res->length == res->sent_bytes
             || res->flags & OR_CHUNKED)
         )
@@ -390,6 +391,27 @@ ssize_t onion_response_write(onion_response * res, const char *data,
   return w;
 }
 
+/**
+ * @short Writes all the data to the connection, as many writes as necessary.
+ *
+ * On error marks the response so that the connection is closed and nothing else is sent.
+ *
+ * @returns 0 if all was sent, or OCS_CLOSE_CONNECTION.
+ */
+static int write_all(onion_response * res, const char *data, size_t length) {
+  onion_request *req = res->request;
+  while (length > 0) {
+    ssize_t w = req->connection.listen_point->write(req, data, length);
+    if (w <= 0) {
+      res->flags |= OR_CLOSE_CONNECTION;
+      return OCS_CLOSE_CONNECTION;
+    }
+    data += w;
+    length -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Writes all buffered output waiting for sending.
  * @ingroup response
@@ -400,6 +422,10 @@ ssize_t onion_response_write(onion_response * res, const char *data,
  * on more cases.
  */
 int onion_response_flush(onion_response * res) {
+  if (res->flags & OR_CLOSE_CONNECTION) {       // There was an error, client can not make sense of more data.
+    res->buffer_pos = 0;
+    return OCS_CLOSE_CONNECTION;
+  }
   res->sent_bytes += res->buffer_pos;
   res->sent_bytes_total += res->buffer_pos;
   if (res->buffer_pos == 0)     // Not used.
@@ -420,45 +446,28 @@ int onion_response_flush(onion_response * res) {
     return 0;
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
-  onion_request *req = res->request;
-  ssize_t(*write) (onion_request *, const char *data, size_t len);
-  write = req->connection.listen_point->write;
-
-  ssize_t w;
-  off_t pos = 0;
   //ONION_DEBUG0("Write %d bytes",res->buffer_pos);
   if (res->flags & OR_CHUNKED) {
     char tmp[16];
     snprintf(tmp, sizeof(tmp), "%X\r\n", (unsigned int)res->buffer_pos);
-    if ((w = write(req, tmp, strlen(tmp))) <= 0) {
+    if (write_all(res, tmp, strlen(tmp)) < 0) {
       ONION_CALL_MAX_ONCE_PER_T_COUNT(1, ONION_WARNING, "Error writing chunk encoding length (%X) %s. Aborting write. (x%u)",
         (unsigned int)res->buffer_pos, strerror(errno));
-      
+      res->buffer_pos = 0;
       return OCS_CLOSE_CONNECTION;
     }
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
   }
   int savederrno = errno;
   errno = 0;
-  while ((w =
-          write(req, &res->buffer[pos], res->buffer_pos)) != res->buffer_pos) {
-    if (w <= 0 || res->buffer_pos < 0) {
-      ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection. Code %d. ",
-                  res->buffer_pos, strerror(errno), w);
-      res->buffer_pos = 0;
-      errno = savederrno;
-      return OCS_CLOSE_CONNECTION;
-    }
-    pos += w;
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
-    res->buffer_pos -= w;
-  }
-  if (res->flags & OR_CHUNKED) {
-    write(req, "\r\n", 2);
-  }
+  int r = write_all(res, res->buffer, res->buffer_pos);
+  if (r >= 0 && res->flags & OR_CHUNKED)
+    r = write_all(res, "\r\n", 2);
+  if (r < 0)
+    ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection.",
+                res->buffer_pos, strerror(errno));
   res->buffer_pos = 0;
   errno = savederrno;
-  return 0;
+  return r < 0 ? OCS_CLOSE_CONNECTION : 0;
 }
 
 /// Writes a 0-ended string to the response.
-- 
2.43.0


From 91850d49a0a7c8a34cd50b06670e1f36fa630e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:37 +0000
Subject: [PATCH 027/145] fix: headers go always before the body, and flush
 sends the body too

---
 src/onion/response.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index ea68e0c..7aabcd0 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -163,10 +163,11 @@ onion_connection_status onion_response_free(onion_response * res) {
   if (!(res->flags & OR_HEADER_SENT) && res->buffer_pos < sizeof(res->buffer))
     onion_response_set_length(res, res->buffer_pos);
 
-  if (!(res->flags & OR_HEADER_SENT))
+  onion_response_flush(res);    // If there is data this writes the headers
+  if (!(res->flags & OR_HEADER_SENT)) {
     onion_response_write_headers(res);
-
-  onion_response_flush(res);
+    onion_response_flush(res);
+  }
   onion_request *req = res->request;
 
   if ((res->flags & OR_CHUNKED) && !(res->flags & OR_CLOSE_CONNECTION)) {       // Set the chunked data end.
@@ -440,7 +441,7 @@ int onion_response_flush(onion_response * res) {
 
     onion_response_write_headers(res);
     onion_response_write(res, tmpb, tmpp);
-    return 0;
+    return (res->flags & OR_HEADER_SENT) ? onion_response_flush(res) : 0;
   }
   if (res->flags & OR_SKIP_CONTENT)     // HEAD request
     return 0;
-- 
2.43.0


From 37d44e675249d39c7f16f85cb7b33b6704ac45d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:37 +0000
Subject: [PATCH 028/145] fix: session cookie header ends with CRLF

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 7aabcd0..e003066 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -317,7 +317,7 @@ int onion_response_write_headers(onion_response * res) {
   onion_dict_preorder(res->headers, write_header, res);
 
   if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
-    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\n",
+    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
   onion_response_write(res, "\r\n", 2);
-- 
2.43.0


From cd6ed69d79920969713a6ac2e892f8eac45a3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:37 +0000
Subject: [PATCH 029/145] fix: keep alive only when announced and the end of
 the response is known

---
 src/onion/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index e003066..c3abfc7 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -184,7 +184,8 @@ onion_connection_status onion_response_free(onion_response * res) {
          onion_request_keep_alive(req), res->flags & OR_SKIP_CONTENT,
          res->length, res->sent_bytes, res->flags & OR_CHUNKED);
     if (onion_request_keep_alive(req) && !(res->flags & OR_CLOSE_CONNECTION)
-        && (res->flags & OR_SKIP_CONTENT || res->length == res->sent_bytes
+        && (res->flags & OR_SKIP_CONTENT
+            || (res->flags & OR_LENGTH_SET && res->length == res->sent_bytes)
             || res->flags & OR_CHUNKED)
         )
       r = OCS_KEEP_ALIVE;
-- 
2.43.0


From 588aaf399f6aa804899a5dc56c7bdc1e4ba551e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:02 +0000
Subject: [PATCH 030/145] fix: too long cookies overflowed the buffer

---
 src/onion/response.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index c3abfc7..8d2af20 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -634,8 +634,13 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
                                const char *cookievalue, time_t validity_t,
                                const char *path, const char *domain,
                                int flags) {
-  char data[4096];
+  char data[4096 + 256];        // The attribute names, dates and flags fit in the extra space
   int pos;
+  if (strlen(cookiename) + strlen(cookievalue) + (path ? strlen(path) : 0) +
+      (domain ? strlen(domain) : 0) >= 4096) {
+    ONION_WARNING("Cookie too long to be constructed. Not added to response.");
+    return false;
+  }
   pos = snprintf(data, sizeof(data), "%s=%s", cookiename, cookievalue);
   if (validity_t == 0)
     pos +=
@@ -672,7 +677,7 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
     break;
   }
 
-  if (pos >= sizeof(data)) {
+  if (pos >= 4096) {
     ONION_WARNING("Cookie too long to be constructed. Not added to response.");
     return false;
   }
-- 
2.43.0


From dcf0ea0dda8a85734c6aaabc047639d612a39cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:02 +0000
Subject: [PATCH 031/145] fix: several cookies can be set in one response

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 8d2af20..2e04147 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -682,7 +682,7 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
     return false;
   }
 
-  onion_response_set_header(res, "Set-Cookie", data);
+  onion_dict_add(res->headers, "Set-Cookie", data, OD_DUP_ALL); // There may be others
   ONION_DEBUG("Set cookie %s", data);
 
   return true;
-- 
2.43.0


From 264ca0f47f20338125ba4d4a1b1ef78e28db9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:02 +0000
Subject: [PATCH 032/145] fix: cookies with leading spaces, without value or
 without equal sign

---
 src/onion/request.c | 42 +++++++++++++-----------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 00e0af3..ae29607 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -686,38 +686,22 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
   if (!ccookies)
     return req->cookies;
   char *cookies = onion_low_strdup(ccookies);   // I prepare a temporary string, will modify it.
-  char *val = NULL;
-  char *key = NULL;
+  req->free_list = onion_ptr_list_add(req->free_list, cookies); // Free when the request is freed, as the dict points inside.
   char *p = cookies;
 
-  int first = 1;
-  while (*p) {
-    if (*p != ' ' && !key && !val) {
-      key = p;
-    } else if (*p == '=' && key && !val) {
-      *p = 0;
-      val = p + 1;
-    } else if (*p == ';' && key && val) {
-      *p = 0;
-      if (first) {
-        // The first cookie is special as it is the pointer to the reserved area for all the keys and values
-        // for all th eother cookies, to free at dict free.
-        onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-        first = 0;
-      } else
-        onion_dict_add(req->cookies, key, val, 0);      /// Can use as static data as will be freed at first cookie free
-      ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
-      val = NULL;
-      key = NULL;
+  while (p) {
+    while (*p == ' ')
+      p++;
+    char *key = p;
+    p = strchr(p, ';');
+    if (p)
+      *p++ = 0;
+    char *val = strchr(key, '=');
+    if (val && val != key) {
+      *val++ = 0;
+      onion_dict_add(req->cookies, key, val, 0);        /// Can use as static data, is in the free list.
+      ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
     }
-    p++;
-  }
-  if (key && val && val < p) {  // A final element, with value.
-    if (first)
-      onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-    else
-      onion_dict_add(req->cookies, key, val, 0);
-    ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
   }
 
   return req->cookies;
-- 
2.43.0


From 0d6f99ae7527a11aa99310befba26c07bb1472f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:02 +0000
Subject: [PATCH 033/145] fix: forbidden requests get the 403 answer

---
 src/onion/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index ae29607..95baa75 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -579,7 +579,7 @@ onion_connection_status onion_request_process(onion_request * req) {
       onion_handler_handle(req->connection.listen_point->server->root_handler,
                            req, res);
 
-  if (hs == OCS_INTERNAL_ERROR ||
+  if (hs == OCS_INTERNAL_ERROR || hs == OCS_FORBIDDEN ||
       hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
-- 
2.43.0


From 754bfa57d6f732b9853d703787197930a8ba3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 034/145] fix: double free when the client leaves in the middle
 of a form POST

---
 src/onion/request_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 737d796..a293786 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -720,7 +720,8 @@ static onion_connection_status parse_POST_urlencode(onion_request * req,
 
   req->POST = onion_dict_new();
   onion_request_parse_query_to_dict(req->POST, token->extra);
-  token->extra = NULL;          // At query to dict, it keeps the pointer and free it when POST is freed.
+  req->free_list = onion_ptr_list_add(req->free_list, token->extra);    // POST points inside. Free when the request is freed.
+  token->extra = NULL;
 
   return OCS_REQUEST_READY;
 }
@@ -1059,7 +1060,6 @@ static onion_connection_status prepare_POST(onion_request * req) {
     assert(token->extra == NULL);
     token->extra = onion_low_scalar_malloc(cl + 1);     // Cl + \0
     token->extra_size = cl;
-    req->free_list = onion_ptr_list_add(req->free_list, token->extra);  // Free when the request is freed.
 
     req->parser = parse_POST_urlencode;
     return OCS_NEED_MORE_DATA;
-- 
2.43.0


From e7efbe00f86e68799ed8d8a1b400667dfe6b305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:21 +0000
Subject: [PATCH 035/145] fix: headers are written only once and before the
 data

---
 src/onion/response.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/response.c b/src/onion/response.c
index 2e04147..10d6f96 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -284,6 +284,10 @@ int onion_response_write_headers(onion_response * res) {
         ("Bad formed response. Need a request at creation. Will not write headers.");
     return -1;
   }
+  if (!(res->flags & OR_HEADER_SENT) && res->buffer_pos > 0)    // Flush writes the headers before the pending data
+    onion_response_flush(res);
+  if (res->flags & OR_HEADER_SENT)
+    return res->flags & OR_SKIP_CONTENT;
 
   res->flags |= OR_HEADER_SENT; // I Set at the begining so I can do normal writing.
   res->request->flags |= OR_HEADER_SENT;
-- 
2.43.0


From 5b19abab302d4f46a85f5be876d7d2cdce500767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:21 +0000
Subject: [PATCH 036/145] fix: response header names are case insensitive, and
 a Content-Length header is the length

---
 src/onion/response.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 10d6f96..2bcb394 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -84,6 +84,7 @@ onion_response *onion_response_new(onion_request * req) {
 
   res->request = req;
   res->headers = onion_dict_new();
+  onion_dict_set_flags(res->headers, OD_ICASE);
   res->code = 200;              // The most normal code, so no need to overwrite it in other codes.
   res->flags = 0;
   res->sent_bytes_total = res->length = res->sent_bytes = 0;
@@ -213,6 +214,10 @@ onion_connection_status onion_response_free(onion_response * res) {
 void onion_response_set_header(onion_response * res, const char *key,
                                const char *value) {
   ONION_DEBUG0("Adding header %s = %s", key, value);
+  if (strcasecmp(key, "Content-Length") == 0) { // Needs some more processing
+    onion_response_set_length(res, strtoul(value, NULL, 10));
+    return;
+  }
   onion_dict_add(res->headers, key, value, OD_DUP_ALL | OD_REPLACE);    // DUP_ALL not so nice on memory side...
 }
 
@@ -227,9 +232,9 @@ void onion_response_set_length(onion_response * res, size_t len) {
         ("Trying to set length after headers sent. Undefined onion behaviour.");
     return;
   }
-  char tmp[16];
+  char tmp[24];
   sprintf(tmp, "%lu", (unsigned long)len);
-  onion_response_set_header(res, "Content-Length", tmp);
+  onion_dict_add(res->headers, "Content-Length", tmp, OD_DUP_ALL | OD_REPLACE);
   res->length = len;
   res->flags |= OR_LENGTH_SET;
 }
-- 
2.43.0


From 307e734f0f4148dff49074a69a93bf808d757349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 037/145] fix: infinite loop on big writes when answering to
 HEAD

---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 2bcb394..bf0ea9f 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -453,8 +453,10 @@ int onion_response_flush(onion_response * res) {
     onion_response_write(res, tmpb, tmpp);
     return (res->flags & OR_HEADER_SENT) ? onion_response_flush(res) : 0;
   }
-  if (res->flags & OR_SKIP_CONTENT)     // HEAD request
+  if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
+    res->buffer_pos = 0;
     return 0;
+  }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
   //ONION_DEBUG0("Write %d bytes",res->buffer_pos);
-- 
2.43.0


From 43c073bf5beb7464fa6f3ae884b3926c38b02338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 038/145] fix: answers to HEAD that announce the close of the
 connection close it

---
 src/onion/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index bf0ea9f..d166c6d 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -185,7 +185,8 @@ onion_connection_status onion_response_free(onion_response * res) {
          onion_request_keep_alive(req), res->flags & OR_SKIP_CONTENT,
          res->length, res->sent_bytes, res->flags & OR_CHUNKED);
     if (onion_request_keep_alive(req) && !(res->flags & OR_CLOSE_CONNECTION)
-        && (res->flags & OR_SKIP_CONTENT
+        && ((res->flags & OR_SKIP_CONTENT
+             && (res->flags & OR_LENGTH_SET || req->flags & OR_HTTP11))
             || (res->flags & OR_LENGTH_SET && res->length == res->sent_bytes)
             || res->flags & OR_CHUNKED)
         )
-- 
2.43.0


From 08908e3d32e2ef09bbed34e3e7f36f043b22c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:07 +0000
Subject: [PATCH 039/145] fix: url groups after an optional group that does not
 match

---
 src/onion/url.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 4d0d643..065dc28 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -88,7 +88,7 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
              0) == 0) {
       //ONION_DEBUG("Ok,match");
       onion_dict *reqheader = request->GET;
-      for (i = 1; i < 16; i++) {
+      for (i = 1; i < 16 && i <= next->regexp.re_nsub; i++) {
         regmatch_t *rm = &match[i];
         if (rm->rm_so != -1) {
           char *tmp = onion_low_scalar_malloc(rm->rm_eo - rm->rm_so + 1);
@@ -98,8 +98,7 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           snprintf(tmpn, sizeof(tmpn), "%d", i);
           onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
-        } else
-          break;
+        }
       }
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
-- 
2.43.0


From b9948ca57a34e5bb29d3d5ff3fa1c2b5a1ac65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:07 +0000
Subject: [PATCH 040/145] fix: url groups are not hidden by query parameters
 with the same name

---
 src/onion/url.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 065dc28..132e678 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -96,7 +96,8 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           tmp[rm->rm_eo - rm->rm_so] = '\0';    // proper finish string
           char tmpn[4];
           snprintf(tmpn, sizeof(tmpn), "%d", i);
-          onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
+          onion_dict_add(reqheader, tmpn, tmp,
+                         OD_DUP_KEY | OD_FREE_VALUE | OD_REPLACE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
         }
       }
-- 
2.43.0


From 3ddfc523873deb0bdb33b5212f154ba5f7334545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:07 +0000
Subject: [PATCH 041/145] fix: handlers after one that declined see the path as
 it was

---
 src/onion/handlers/path.c |  5 ++++-
 src/onion/url.c           | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/path.c b/src/onion/handlers/path.c
index 53e27c0..0fe1c27 100644
--- a/src/onion/handlers/path.c
+++ b/src/onion/handlers/path.c
@@ -54,7 +54,10 @@ int onion_handler_path_handler(onion_handler_path_data * d,
 
   onion_request_advance_path(request, match[0].rm_eo);
 
-  return onion_handler_handle(d->inside, request, response);
+  int res = onion_handler_handle(d->inside, request, response);
+  if (res == OCS_NOT_PROCESSED) // Nobody wanted it, others may try with the same path.
+    onion_request_advance_path(request, -(off_t) match[0].rm_eo);
+  return res;
 }
 
 void onion_handler_path_delete(void *data) {
diff --git a/src/onion/url.c b/src/onion/url.c
index 132e678..2d2aa99 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -80,7 +80,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
         ONION_DEBUG0("Ok, simple match.");
 
         onion_request_advance_path(request, strlen(next->str));
-        return onion_handler_handle(next->inside, request, response);
+        i = onion_handler_handle(next->inside, request, response);
+        if (i == OCS_NOT_PROCESSED)     // Nobody wanted it, others may try with the same path.
+          onion_request_advance_path(request, -(off_t) strlen(next->str));
+        return i;
       }
     } else
         if (regexec
@@ -104,7 +107,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
 
-      return onion_handler_handle(next->inside, request, response);
+      i = onion_handler_handle(next->inside, request, response);
+      if (i == OCS_NOT_PROCESSED)
+        onion_request_advance_path(request, -(off_t) match[0].rm_eo);
+      return i;
     }
 
     next = next->next;
-- 
2.43.0


From ff52c189bb534185731b3e9fb6b420f9419975d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 042/145] fix: url groups are not hidden by repeated query
 parameters with the same name

---
 src/onion/url.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 2d2aa99..ab95a69 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -99,8 +99,8 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           tmp[rm->rm_eo - rm->rm_so] = '\0';    // proper finish string
           char tmpn[4];
           snprintf(tmpn, sizeof(tmpn), "%d", i);
-          onion_dict_add(reqheader, tmpn, tmp,
-                         OD_DUP_KEY | OD_FREE_VALUE | OD_REPLACE);
+          while (onion_dict_remove(reqheader, tmpn)) ;  // No parameter with the same name hides it
+          onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
         }
       }
-- 
2.43.0


From 1d1d5c8ced728531d126915266390bc2bed1ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 043/145] fix: long Range headers overflow the etag

---
 src/onion/shortcuts.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 860a2be..de44858 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -193,12 +193,14 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   if (length > 0x7ffff000) // ~2GB
     use_sendfile = 0; // - a documented limitation for sendfile() command
 
-  char etag[64];
+  char etag[32 + 1024];
   onion_shortcut_etag(&st, etag);
 
   const char *range = onion_request_get_header(request, "Range");
+  if (range && strlen(range) >= 1024)   // Bad specified range. Very bad indeed.
+    range = NULL;
   if (range) {
-    strncat(etag, range, sizeof(etag) - 1);
+    strncat(etag, range, sizeof(etag) - strlen(etag) - 1);
   }
   onion_response_set_header(res, "Etag", etag);
 
@@ -206,10 +208,6 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
     //ONION_DEBUG("Need just a range: %s",range);
     char tmp[1024];
-    if (strlen(range + 6) >= sizeof(tmp)) {
-      close(fd);
-      return OCS_INTERNAL_ERROR;        // Bad specified range. Very bad indeed.
-    }
     strncpy(tmp, range + 6, sizeof(tmp) - 1);
     char *start = tmp;
     char *end = tmp;
-- 
2.43.0


From 06de9b35f7ae32e29eed0296fa1c3718da4a692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 044/145] fix: byte ranges of files: suffixes, ends beyond the
 file, and malformed ranges

---
 src/onion/shortcuts.c | 63 ++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index de44858..ac9890c 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -137,6 +137,40 @@ onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                               root_handler, req, res);
 }
 
+/**
+ * @short Parses a single byte range: first-last, first- or -suffix_length
+ *
+ * @returns 1 and the first and last byte if it can be satisfied, 0 if not, -1 if can not understand it.
+ */
+static int parse_range(const char *range, size_t length, size_t * starts,
+                       size_t * ends) {
+  const char *dash = strchr(range, '-');
+  if (!dash)
+    return -1;
+  const char *digits = "0123456789";
+  if (strspn(range, digits) != dash - range
+      || strspn(dash + 1, digits) != strlen(dash + 1)
+      || (dash == range && !dash[1]))
+    return -1;
+  // too big numbers saturate
+  unsigned long long first = strtoull(range, NULL, 10);
+  unsigned long long last = strtoull(dash + 1, NULL, 10);
+  if (dash == range) {          // The last bytes
+    if (last == 0 || length == 0)
+      return 0;
+    *starts = (last > length) ? 0 : length - last;
+    *ends = length - 1;
+    return 1;
+  }
+  if (dash[1] && last < first)
+    return -1;
+  if (first >= length)
+    return 0;
+  *starts = first;
+  *ends = (!dash[1] || last >= length) ? length - 1 : last;
+  return 1;
+}
+
 /**
  * @short This shortcut returns the given file contents.
  * @ingroup shortcuts
@@ -205,38 +239,25 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   onion_response_set_header(res, "Etag", etag);
 
   if (range && strncmp(range, "bytes=", 6) == 0) {
-    onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
     //ONION_DEBUG("Need just a range: %s",range);
     char tmp[1024];
-    strncpy(tmp, range + 6, sizeof(tmp) - 1);
-    char *start = tmp;
-    char *end = tmp;
-    while (*end != '-' && *end)
-      end++;
-    if (*end == '-') {
-      *end = '\0';
-      end++;
-
-      //ONION_DEBUG("Start %s, end %s",start,end);
-      size_t ends, starts;
-      if (*end)
-        ends = atol(end);
-      else
-        ends = length - 1;
-      starts = atol(start);
-      if (starts > ends || starts > length) {
+    size_t ends, starts;
+    int satisfiable = parse_range(range + 6, length, &starts, &ends);
+    if (satisfiable >= 0) {     // else can not understand it, sends the full file
+      if (!satisfiable) {
         ONION_DEBUG0("Range not satisfiable");
-        snprintf(tmp, sizeof(tmp), "bytes */%d", (unsigned int)length);
+        snprintf(tmp, sizeof(tmp), "bytes */%lu", (unsigned long)length);
         onion_response_set_header(res, "Content-Range", tmp);
         onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
         onion_response_write_headers(res);
         close(fd);
         return OCS_PROCESSED;
       }
+      onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
       length = ends - starts + 1;
       lseek(fd, starts, SEEK_SET);
-      snprintf(tmp, sizeof(tmp), "bytes %d-%d/%d", (unsigned int)starts,
-               (unsigned int)ends, (unsigned int)st.st_size);
+      snprintf(tmp, sizeof(tmp), "bytes %lu-%lu/%lu", (unsigned long)starts,
+               (unsigned long)ends, (unsigned long)st.st_size);
       //onion_response_set_header(res, "Accept-Ranges","bytes");
       onion_response_set_header(res, "Content-Range", tmp);
     }
-- 
2.43.0


From 614a93fb856be00ad24000e542a3af7c60f1eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 045/145] fix: files are sent without content only for HEAD

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index ac9890c..83313ca 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -278,7 +278,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     return OCS_PROCESSED;
   }
   onion_response_write_headers(res);
-  if ((onion_request_get_flags(request) & OR_HEAD) == OR_HEAD) {        // Just head.
+  if ((onion_request_get_flags(request) & OR_METHODS) == OR_HEAD) {     // Just head.
     length = 0;
   }
 
-- 
2.43.0


From 92e98cedde200f399f171c51fce409aa26b03358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 046/145] fix: partial reads and sendfile calls, and files that
 get truncated while being sent

---
 src/onion/shortcuts.c | 54 ++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 83313ca..88c65a3 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -287,45 +287,41 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     if (use_sendfile && request->connection.listen_point->write == (void *)onion_http_write) {  // Lets have a house party! I can use sendfile!
       onion_response_write(res, NULL, 0);
       ONION_DEBUG("Using sendfile");
-      int r = sendfile(request->connection.fd, fd, NULL, length);
-      ONION_DEBUG("Wrote %d, should be %d (%s)", r, length,
-                  r == length ? "ok" : "nok");
-      if (r != length || r < 0) {
-        ONION_ERROR("Could not send all file (%s)", strerror(errno));
-        close(fd);
-        return OCS_INTERNAL_ERROR;
+      size_t tr = 0;
+      while (tr < length) {
+        ssize_t r = sendfile(request->connection.fd, fd, NULL, length - tr);
+        if (r < 0 && errno == EINTR)
+          continue;
+        if (r <= 0) {           // Connection will be closed, as length does not match
+          ONION_ERROR("Could not send all file (%s)", strerror(errno));
+          break;
+        }
+        tr += r;
       }
-      res->sent_bytes += length;
-      res->sent_bytes_total += length;
+      res->sent_bytes += tr;
+      res->sent_bytes_total += tr;
     } else
 #endif
     {                           // Ok, no I cant, do it as always.
-      int r = 0, w;
+      ssize_t r = 0, w;
       size_t tr = 0;
       char tmp[4046];
-      if (length > sizeof(tmp)) {
-        size_t max = length - sizeof(tmp);
-        while (tr < max) {
-          r = read(fd, tmp, sizeof(tmp));
-          tr += r;
-          if (r < 0)
-            break;
-          w = onion_response_write(res, tmp, r);
-          if (w != r) {
-            ONION_ERROR
-                ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-                 w, r);
-            break;
-          }
+      while (tr < length) {
+        size_t max = length - tr;
+        r = read(fd, tmp, (max < sizeof(tmp)) ? max : sizeof(tmp));
+        if (r < 0 && errno == EINTR)
+          continue;
+        if (r <= 0) {           // Connection will be closed, as length does not match
+          ONION_ERROR("Could not read all the file (%s)", strerror(errno));
+          break;
         }
-      }
-      if (sizeof(tmp) >= (length - tr)) {
-        r = read(fd, tmp, length - tr);
+        tr += r;
         w = onion_response_write(res, tmp, r);
         if (w != r) {
           ONION_ERROR
-              ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-               w, r);
+              ("Wrote less than read: write %ld, read %ld. Quite probably closed connection.",
+               (long)w, (long)r);
+          break;
         }
       }
     }
-- 
2.43.0


From 74e3d45514359e79f244e239ce556b6ed0626be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 047/145] fix: length and etag are of the file sent, also if it
 is replaced meanwhile

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 88c65a3..eca8eb6 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -210,8 +210,8 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   }
 
   struct stat st;
-  if (stat(filename, &st) != 0) {
-    ONION_WARNING("File does not exist: %s", filename);
+  if (fstat(fd, &st) != 0) {
+    ONION_WARNING("Could not stat: %s", filename);
     close(fd);
     return OCS_NOT_PROCESSED;
   }
-- 
2.43.0


From 9e2c204b4e0405680c5cbc9bc78453e5b52ade38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 048/145] fix: size of the destination of date strings

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index eca8eb6..a4e40fb 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -363,7 +363,7 @@ onion_connection_status onion_shortcut_response_json(onion_dict * d,
 void onion_shortcut_date_string(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%a, %d %b %Y %T %Z", &ts);
+  strftime(dest, 32, "%a, %d %b %Y %T %Z", &ts);
 }
 
 /**
@@ -375,7 +375,7 @@ void onion_shortcut_date_string(time_t t, char *dest) {
 void onion_shortcut_date_string_iso(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%FT%TZ", &ts);
+  strftime(dest, 21, "%FT%TZ", &ts);
 }
 
 /**
-- 
2.43.0


From 2b1d2872e0463618aa27d4928de45c9697e9cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 049/145] fix: internal redirects to a part of the current path

---
 src/onion/shortcuts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index a4e40fb..14e5c1f 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -131,8 +131,9 @@ onion_connection_status onion_shortcut_redirect(const char *newurl,
 onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                                                          onion_request * req,
                                                          onion_response * res) {
-  onion_low_free(req->fullpath);
+  char *fullpath = req->fullpath;       // newurl may be part of it
   req->fullpath = req->path = onion_low_strdup(newurl);
+  onion_low_free(fullpath);
   return onion_handler_handle(req->connection.listen_point->server->
                               root_handler, req, res);
 }
-- 
2.43.0


From d5641bee00b3db6db8b1ce4c22d227f00b7e92b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 050/145] fix: moving files between file systems does not lose
 data on errors

---
 src/onion/shortcuts.c | 46 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 14e5c1f..1a750b2 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -409,31 +409,49 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
       ok = 1;
       ONION_ERROR("Could not open orig for reading (%s)", strerror(errno));
     }
-    int fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC, 0666);
-    if (fd_dest < 0) {
-      ok = 1;
-      ONION_ERROR("Could not open destination for writing (%s)",
-                  strerror(errno));
+    int fd_dest = -1;
+    if (ok == 0) {
+      fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+      if (fd_dest < 0) {
+        ok = 1;
+        ONION_ERROR("Could not open destination for writing (%s)",
+                    strerror(errno));
+      }
     }
     if (ok == 0) {
       char tmp[4096];
-      int r;
-      while ((r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
-        r = write(fd_dest, tmp, r);
+      ssize_t r, w, pos;
+      while (ok == 0 && (r = read(fd_orig, tmp, sizeof(tmp))) != 0) {
         if (r < 0) {
-          ONION_ERROR("Error writing to destination file (%s)",
-                      strerror(errno));
+          if (errno == EINTR)
+            continue;
+          ONION_ERROR("Error reading original file (%s)", strerror(errno));
           ok = 1;
           break;
         }
+        for (pos = 0; pos < r; pos += w) {
+          w = write(fd_dest, tmp + pos, r - pos);
+          if (w < 0 && errno == EINTR)
+            w = 0;
+          else if (w <= 0) {
+            ONION_ERROR("Error writing to destination file (%s)",
+                        strerror(errno));
+            ok = 1;
+            break;
+          }
+        }
       }
     }
-    if (fd_orig >= 0) {
+    if (fd_orig >= 0)
       close(fd_orig);
-      unlink(orig);
+    if (fd_dest >= 0) {
+      if (close(fd_dest) != 0)
+        ok = 1;
+      if (ok == 0)
+        unlink(orig);           // Only when all the data is at dest
+      else
+        unlink(dest);
     }
-    if (fd_dest >= 0)
-      close(fd_dest);
   }
   return ok;
 }
-- 
2.43.0


From 37840231c97a1d6be6674657c59c0815532b17d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:33 +0000
Subject: [PATCH 051/145] fix: too long paths are not another shorter path at
 exported directories

---
 src/onion/handlers/exportlocal.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index df4051b..533f243 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -73,9 +73,11 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
       return OCS_INTERNAL_ERROR;
     }
     strncpy(tmp, d->localpath, PATH_MAX - 1);
-  } else
-    snprintf(tmp, PATH_MAX, "%s/%s", d->localpath,
-             onion_request_get_path(request));
+  } else if (snprintf(tmp, PATH_MAX, "%s/%s", d->localpath,
+                      onion_request_get_path(request)) >= PATH_MAX) {
+    ONION_ERROR("File path too long");
+    return OCS_NOT_PROCESSED;
+  }
 
   ONION_DEBUG0("Get %s (base %s)", tmp, d->localpath);
 
-- 
2.43.0


From 079d0e5752930b190664b1e822fffdc162b22560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:33 +0000
Subject: [PATCH 052/145] fix: links to directories whose name starts as the
 exported one are outside of it

---
 src/onion/handlers/exportlocal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 533f243..52a5ba8 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -91,7 +91,8 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
   }
 
   const char *ret = realpath(tmp, realp);
-  if (!ret || strncmp(realp, d->localpath, strlen(d->localpath)) != 0) {        // out of secured dir.
+  size_t l = strlen(d->localpath);
+  if (!ret || strncmp(realp, d->localpath, l) != 0 || (l > 1 && realp[l] != '/' && realp[l] != '\0')) {        // out of secured dir.
     ONION_WARNING
         ("Trying to escape from secured dir (secured dir %s, trying %s).",
          d->localpath, realp);
-- 
2.43.0


From bf78134b5c566c06817a70afcffbeebf4f5f23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:33 +0000
Subject: [PATCH 053/145] fix: names of files and directories are quoted in
 directory listings

---
 src/onion/handlers/exportlocal.c | 46 +++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 52a5ba8..57e079c 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -122,7 +122,10 @@ void onion_handler_export_local_header_default(onion_response * res,
                         " table a{ display: block; } th{ cursor: pointer} h1,h2{ color: black; text-align: center; } \n"
                         " a{ color: red; text-decoration: none; }</style>\n");
 
-  onion_response_printf(res, "<h1>Listing of directory %s</h1>\n", dirname);
+  char *quoted = onion_html_quote(dirname);
+  onion_response_printf(res, "<h1>Listing of directory %s</h1>\n",
+                        quoted ? quoted : dirname);
+  onion_low_free(quoted);
 
   if (dirname[0] != '\0' && dirname[1] != '\0') // It will be 0, when showpath is "/"
     onion_response_write0(res, "<h2><a href=\"..\">Go up..</a></h2>\n");
@@ -135,6 +138,20 @@ void onion_handler_export_local_footer_default(onion_response * res,
                         "Under <a href=\"http://www.gnu.org/licenses/lgpl-3.0.html\">LGPL 3.0.</a> License.</h2>\n");
 }
 
+/// Writes the start of a row of the listing: the name as a javascript string
+static void write_js_string(onion_response * res, const char *name,
+                            const char *suffix) {
+  onion_response_write0(res, "  ['");
+  for (; *name; name++) {
+    unsigned char c = *name;
+    if (c < 0x20 || strchr("'\"\\<>&", c))
+      onion_response_printf(res, "\\x%02X", c);
+    else
+      onion_response_write(res, name, 1);
+  }
+  onion_response_printf(res, "%s'", suffix);
+}
+
 /**
  * @short Returns the directory listing
  */
@@ -152,21 +169,25 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
                         "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Transitional//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd\">\n"
                         "<html>\n"
                         " <head><meta content=\"text/html; charset=UTF-8\" http-equiv=\"content-type\"/>\n");
+  char *quoted = onion_html_quote(showpath);
   onion_response_printf(res, "<title>Directory listing of %s</title>\n",
-                        showpath);
+                        quoted ? quoted : showpath);
+  onion_low_free(quoted);
   onion_response_write0(res,
                         "</head>\n" " <body>\n" "<script>\n"
                         "showListing = function(){\n"
                         "	var q = function(t){\n"
-                        "		return t.replace('\"','%22')\n"
+                        "		return './'+encodeURIComponent(t).replace(/%2F/g,'/').replace(/'/g,'%27')\n"
+                        "	}	\n"
+                        "	var h = function(t){\n"
+                        "		return t.replace(/&/g,'&amp;').replace(/</g,'&lt;').replace(/>/g,'&gt;')\n"
                         "	}	\n"
                         "	var t=document.getElementById('filebody')\n"
                         "  while ( t.childNodes.length >= 1 )\n"
                         "		t.removeChild( t.firstChild );       \n"
                         "	for (var i=0;i<files.length;i++){\n"
                         "		var f=files[i]\n"
-                        "		var h='<tr class=\"'+f[3]+'\"><td><a href=\"'+q(f[0])+'\">'+f[0]+'</a></td><td>'+f[1]+'</td><td>'+f[2]+'</td></tr>'\n"
-                        "		t.innerHTML+=h\n"
+                        "		t.innerHTML+='<tr class=\"'+f[3]+'\"><td><a href=\"'+q(f[0])+'\">'+h(f[0])+'</a></td><td>'+f[1]+'</td><td>'+f[2]+'</td></tr>'\n"
                         "	}\n"
                         "}\n"
                         "\n"
@@ -187,21 +208,20 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
 
   struct dirent *fi;
   struct stat st;
-  char temp[1024];
+  char temp[PATH_MAX + NAME_MAX + 2];
   struct passwd *pwd;
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
     snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
-    stat(temp, &st);
+    if (stat(temp, &st) != 0 && lstat(temp, &st) != 0)
+      continue;
     pwd = getpwuid(st.st_uid);
 
-    if (S_ISDIR(st.st_mode))
-      onion_response_printf(res, "  ['%s/',%ld,'%s','dir'],\n", fi->d_name,
-                            st.st_size, pwd ? pwd->pw_name : "???");
-    else
-      onion_response_printf(res, "  ['%s',%ld,'%s','file'],\n", fi->d_name,
-                            st.st_size, pwd ? pwd->pw_name : "???");
+    write_js_string(res, fi->d_name, S_ISDIR(st.st_mode) ? "/" : "");
+    onion_response_printf(res, ",%ld,'%s','%s'],\n", (long)st.st_size,
+                          pwd ? pwd->pw_name : "???",
+                          S_ISDIR(st.st_mode) ? "dir" : "file");
   }
 
   onion_response_write0(res, "  [] ]\n</script>\n");
-- 
2.43.0


From 93e8b3ea7c590590deabc68b1d82495054bb0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:33 +0000
Subject: [PATCH 054/145] fix: updated mime types replace the previous ones

---
 src/onion/mime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index ea2925b..19dce96 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -176,7 +176,8 @@ void onion_mime_update(const char *extension, const char *mimetype) {
     onion_mime_fill();
 
   if (mimetype)
-    onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+    onion_dict_add(onion_mime_dict, extension, mimetype,
+                   OD_DUP_ALL | OD_REPLACE);
   else
     onion_dict_remove(onion_mime_dict, extension);
 }
-- 
2.43.0


From 885d824bd25b0c7a85546fa232a57d4e6c5b5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:33 +0000
Subject: [PATCH 055/145] fix: long mime types and extensions, and mime.types
 without new line at the end

---
 src/onion/mime.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 19dce96..58680e7 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -111,7 +111,7 @@ static void onion_mime_fill() {
     return;
   }
   char mimetype[128];
-  char extension[8];
+  char extension[64];
   int mode = 0;                 // 0 mimetype, 1 extension
   int i = 0;
   int c;
@@ -144,22 +144,24 @@ static void onion_mime_fill() {
         if (mode == 0) {
           if (i >= sizeof(mimetype) - 1) {
             while ((c = getc(fd)) >= 0 && c != '\n') ;
+            i = 0;              // ignores this line
           } else
             mimetype[i++] = c;
         } else {
           if (i >= sizeof(extension) - 1) {
             while ((c = getc(fd)) >= 0 && c != '\n') ;
-            extension[i] = '\0';
-            i = 0;
+            i = 0;              // ignores the rest of the line
             mode = 0;
-            onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
-            //ONION_DEBUG("Add mimetype '%s' (%s)..", extension, mimetype);
           } else
             extension[i++] = c;
         }
       }
     }
   }
+  if (mode == 1 && i != 0) {    // No new line at the end of the file
+    extension[i] = '\0';
+    onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+  }
   fclose(fd);
 
   ONION_DEBUG("I know %d mime types", onion_dict_count(onion_mime_dict));
-- 
2.43.0


From c1d56f04889c99d590706cedd0c217ca88d25f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:19 +0000
Subject: [PATCH 056/145] fix: too long paths are not another shorter path at
 WebDAV shares

---
 src/onion/handlers/webdav.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9298dd8..238bd83 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -39,6 +39,7 @@
 #include <sys/stat.h>
 #include <fcntl.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <libgen.h>
 
 struct onion_webdav_t {
@@ -111,9 +112,12 @@ onion_connection_status onion_webdav_handler(onion_webdav * wd,
   }
 #endif
 
-  char filename[512];
-  snprintf(filename, sizeof(filename), "%s/%s", wd->path,
-           onion_request_get_path(req));
+  char filename[PATH_MAX];
+  if (snprintf(filename, sizeof(filename), "%s/%s", wd->path,
+               onion_request_get_path(req)) >= sizeof(filename)) {
+    ONION_ERROR("File path too long");
+    return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
+  }
 
   ONION_DEBUG("Check %s and %s", wd->path, filename);
   if (wd->check_permissions(wd->path, filename, req) != 0) {
-- 
2.43.0


From cc87c6ceb7ec454b95a496ce4beefa823c7d37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:19 +0000
Subject: [PATCH 057/145] fix: links to directories whose name starts as the
 WebDAV share are outside of it

---
 src/onion/handlers/webdav.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 238bd83..51d387e 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -740,10 +740,11 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Could not resolve real path for %s or %s", exported_path,
                 filename);
   }
-  if ((ret == 0) && strncmp(base, file, strlen(base)) != 0) {
+  size_t l = strlen(base);
+  if ((ret == 0) && (strncmp(base, file, l) != 0
+                     || (l > 1 && file[l] != '/' && file[l] != '\0'))) {
     ret = 1;
-    ONION_ERROR("Base %s is not for file %s (%p)", base, file,
-                strncmp(base, file, strlen(base)));
+    ONION_ERROR("Base %s is not for file %s", base, file);
   }
 
   if (base)
-- 
2.43.0


From 47451d92dc5d9a53a1ca51220f1573a069231633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:19 +0000
Subject: [PATCH 058/145] fix: WebDAV MOVE moves to the destination

---
 src/onion/handlers/webdav.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 51d387e..a299022 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -30,6 +30,7 @@
 #include <onion/log.h>
 #include <onion/response.h>
 #include <onion/block.h>
+#include <onion/codecs.h>
 #include <onion/shortcuts.h>
 #include <onion/low.h>
 
@@ -196,8 +197,13 @@ onion_connection_status onion_webdav_move(const char *filename,
       return OCS_INTERNAL_ERROR;
   dest--;
 
+  // It is an URL, so it is quoted
+  char *unquoted = alloca(strlen(dest) + 1);
+  strcpy(unquoted, dest);
+  onion_unquote_inplace(unquoted);
+  dest = unquoted;
+
   const char *fullpath = onion_request_get_fullpath(req);
-  const char *partialpath = onion_request_get_path(req);
   // Not the fixed URL part for this handler.
   int fpl = strlen(fullpath);   // Full path length
   int ppl = strlen(onion_request_get_path(req));        // Partial, the fullpath[fpl-ppl] is the end point of the handler path
@@ -213,24 +219,26 @@ onion_connection_status onion_webdav_move(const char *filename,
   }
   dest = &dest[fpl - ppl];
 
-  char orig[512];
-  snprintf(orig, sizeof(orig), "%s/%s", wd->path, partialpath);
-
-  if (wd->check_permissions(wd->path, orig, req) != 0) {
+  char fdest[PATH_MAX];
+  if (snprintf(fdest, sizeof(fdest), "%s/%s", wd->path, dest) >= sizeof(fdest)) {
+    ONION_ERROR("File path too long");
+    return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
+  }
+  // The original was already checked
+  if (wd->check_permissions(wd->path, fdest, req) != 0) {
     return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
   }
-
-  const char *fdest = filename;
 
   ONION_INFO("Move %s to %s (webdav)", fullpath, dest_orig);
 
-  int ok = onion_shortcut_rename(orig, fdest);
+  int ok = onion_shortcut_rename(filename, fdest);
 
   if (ok == 0) {
     ONION_DEBUG("Created %s succesfully", fdest);
     return onion_shortcut_response("201 Created", 201, req, res);
   } else {
-    ONION_ERROR("Could not rename %s to %s (%s)", orig, fdest, strerror(errno));
+    ONION_ERROR("Could not rename %s to %s (%s)", filename, fdest,
+                strerror(errno));
     return onion_shortcut_response("Could not create resource", HTTP_FORBIDDEN,
                                    req, res);
   }
-- 
2.43.0


From 3dba54816aca5a82e8bf9994f809ff55ff92f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:19 +0000
Subject: [PATCH 059/145] fix: PROPFIND without body, or with a body that is
 not XML

---
 src/onion/handlers/webdav.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index a299022..873a0ac 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -305,18 +305,21 @@ onion_connection_status onion_webdav_options(const char *filename,
 /**
  * @short Returns the set of props for this query
  * 
- * The block contains the propfind xml, and it returns the mask of props to show.
+ * The block contains the propfind xml, and it returns the mask of props to show, or -1 if can not parse it.
  * 
  */
 static int onion_webdav_parse_propfind(const onion_block * block) {
+  if (!block)                   // No body means all properties
+    return 0x0FF;
+
   // For parsing the data
   xmlDocPtr doc;
   doc =
       xmlParseMemory((char *)onion_block_data(block), onion_block_size(block));
 
   if (doc == NULL) {
-    ONION_ERROR("Error: unable to parse OPTIONS");
-    return OCS_INTERNAL_ERROR;
+    ONION_ERROR("Error: unable to parse PROPFIND");
+    return -1;
   }
 
   int props = 0;
@@ -610,6 +613,8 @@ onion_connection_status onion_webdav_propfind(const char *filename,
 
   int props = onion_webdav_parse_propfind(onion_request_get_data(req));
   ONION_DEBUG("Asking for props %08X, depth %d", props, depth);
+  if (props < 0)
+    return OCS_INTERNAL_ERROR;
 
   onion_block *block = onion_webdav_write_propfind(basepath, filename,
                                                    onion_request_get_path(req),
-- 
2.43.0


From c6bff67a52f13a5808b183015d147625d6e94922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:19 +0000
Subject: [PATCH 060/145] fix: PROPPATCH of executable without a value, or of a
 missing file

---
 src/onion/handlers/webdav.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 873a0ac..b33a199 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -672,10 +672,11 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
               xmlNode *prop = set->children;
               while (prop) {
                 ONION_DEBUG("prop %s", prop->name);
-                if (strcmp((const char *)prop->name, "executable") == 0) {
+                struct stat st;
+                if (strcmp((const char *)prop->name, "executable") == 0
+                    && prop->children && prop->children->content
+                    && stat(filename, &st) == 0) {
                   ONION_DEBUG("Setting executable %s", prop->children->content);
-                  struct stat st;
-                  stat(filename, &st);
                   if (prop->children->content[0] == 'T'
                       || prop->children->content[0] == 't') {
                     chmod(filename, st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH);
-- 
2.43.0


From cad167ff7c77998b14b69d1d8f935878bf6a3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:19 +0000
Subject: [PATCH 061/145] fix: addresses of the resources listed by PROPFIND

---
 src/onion/handlers/webdav.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index b33a199..c2f62a4 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -370,6 +370,26 @@ static int onion_webdav_parse_propfind(const onion_block * block) {
   return props;
 }
 
+/// Quotes a path to be used as URL. Must be freed.
+static char *quote_path(const char *path) {
+  static const char hex[] = "0123456789ABCDEF";
+  char *ret = onion_low_malloc(strlen(path) * 3 + 1);
+  char *p = ret;
+  for (; *path; path++) {
+    unsigned char c = *path;
+    if ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z')
+        || (c >= 'a' && c <= 'z') || strchr("/-_.~", c))
+      *p++ = c;
+    else {
+      *p++ = '%';
+      *p++ = hex[c >> 4];
+      *p++ = hex[c & 0x0F];
+    }
+  }
+  *p = '\0';
+  return ret;
+}
+
 /**
  * @short Write the properties of a path.
  * 
@@ -391,7 +411,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
   ONION_DEBUG("Info for path '%s', urlpath '%s', file '%s', basepath '%s'",
               realpath, urlpath, filename, basepath);
   // Stat the thing itself
-  char tmp[PATH_MAX];
+  char tmp[PATH_MAX * 2];
   if (filename)
     snprintf(tmp, sizeof(tmp), "%s/%s", realpath, filename);
   else {
@@ -422,7 +442,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
     }
   }
   if (S_ISDIR(st.st_mode) && urlpath[0] != 0)
-    strncat(tmp, "/", sizeof(tmp) - 1);
+    strncat(tmp, "/", sizeof(tmp) - strlen(tmp) - 1);
   ONION_DEBUG0("Props for %s", tmp);
 
   xmlTextWriterStartElement(writer, BAD_CAST "D:response");
@@ -431,7 +451,9 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
   xmlTextWriterWriteAttribute(writer, BAD_CAST "xmlns:a",
                               BAD_CAST "http://apache.org/dav/props/");
 
-  xmlTextWriterWriteElement(writer, BAD_CAST "D:href", BAD_CAST tmp);
+  char *href = quote_path(tmp);
+  xmlTextWriterWriteElement(writer, BAD_CAST "D:href", BAD_CAST href);
+  onion_low_free(href);
 
   /// OK
   xmlTextWriterStartElement(writer, BAD_CAST "D:propstat");
@@ -457,7 +479,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
                               BAD_CAST time);
   }
   if (props & WD_CONTENT_LENGTH && !S_ISDIR(st.st_mode)) {
-    snprintf(tmp, sizeof(tmp), "%d", (int)st.st_size);
+    snprintf(tmp, sizeof(tmp), "%ld", (long)st.st_size);
     xmlTextWriterWriteElement(writer, BAD_CAST "lp1:getcontentlength",
                               BAD_CAST tmp);
   }
@@ -590,11 +612,10 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   const char *fullpath = onion_request_get_fullpath(req);
   pathlen = (current_path - fullpath);
   basepath = alloca(pathlen + 1);
-  memcpy(basepath, fullpath, pathlen + 1);
-  ONION_DEBUG0("Pathbase initial <%s> %d", basepath, pathlen);
-  while (basepath[pathlen] == '/' && pathlen > 0)
+  memcpy(basepath, fullpath, pathlen);
+  while (pathlen > 0 && basepath[pathlen - 1] == '/')
     pathlen--;
-  basepath[pathlen + 1] = 0;
+  basepath[pathlen] = 0;
 
   ONION_DEBUG0("PROPFIND; pathbase %s", basepath);
   int depth;
-- 
2.43.0


From 148d75bf338f5f566d8c4a6b0941226c45fb5881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:19 +0000
Subject: [PATCH 062/145] fix: moving files between file systems replaces the
 destination as a whole

---
 src/onion/shortcuts.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 1a750b2..4be37dd 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -34,6 +34,7 @@
 #include <stdio.h>
 #include <time.h>
 #include <errno.h>
+#include <limits.h>
 #ifdef USE_SENDFILE
 #include <sys/sendfile.h>
 #endif
@@ -409,9 +410,16 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
       ok = 1;
       ONION_ERROR("Could not open orig for reading (%s)", strerror(errno));
     }
+    // Copy to a temporal file next to dest, so that dest is replaced as a whole, as rename does.
     int fd_dest = -1;
+    char tmpdest[PATH_MAX];
+    const char *name = strrchr(dest, '/');
+    int dirlen = name ? name - dest + 1 : 0;
+    if (snprintf(tmpdest, sizeof(tmpdest), "%.*s.onion-XXXXXX", dirlen, dest) >=
+        sizeof(tmpdest))
+      ok = 1;
     if (ok == 0) {
-      fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+      fd_dest = mkstemp(tmpdest);
       if (fd_dest < 0) {
         ok = 1;
         ONION_ERROR("Could not open destination for writing (%s)",
@@ -442,15 +450,21 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
         }
       }
     }
+    struct stat st;
+    if (ok == 0 && (fstat(fd_orig, &st) != 0
+                    || fchmod(fd_dest, st.st_mode & 0777) != 0))
+      ok = 1;
     if (fd_orig >= 0)
       close(fd_orig);
     if (fd_dest >= 0) {
       if (close(fd_dest) != 0)
         ok = 1;
-      if (ok == 0)
+      if (ok == 0 && rename(tmpdest, dest) == 0)
         unlink(orig);           // Only when all the data is at dest
-      else
-        unlink(dest);
+      else {
+        ok = 1;
+        unlink(tmpdest);
+      }
     }
   }
   return ok;
-- 
2.43.0


From d3d8b1ca4a8fdab7d35a225b60fb53195f9d96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:59 +0000
Subject: [PATCH 063/145] fix: the file is not sent if its headers could not be
 sent

---
 src/onion/shortcuts.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 4be37dd..8e7ffea 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -287,7 +287,10 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   if (length) {
 #ifdef USE_SENDFILE
     if (use_sendfile && request->connection.listen_point->write == (void *)onion_http_write) {  // Lets have a house party! I can use sendfile!
-      onion_response_write(res, NULL, 0);
+      if (onion_response_flush(res) < 0) {      // Could not send the headers
+        close(fd);
+        return OCS_PROCESSED;
+      }
       ONION_DEBUG("Using sendfile");
       size_t tr = 0;
       while (tr < length) {
-- 
2.43.0


From ed92a51ae1e8f5a6b9b828b625597a536a4b3993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:16 +0000
Subject: [PATCH 064/145] fix: mime.types that ends at a comment

---
 src/onion/mime.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 58680e7..d256703 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -119,6 +119,8 @@ static void onion_mime_fill() {
   while ((c = getc(fd)) >= 0) {
     if (c == '#') {
       while ((c = getc(fd)) >= 0 && c != '\n') ;
+      if (c < 0)
+        break;
     }
     if (c == '\n') {
       if (mode == 1 && i != 0) {
-- 
2.43.0


From acab6fdd3a4c446b81797b7b48e2eeba58e14184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:59 +0000
Subject: [PATCH 065/145] fix: WebDAV operations on links that are outside of
 the share but link into it

---
 src/onion/handlers/webdav.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index c2f62a4..b4081cc 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -739,6 +739,13 @@ void onion_webdav_free(onion_webdav * wd) {
   xmlMemoryDump();
 }
 
+/// Whether the file is the base, or is inside of it. Both as returned by realpath.
+static int is_inside(const char *base, const char *file) {
+  size_t l = strlen(base);
+  return strncmp(base, file, l) == 0 && (l == 1 || file[l] == '/'
+                                         || file[l] == '\0');
+}
+
 /**
  * @short Default permission checker
  * 
@@ -775,12 +782,25 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Could not resolve real path for %s or %s", exported_path,
                 filename);
   }
-  size_t l = strlen(base);
-  if ((ret == 0) && (strncmp(base, file, l) != 0
-                     || (l > 1 && file[l] != '/' && file[l] != '\0'))) {
+  if ((ret == 0) && !is_inside(base, file)) {
     ret = 1;
     ONION_ERROR("Base %s is not for file %s", base, file);
   }
+  // Some operations are on the name itself and not on what it may link to, so the parent must be inside too.
+  const char *name = filename;
+  if (strncmp(name, exported_path, strlen(exported_path)) == 0)
+    name += strlen(exported_path);
+  if ((ret == 0) && strspn(name, "/") != strlen(name)) {
+    char *fname = alloca(strlen(filename) + 1);
+    strcpy(fname, filename);
+    char *parent = realpath(dirname(fname), NULL);
+    if (!parent || !is_inside(base, parent)) {
+      ret = 1;
+      ONION_ERROR("Base %s is not for the parent of %s", base, filename);
+    }
+    if (parent)
+      onion_low_free(parent);
+  }
 
   if (base)
     onion_low_free(base);
-- 
2.43.0


From 0e52857d737f530c8128cae00c62bfa697c9a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:06 +0000
Subject: [PATCH 066/145] fix: session ids only have alphanumeric characters

The random bytes are signed, and half of them indexed outside the list of
allowed characters.
---
 src/onion/sessions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/sessions.c b/src/onion/sessions.c
index 15df9f7..87c3c02 100644
--- a/src/onion/sessions.c
+++ b/src/onion/sessions.c
@@ -52,7 +52,7 @@ char *onion_sessions_generate_id() {
   onion_random_generate(ret, 32);
   int i;
   for (i = 0; i < 32; i++) {
-    ret[i] = allowed_chars[ret[i] % (sizeof(allowed_chars) - 1)];
+    ret[i] = allowed_chars[((unsigned char)ret[i]) % (sizeof(allowed_chars) - 1)];
   }
   ret[i] = '\0';
   return ret;
-- 
2.43.0


From 6a336c14ef7263bc0d15838e274a90a5292143a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 067/145] fix: only the cookie named sessionid selects the
 session

The text was looked for anywhere in the header, so that other cookies whose
name ended in it (my_sessionid) or whose value had it selected a session.
---
 src/onion/request.c | 49 ++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 95baa75..6544e9f 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -389,41 +389,32 @@ const onion_dict *onion_request_get_file_dict(onion_request * req) {
 void onion_request_guess_session_id(onion_request * req) {
   if (req->session_id)          // already known.
     return;
-  const char *ov = onion_dict_get(req->headers, "Cookie");
-  const char *v = ov;
+  const char *v = onion_dict_get(req->headers, "Cookie");
   ONION_DEBUG("Session ID, maybe from %s", v);
-  char *r = NULL;
-  onion_dict *session = NULL;
 
-  do {                          // Check all possible sessions
-    if (r) {
-      onion_low_free(r);
-      r = NULL;
-    }
-    if (!v)
-      return;
-    v = strstr(v, "sessionid=");
-    if (!v)                     // exit point, no session found.
-      return;
-    if (v > ov && is_alnum(v[-1])) {
-      ONION_DEBUG("At -1: %c %d (%p %p)", v[-1], is_alnum(v[-1]), v, ov);
-      v = strstr(v, ";");
-    } else {
+  while (v) {                   // Check all possible sessions, one cookie at a time
+    while (*v == ' ')
+      v++;
+    const char *end = strchr(v, ';');
+    if (strncmp(v, "sessionid=", 10) == 0) {
       v += 10;
-      r = onion_low_strdup(v);  // Maybe allocated more memory, not much anyway.
-      char *p = r;
-      while (*p != '\0' && *p != ';')
-        p++;
-      *p = '\0';
+      size_t l = end ? (size_t) (end - v) : strlen(v);
+      char *r = onion_low_scalar_malloc(l + 1);
+      memcpy(r, v, l);
+      r[l] = '\0';
       ONION_DEBUG0("Checking if %s exists in sessions", r);
-      session =
+      onion_dict *session =
           onion_sessions_get(req->connection.listen_point->server->sessions, r);
+      if (session) {
+        req->session_id = r;
+        req->session = session;
+        ONION_DEBUG("Session ID, from cookie, is %s", req->session_id);
+        return;
+      }
+      onion_low_free(r);
     }
-  } while (!session);
-
-  req->session_id = r;
-  req->session = session;
-  ONION_DEBUG("Session ID, from cookie, is %s", req->session_id);
+    v = end ? end + 1 : NULL;
+  }
 }
 
 /**
-- 
2.43.0


From edd12e74351adb528b77c47b99e40df5428f901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 068/145] fix: no session id is kept when the session could not
 be created

It leaked, and freeing the request used the missing dictionary.
---
 src/onion/request.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request.c b/src/onion/request.c
index 6544e9f..c5af466 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -448,6 +448,10 @@ onion_dict *onion_request_get_session_dict(onion_request * req) {
       req->session =
           onion_sessions_get(req->connection.listen_point->server->sessions,
                              req->session_id);
+      if (!req->session && req->session_id) {   // The backend could not store it
+        onion_low_free(req->session_id);
+        req->session_id = NULL;
+      }
     }
   }
   return req->session;
-- 
2.43.0


From 0b9afd18a3c144e86655a97435d895a1719e54f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 069/145] fix: removed sessions are removed from the sqlite3
 backend

Removing asks to save NULL, which was stored as if it were data.
---
 src/onion/sessions_sqlite3.c | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index cf3c1a5..c6a93b3 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -41,6 +41,7 @@ typedef struct onion_session_sqlite3_t {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
 #endif
@@ -55,6 +56,7 @@ static void onion_sessions_sqlite3_free(onion_sessions * sessions) {
 #endif
   sqlite3_finalize(p->save);
   sqlite3_finalize(p->get);
+  sqlite3_finalize(p->remove);
   sqlite3_close(p->db);
   onion_low_free(sessions->data);
 
@@ -100,8 +102,30 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
   return ret;
 }
 
+static void onion_sessions_sqlite3_remove(onion_sessions * sessions,
+                                          const char *session_id) {
+  onion_session_sqlite3 *p = sessions->data;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+#endif
+  sqlite3_reset(p->remove);
+  int rc = sqlite3_bind_text(p->remove, 1, session_id, -1, SQLITE_STATIC);
+  if (rc == SQLITE_OK)
+    rc = sqlite3_step(p->remove);
+  if (rc != SQLITE_DONE)
+    ONION_ERROR("Error removing session (%d)", rc);
+  sqlite3_reset(p->remove);
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 void onion_sessions_sqlite3_save(onion_sessions * sessions,
                                  const char *session_id, onion_dict * data) {
+  if (data == NULL) {           // no data, remove it
+    onion_sessions_sqlite3_remove(sessions, session_id);
+    return;
+  }
   onion_block *bl = onion_dict_to_json(data);
 
   ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
@@ -151,6 +175,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
   rc = sqlite3_open(database_filename, &db);
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
@@ -174,6 +199,17 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   rc = sqlite3_prepare_v2(db, SAVE_SQL, strlen(SAVE_SQL), &save, NULL);
   if (rc != SQLITE_OK) {
     ONION_ERROR("Cant prepare statement to save (%d)", rc);
+    sqlite3_finalize(get);
+    sqlite3_close(db);
+    return NULL;
+  }
+
+  const char *REMOVE_SQL = "DELETE FROM sessions WHERE id=?";
+  rc = sqlite3_prepare_v2(db, REMOVE_SQL, strlen(REMOVE_SQL), &remove, NULL);
+  if (rc != SQLITE_OK) {
+    ONION_ERROR("Cant prepare statement to remove (%d)", rc);
+    sqlite3_finalize(get);
+    sqlite3_finalize(save);
     sqlite3_close(db);
     return NULL;
   }
@@ -189,6 +225,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   p->db = db;
   p->save = save;
   p->get = get;
+  p->remove = remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_init(&p->mutex, NULL);
 #endif
-- 
2.43.0


From 54b3ed15b096104f05c88c4ab92b1e712609e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 070/145] fix: the sqlite3 sessions backend does not keep the
 database locked

A statement that is not reset keeps its read lock, and no other process nor
server using the same sessions could save.
---
 src/onion/sessions_sqlite3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index c6a93b3..f6ad7e1 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -95,6 +95,7 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
     ONION_ERROR("Invalid session data");
   }
  exit:
+  sqlite3_reset(p->get);        // or it keeps the database locked for the others
 #ifdef HAVE_PTHREADS
   pthread_mutex_unlock(&p->mutex);
 #endif
@@ -155,6 +156,7 @@ void onion_sessions_sqlite3_save(onion_sessions * sessions,
 
   ONION_DEBUG0("Session saved");
  error:
+  sqlite3_reset(p->save);       // or it keeps using the freed data
   onion_block_free(bl);
 #ifdef HAVE_PTHREADS
   pthread_mutex_unlock(&p->mutex);
-- 
2.43.0


From cffe6c708e546ff3b2fef2600359af035049ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 071/145] fix: a redis server that does not answer is not a
 crash

There is no reply when the connection to redis is lost.
---
 src/onion/sessions_redis.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 6b2bf9b..4e4032d 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -74,9 +74,10 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
       redisCommand(p->context, "HEXISTS SESSIONS %b", session_id,
                    strlen(session_id));
 
-  if (reply->type != REDIS_REPLY_INTEGER) {
+  if (!reply || reply->type != REDIS_REPLY_INTEGER) {
     ONION_ERROR("Error getting session_id");
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
     goto exit;
   } else {
     if (reply->integer == 1) {
@@ -85,9 +86,10 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
           redisCommand(p->context, "HGET SESSIONS %b", session_id,
                        strlen(session_id));
 
-      if (reply->type != REDIS_REPLY_STRING) {
+      if (!reply || reply->type != REDIS_REPLY_STRING) {
         ONION_ERROR("Error loading session.");
-        freeReplyObject(reply);
+        if (reply)
+          freeReplyObject(reply);
         goto exit;
       } else {
         ret = onion_dict_from_json(reply->str);
@@ -122,20 +124,22 @@ void onion_sessions_redis_save(onion_sessions * sessions,
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error removing session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
   } else {
     const char *json = onion_block_data(bl);
     redisReply *reply =
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error saving session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
     onion_block_free(bl);
   }
 
@@ -161,9 +165,14 @@ onion_sessions *onion_sessions_redis_new(const char *server_ip, int port) {
   onion_session_redis *p = ret->data;
   p->context = redisConnect(server_ip, port);
 
-  if (p->context != NULL && p->context->err) {
-    ONION_ERROR("Can't connect to redis. Error (%s)", p->context->errstr);
-    redisFree(p->context);
+  if (p->context == NULL || p->context->err) {
+    ONION_ERROR("Can't connect to redis. Error (%s)",
+                p->context ? p->context->errstr : "no memory");
+    if (p->context)
+      redisFree(p->context);
+    onion_low_free(ret->data);
+    onion_low_free(ret);
+    onion_random_free();
     return NULL;
   }
 #ifdef HAVE_PTHREADS
-- 
2.43.0


From 13539e8dfad56bcd7c296e74f6fcd08abd212e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 072/145] fix: removed sessions are removed from the redis
 backend

The wrong pointer was checked, and removing stored NULL as data.
---
 src/onion/sessions_redis.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 4e4032d..4d8222a 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -111,16 +111,12 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
 
 void onion_sessions_redis_save(onion_sessions * sessions,
                                const char *session_id, onion_dict * data) {
-  onion_block *bl = onion_dict_to_json(data);
-
-  ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
-
   onion_session_redis *p = sessions->data;
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
 #endif
 
-  if (p == NULL) {
+  if (data == NULL) {           // no data, remove it
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
@@ -130,7 +126,9 @@ void onion_sessions_redis_save(onion_sessions * sessions,
     if (reply)
       freeReplyObject(reply);
   } else {
+    onion_block *bl = onion_dict_to_json(data);
     const char *json = onion_block_data(bl);
+    ONION_DEBUG0("Save session %s: %s", session_id, json);
     redisReply *reply =
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
-- 
2.43.0


From 5ffcdcbd5a530d4823b0a851a7f8c0ca75438555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 073/145] fix: a sqlite3 sessions backend that can not be
 opened releases the random generator

---
 src/onion/sessions_sqlite3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index f6ad7e1..8d5d140 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -182,6 +182,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
   // I blindly try to create tables. If they exist, error, if not, create
@@ -193,6 +194,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   if (rc != SQLITE_OK) {
     ONION_ERROR("Cant prepare statement to get (%d)", rc);
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
 
@@ -203,6 +205,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
     ONION_ERROR("Cant prepare statement to save (%d)", rc);
     sqlite3_finalize(get);
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
 
@@ -213,6 +216,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
     sqlite3_finalize(get);
     sqlite3_finalize(save);
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
 
-- 
2.43.0


From ef069be41070834de0f89914c63e7627c793b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 074/145] fix: the memory sessions backend can be used from
 several threads

The dictionary of sessions was read and changed by all the threads of the
server with no lock.
---
 src/onion/sessions_mem.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/onion/sessions_mem.c b/src/onion/sessions_mem.c
index f8a31ce..dd6b8bf 100644
--- a/src/onion/sessions_mem.c
+++ b/src/onion/sessions_mem.c
@@ -35,25 +35,32 @@ char *last_data = NULL;
 static onion_dict *onion_sessions_mem_get(onion_sessions * sessions,
                                           const char *session_id) {
   ONION_DEBUG0("Accessing session '%s'", session_id);
+  onion_dict_lock_read(sessions->data);
   onion_dict *sess = onion_dict_get_dict(sessions->data, session_id);
+  if (sess)
+    sess = onion_dict_dup(sess);
+  onion_dict_unlock(sessions->data);
   if (!sess) {
     ONION_DEBUG0("Unknown session '%s'.", session_id);
     return NULL;
   }
-  return onion_dict_dup(sess);
+  return sess;
 }
 
 static void onion_sessions_mem_save(onion_sessions * sessions,
                                     const char *session_id, onion_dict * data) {
+  onion_dict_lock_write(sessions->data);
   if (data == NULL) {
     data = onion_dict_get_dict(sessions->data, session_id);
     if (data) {
       onion_dict_remove(sessions->data, session_id);
     }
+    onion_dict_unlock(sessions->data);
     return;
   }
   onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
                  OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
+  onion_dict_unlock(sessions->data);
 }
 
 static void onion_sessions_mem_free(onion_sessions * sessions) {
-- 
2.43.0


From 48024edfbabc3e61eb4a6be96a5c0101b2850259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:17 +0000
Subject: [PATCH 075/145] fix: an Authorization header with no credentials

What follows the end of the header was decoded.
---
 src/onion/handlers/auth_pam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 4be8fa1..a537d66 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -58,7 +58,7 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   char *auth = NULL;
   char *username = NULL;
   char *passwd = NULL;
-  if (o && strncmp(o, "Basic", 5) == 0) {
+  if (o && strncmp(o, "Basic ", 6) == 0) {
     //fprintf(stderr,"auth: '%s'\n",&o[6]);
     auth = onion_base64_decode(&o[6], NULL);
     username = auth;
-- 
2.43.0


From 31ca39dd429f9c3a87b8479bbcbcb033cfcb0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:17 +0000
Subject: [PATCH 076/145] fix: PAM authentication with a long realm

It was copied over a fixed size buffer.
---
 src/onion/handlers/auth_pam.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index a537d66..a28fb38 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -91,9 +91,11 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
     onion_low_free(auth);
 
   // Not authorized. Ask for it.
-  char temp[256];
-  sprintf(temp, "Basic realm=\"%s\"", d->realm);
+  size_t l = strlen(d->realm) + sizeof("Basic realm=\"\"");
+  char *temp = onion_low_scalar_malloc(l);
+  snprintf(temp, l, "Basic realm=\"%s\"", d->realm);
   onion_response_set_header(res, "WWW-Authenticate", temp);
+  onion_low_free(temp);
   onion_response_set_code(res, HTTP_UNAUTHORIZED);
   onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED));
 
-- 
2.43.0


From 261c8036709610c7e109f1af7e9ba5c7ea7ab186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:35 +0000
Subject: [PATCH 077/145] fix: Authorization headers that are not valid base64
 crashed PAM authentication

---
 src/onion/handlers/auth_pam.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index a28fb38..ab139ae 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -63,9 +63,9 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
     auth = onion_base64_decode(&o[6], NULL);
     username = auth;
     int i = 0;
-    while (auth[i] != '\0' && auth[i] != ':')
+    while (auth && auth[i] != '\0' && auth[i] != ':')
       i++;
-    if (auth[i] == ':') {
+    if (auth && auth[i] == ':') {
       auth[i] = '\0';           // so i have user ready
       passwd = &auth[i + 1];
     } else
-- 
2.43.0


From de033e9bc94f94f95d89a2edf5a77bbc971a606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:20 +0000
Subject: [PATCH 078/145] fix: header of websocket frames of 64 KiB or more

The 64 bits length was written two bytes after its place.
---
 src/onion/websocket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index cf49bef..650678f 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -194,7 +194,7 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     header[1] = 0x00;           // Do not mask on send
     if (len < 126)
       header[1] |= len;
-    else if (len < 0x0FFFF) {
+    else if (len <= 0x0FFFF) {
       header[1] |= 126;
       header[2] = (len >> 8) & 0x0FF;
       header[3] = (len) & 0x0FF;
@@ -202,9 +202,9 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     } else {
       header[1] |= 127;
       int i;
-      int tlen = len;
+      uint64_t tlen = len;
       for (i = 0; i < 8; i++) {
-        header[3 + 8 - i] = tlen & 0x0FF;
+        header[2 + 7 - i] = tlen & 0x0FF;
         tlen >>= 8;
       }
       hlen += 8;
-- 
2.43.0


From 643e59edf559dde5f04e023bdf108d89ff93b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:20 +0000
Subject: [PATCH 079/145] fix: websocket frames are written whole

The last 1024 bytes were not sent when the length was a multiple of 1024, short
writes lost data, and errors and the total written were not reported.
---
 src/onion/websocket.c | 46 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 650678f..99595e5 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -165,6 +165,22 @@ void onion_websocket_free(onion_websocket * ws) {
   onion_low_free(ws);
 }
 
+/// Writes all the data to the listen point, or returns <0.
+static int onion_websocket_write_all(onion_websocket * ws, const char *data,
+                                     size_t len) {
+  lpwriter_sig_t *lpwriter = ws->req->connection.listen_point->write;
+  while (len > 0) {
+    ssize_t w = (*lpwriter) (ws->req, data, len);
+    if (w <= 0 || w > len) {
+      ONION_DEBUG("Error writing to websocket@%p", ws);
+      return -1;
+    }
+    data += w;
+    len -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Writes a fragment to the websocket
  * @memberof onion_websocket_t
@@ -217,25 +233,19 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
        }
      */
 
-    (*lpwriter) (ws->req, header, hlen);
-  }
-  /// FIXME! powerup using int32_t as basic type.
-  int ret = 0;
-  int i, j;
-  char tout[1024];
-  for (i = 0; i < len - 1024; i += 1024) {
-    for (j = 0; j < sizeof(tout); j++) {
-      //ONION_DEBUG("At %d, %02X ^ %02X = %02X", (i+j)&1023, buffer[i+j]&0x0FF, mask[j&3]&0x0FF, (buffer[i]^mask[j&3])&0x0FF);
-      tout[j] = buffer[i + j];
-    }
-    ret += (*lpwriter) (ws->req, tout, sizeof(tout));
-  }
-  for (; i < len; i++) {
-    //ONION_DEBUG("At %d, %02X ^ %02X = %02X", i&1023, buffer[i]&0x0FF, mask[i&3]&0x0FF, (buffer[i]^mask[i&3])&0x0FF);
-    tout[i & 1023] = buffer[i];
+    // Header and data together, if possible.
+    char tout[1024];
+    memcpy(tout, header, hlen);
+    ssize_t first = sizeof(tout) - hlen;
+    if (first > len)
+      first = len;
+    memcpy(tout + hlen, buffer, first);
+    if (onion_websocket_write_all(ws, tout, hlen + first) < 0)
+      return -1;
+    if (onion_websocket_write_all(ws, buffer + first, len - first) < 0)
+      return -1;
   }
-
-  return (*lpwriter) (ws->req, tout, len & 1023);
+  return len;
 }
 
 /**
-- 
2.43.0


From ad3359e66471750329c1353b8c158956946441bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:20 +0000
Subject: [PATCH 080/145] fix: websocket printf of 511 bytes or more

The last characters were cut, and the arguments list was used twice.
---
 src/onion/websocket.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 99595e5..2bcc40c 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -324,7 +324,14 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   */
 int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args) {
   char temp[512];
-  int l = vsnprintf(temp, sizeof(temp) - 1, fmt, args);
+  va_list args2;
+  va_copy(args2, args);         // may need them again if it does not fit
+  int l = vsnprintf(temp, sizeof(temp), fmt, args2);
+  va_end(args2);
+  if (l < 0) {
+    ONION_ERROR("Invalid format or arguments");
+    return -1;
+  }
   if (l < sizeof(temp))
     return onion_websocket_write(ws, temp, l);
   else {
@@ -336,7 +343,7 @@ int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args)
       ONION_ERROR("Could not reserve %d bytes", l + 1);
       return -1;
     }
-    vsnprintf(buf, l, fmt, args);
+    vsnprintf(buf, l + 1, fmt, args);
     s = onion_websocket_write(ws, buf, l);
     onion_low_free(buf);
     return s;
-- 
2.43.0


From 4cebca1e6006a756cef928de1b24ef0d19a953ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:20 +0000
Subject: [PATCH 081/145] fix: requests that are not websockets do not keep the
 random generator in use

---
 src/onion/websocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 2bcc40c..0d8b37e 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -77,8 +77,6 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   if (req->websocket)
     return req->websocket;
 
-  onion_random_init();
-
   const char *upgrade = onion_request_get_header(req, "Upgrade");
   if (!upgrade || strcasecmp(upgrade, "websocket") != 0)
     return NULL;
@@ -128,6 +126,8 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   onion_response_write_headers(res);
   onion_response_write(res, "", 0);     // AKA flush
 
+  onion_random_init();
+
   onion_websocket *ret = onion_low_malloc(sizeof(onion_websocket));
   ret->callback = NULL;
   ret->req = req;
-- 
2.43.0


From be95ff4ce298d0da052e8497d658b233b357f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:20 +0000
Subject: [PATCH 082/145] fix: the websocket subprotocol is answered

The name of the header was misspelled, and a list is not a valid answer.
---
 src/onion/websocket.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 0d8b37e..5438106 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -118,8 +118,14 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   res->flags |= OR_CONNECTION_UPGRADE;
   res->flags |= OR_LENGTH_SET;  // Fix for Chrome to close cleanly websocket connections
   onion_response_set_header(res, "Upgrade", "websocket");
-  if (ws_protocol)
-    onion_response_set_header(res, "Sec-Websocket-Procotol", ws_protocol);
+  if (ws_protocol) {            // The client may offer several, only one can be accepted
+    size_t l = strcspn(ws_protocol, ", \t");
+    char *protocol = onion_low_scalar_malloc(l + 1);
+    memcpy(protocol, ws_protocol, l);
+    protocol[l] = '\0';
+    onion_response_set_header(res, "Sec-Websocket-Protocol", protocol);
+    onion_low_free(protocol);
+  }
   onion_response_set_header(res, "Sec-Websocket-Accept", key_answer);
   onion_low_free(key_answer);
 
-- 
2.43.0


From 5aeec96d040f42b32dcc196637e7990c55a0260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:51 +0000
Subject: [PATCH 083/145] fix: websocket frames are read whatever the pieces
 they come in

A header cut in two reads closed the connection, reads at the end of the
connection or of zero bytes gave wrong results, many small frames could exhaust
the stack, negative lengths were accepted, and the callback was not told about
connections lost while reading.
---
 src/onion/websocket.c | 108 +++++++++++++++++++++++++++++-------------
 1 file changed, 74 insertions(+), 34 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 5438106..ee01ebf 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -43,6 +43,7 @@
 enum onion_websocket_flags_e {
   WS_FIN = 1,
   WS_MASK = 2,
+  WS_CLOSED = 4,                // Close was received, or the connection lost. Nothing more to read.
 };
 
 // signature of writer in listen point.
@@ -54,7 +55,10 @@ typedef ssize_t(lpwriter_sig_t) (onion_request * req, const char *data,
 /// @ingroup websocket
 typedef ssize_t(lpreader_sig_t) (onion_request * req, char *data, size_t len);
 
-static int onion_websocket_read_packet_header(onion_websocket * ws);
+static onion_connection_status
+onion_websocket_read_packet_header(onion_websocket * ws);
+static onion_connection_status
+onion_websocket_read_packet_header0(onion_websocket * ws);
 
 const static char *websocket_magic_13 = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 const static int websocket_magic_13_length = 36;
@@ -280,7 +284,9 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     return -1;
   }
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
-  if (ws->data_left == 0) {
+  if (len == 0)
+    return 0;
+  while (ws->data_left == 0) {  // Skip empty and control frames
     onion_connection_status status;
     if ((status = onion_websocket_read_packet_header(ws)) < 0) {
       if (status == -2)
@@ -290,30 +296,35 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     }
   }
 
-  size_t left_len = 0;
-  if (len > ws->data_left) {
-    left_len = len - ws->data_left;
-    len = ws->data_left;
-    //ONION_DEBUG("Read %d bytes now, %d bytes later", len, left_len);
-  }
-  int r = (*lpreader) (ws->req, buffer, len);
-  if (ws->flags & WS_MASK) {
-    char *p = buffer;
-    int i;
-    for (i = 0; i < r; i++) {
-      *p = *p ^ ws->mask[(ws->mask_pos++) & 3];
-      p++;
+  size_t done = 0;
+  while (done < len && ws->data_left > 0) {
+    size_t now = len - done;
+    if (now > ws->data_left)
+      now = ws->data_left;
+    ssize_t r = (*lpreader) (ws->req, buffer + done, now);
+    if (r <= 0) {               // Lost, there will not be more data.
+      ws->flags |= WS_CLOSED;
+      ws->data_left = 0;
+      return done > 0 ? (int)done : (int)r;
+    }
+    if (ws->flags & WS_MASK) {
+      char *p = buffer + done;
+      int i;
+      for (i = 0; i < r; i++) {
+        *p = *p ^ ws->mask[(ws->mask_pos++) & 3];
+        p++;
+      }
+    }
+    ws->data_left -= r;
+    done += r;
+    if (r < now)                // No more for now
+      break;
+    while (done < len && ws->data_left == 0) {  // Read from the next frame
+      if (onion_websocket_read_packet_header(ws) < 0)
+        return done;
     }
   }
-  ws->data_left -= r;
-
-  if (left_len && r == len)
-    r += onion_websocket_read(ws, &buffer[len], left_len);
-
-  if (r < 0 || (r == 0 && errno != 0)) {
-    ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
-  }
-  return r;
+  return done;
 }
 
  /**
@@ -427,6 +438,30 @@ void onion_websocket_set_userdata(onion_websocket * ws, void *userdata,
  */
 static onion_connection_status
 onion_websocket_read_packet_header(onion_websocket * ws) {
+  onion_connection_status r = onion_websocket_read_packet_header0(ws);
+  if (r < 0) {
+    ws->flags |= WS_CLOSED;
+    ws->data_left = 0;
+  }
+  return r;
+}
+
+/// Reads exactly len bytes, in as many pieces as they come. Returns <0 if not possible.
+static int onion_websocket_read_all(onion_websocket * ws, char *data,
+                                    size_t len) {
+  lpreader_sig_t *lpreader = ws->req->connection.listen_point->read;
+  while (len > 0) {
+    ssize_t r = (*lpreader) (ws->req, data, len);
+    if (r <= 0)
+      return -1;
+    data += r;
+    len -= r;
+  }
+  return 0;
+}
+
+static onion_connection_status
+onion_websocket_read_packet_header0(onion_websocket * ws) {
   char tmp[8];
   unsigned char *utmp = (unsigned char *)tmp;
   if (!ws->req) {               // should not happen....
@@ -438,9 +473,9 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return OCS_CLOSE_CONNECTION;
   }
-  int r = (*lpreader) (ws->req, tmp, 2);
+  int r = onion_websocket_read_all(ws, tmp, 2);
   //ONION_DEBUG("reading input r = %i", r);
-  if (r != 2) {
+  if (r < 0) {
     ONION_DEBUG("Error reading header");
     return OCS_CLOSE_CONNECTION;
   }
@@ -453,17 +488,17 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   ws->opcode = tmp[0] & 0x0F;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
+    r = onion_websocket_read_all(ws, tmp, 2);
+    if (r < 0) {
       ONION_DEBUG("Error reading header");
       return OCS_CLOSE_CONNECTION;
     }
     ONION_DEBUG("%d %d", utmp[0], utmp[1]);
     ws->data_left = utmp[1] + utmp[0] * 256;
   } else if (ws->data_left == 127) {
-    r = (*lpreader) (ws->req, tmp, 8);
+    r = onion_websocket_read_all(ws, tmp, 8);
     //ONION_DEBUG("%d %d %d %d %d %d %d", utmp[0], utmp[1], utmp[2], utmp[3], utmp[4], utmp[5], utmp[6], utmp[7]);
-    if (r != 8) {
+    if (r < 0) {
       ONION_DEBUG("Error reading header");
       return OCS_CLOSE_CONNECTION;
     }
@@ -471,12 +506,16 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     int i;
     for (i = 0; i < 8; i++)
       ws->data_left += ((uint64_t) utmp[i]) << ((7 - i) * 8);   // Maybe problematic on 32bits systems
+    if (ws->data_left < 0) {
+      ONION_ERROR("Invalid websocket frame length");
+      return OCS_CLOSE_CONNECTION;
+    }
   }
   ONION_DEBUG("Data left %d", ws->data_left);
   if (ws->flags & WS_MASK) {
-    r = (*lpreader) (ws->req, ws->mask, 4);
+    r = onion_websocket_read_all(ws, ws->mask, 4);
     //ONION_DEBUG("bytes read=%i", r);
-    if (r != 4) {
+    if (r < 0) {
       ONION_DEBUG("Error reading header (4)");
       return OCS_CLOSE_CONNECTION;
     }
@@ -542,10 +581,11 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       do {
         last_d_l = ws->data_left;
         ret = ws->callback(ws->user_data, ws, ws->data_left);
-      } while (ws->data_left != 0 && last_d_l != ws->data_left && ws->callback);
+      } while (ret == OCS_NEED_MORE_DATA && ws->data_left != 0
+               && last_d_l != ws->data_left && ws->callback);
     }
 
-    if (!ws->callback)          // ws->callback can change ws->callback, so another test, not else.
+    if (!ws->callback || (ws->flags & WS_CLOSED))       // ws->callback can change ws->callback, so another test, not else.
       ret = OCS_CLOSE_CONNECTION;
   }
   ONION_DEBUG("Websocket connection closed (%d)", ret);
-- 
2.43.0


From ad114d1ac7609669f4e356d5d2f6feef3b1412e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:51 +0000
Subject: [PATCH 084/145] fix: websocket pings are answered with their data as
 a pong

They were answered with the opcode of the data, with empty ones waiting for the
next frame, the buffer leaked, its size was chosen by the client, the user was
called with no data, and the next message was sent as a pong.
---
 src/onion/websocket.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index ee01ebf..fd900c2 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -485,6 +485,7 @@ onion_websocket_read_packet_header0(onion_websocket * ws) {
     ws->flags |= WS_FIN;
   if (tmp[1] & 0x80)
     ws->flags |= WS_MASK;
+  onion_websocket_opcode old_opcode = ws->opcode;
   ws->opcode = tmp[0] & 0x0F;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
@@ -523,11 +524,23 @@ onion_websocket_read_packet_header0(onion_websocket * ws) {
   }
 
   if (ws->opcode == OWS_PING) { // I do answer ping myself.
+    char data[125];             // Maximum size by specification
+    size_t length = ws->data_left;
+    if (length > sizeof(data)) {
+      ONION_ERROR("Invalid websocket ping, too long");
+      return OCS_CLOSE_CONNECTION;
+    }
+    if (onion_websocket_read_all(ws, data, length) < 0)
+      return OCS_CLOSE_CONNECTION;
+    ws->data_left = 0;
+    size_t i;
+    if (ws->flags & WS_MASK)
+      for (i = 0; i < length; i++)
+        data[i] ^= ws->mask[i & 3];
     onion_websocket_set_opcode(ws, OWS_PONG);
-    char *data = onion_low_scalar_malloc(ws->data_left);
-    ssize_t r = onion_websocket_read(ws, data, ws->data_left);
-
-    onion_websocket_write(ws, data, r);
+    int w = onion_websocket_write(ws, data, length);
+    onion_websocket_set_opcode(ws, old_opcode); // The user did not see this frame
+    return w < 0 ? OCS_CLOSE_CONNECTION : OCS_PROCESSED;
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
     r = (*lpreader) (ws->req, tmp, 2);
@@ -575,6 +588,8 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
             ONION_ERROR("Error reading websocket header (%i)", err);
           return err;
         }
+        if (err == OCS_PROCESSED)       // Control frame, already managed.
+          continue;
       }
 
       size_t last_d_l;
-- 
2.43.0


From 3f1534005bbea814defd3cf68fe09250ed25dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:51 +0000
Subject: [PATCH 085/145] fix: close of websockets with no status, or not
 masked

---
 src/onion/websocket.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index fd900c2..849b9b4 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -543,17 +543,22 @@ onion_websocket_read_packet_header0(onion_websocket * ws) {
     return w < 0 ? OCS_CLOSE_CONNECTION : OCS_PROCESSED;
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
+    if (ws->data_left < 2) {    // The status is optional
+      onion_websocket_write(ws, "", 0);
+      return OCS_CLOSE_CONNECTION;
+    }
+    r = onion_websocket_read_all(ws, tmp, 2);
+    if (r < 0) {
       ONION_DEBUG("Error reading status code");
       return OCS_CLOSE_CONNECTION;
     }
-    char status[2];
-    status[0] = utmp[0] ^ ws->mask[0];
-    status[1] = utmp[1] ^ ws->mask[1];
+    if (ws->flags & WS_MASK) {
+      tmp[0] ^= ws->mask[0];
+      tmp[1] ^= ws->mask[1];
+    }
     ONION_DEBUG("Connection closed by client, status=%u",
-                (status[0] << 8) + status[1]);
-    onion_websocket_close(ws, (const char *)&status);
+                (utmp[0] << 8) + utmp[1]);
+    onion_websocket_close(ws, tmp);
     return OCS_CLOSE_CONNECTION;
   }
   return OCS_NEED_MORE_DATA;
-- 
2.43.0


From 64fff6f756df46474c773ea05b6913c1e16b2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:51 +0000
Subject: [PATCH 086/145] fix: no HTTP error page is written into a websocket

---
 src/onion/websocket.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 849b9b4..d9a43e1 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -580,7 +580,7 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       //ONION_DEBUG("Wait for data");
       int r = poll(&pfd, 1, -1);
       if (r == 0)
-        return OCS_INTERNAL_ERROR;
+        return OCS_CLOSE_CONNECTION;
       //ONION_DEBUG("waited for data fd %d -- res %d -- events %d", ws->req->fd, r, pfd.events);
     } else
       sleep(1);                 // FIXME Worst possible solution. But solution anyway to the problem of not know when new data is available.
@@ -609,9 +609,7 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       ret = OCS_CLOSE_CONNECTION;
   }
   ONION_DEBUG("Websocket connection closed (%d)", ret);
-  if (ret == OCS_CLOSE_CONNECTION)
-    return ret;
-  return OCS_INTERNAL_ERROR;
+  return OCS_CLOSE_CONNECTION;  // Anything else would write an HTTP error into the websocket
 }
 
 /**
-- 
2.43.0


From 7a7271dedc4902aada7f4a115869132b1f1dcff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:49 +0000
Subject: [PATCH 087/145] fix: polling again after a stop works, and a stop
 reaches pollers that start meanwhile

The eventfd was left signalled by the last poller that stopped, so the next
onion_poller_poll (listening again) finished at once; and every new poller
cleared the stop flag for all.
---
 src/onion/poller.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 39d5678..7116fee 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -506,8 +506,13 @@ void onion_poller_poll(onion_poller * p) {
   ONION_DEBUG("Start polling");
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
-  p->npollers++;
-  p->stop = 0;
+  // Only the first poller forgets old stops, if not new pollers would ignore
+  // a stop aimed to all of them.
+  if (p->npollers++ == 0) {
+    char data[8];
+    int __attribute__ ((unused)) r = read(p->eventfd, data, 8);
+    p->stop = 0;
+  }
   ONION_DEBUG0("Npollers %d. %d listenings %p", p->npollers, p->n, p->head);
   pthread_mutex_unlock(&p->mutex);
 #else
-- 
2.43.0


From ea243d9fde6e3cccad7bd9735367a9d61813caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:10 +0000
Subject: [PATCH 088/145] fix: idle connections are always timed out

When the timeouts were already checked in this second, the next check was set
to one day later, so connections accepted in the same second as a check were
never closed. The time of the last check was shared by all pollers, and two
threads could overwrite each other's timer.
---
 src/onion/poller.c | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 7116fee..8d9fc50 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -68,6 +68,7 @@ struct onion_poller_t {
   int eventfd;                  ///< fd to signal internal changes on poller.
   int timerfd;                  ///< fd to set up timeouts
   time_t current_timeout_limit; ///< Currently set limit in seconds
+  time_t last_time;             ///< Last second when the timeouts were checked
 
   int n;
   char stop;
@@ -239,8 +240,6 @@ static int onion_poller_stop_helper(void *p) {
   return 1;
 }
 
-static time_t onion_poller_last_time = 0;
-
 static int onion_poller_timer(void *p_);
 
 static void onion_poller_timer_check(onion_poller * p, time_t timelimit) {
@@ -260,13 +259,15 @@ static int onion_poller_timer(void *p_) {
   //if (read(p->timerfd, &count, sizeof(count))>0){ // Triggered.. not really interested
   //}
 
+  pthread_mutex_lock(&p->mutex);
   time_t ctime = onion_time();
   time_t next_timeout = ctime + (24 * 60 * 60); // At least once per day
 
-  // Do this only once per second max.
-  if (ctime != onion_poller_last_time) {
-    onion_poller_last_time = ctime;
-    pthread_mutex_lock(&p->mutex);
+  // Do this only once per second max, the next second looks at the rest.
+  if (ctime == p->last_time) {
+    next_timeout = ctime + 1;
+  } else {
+    p->last_time = ctime;
     onion_poller_slot *next = p->head;
     while (next) {
       onion_poller_slot *cur = next;
@@ -280,26 +281,14 @@ static int onion_poller_timer(void *p_) {
         next_timeout = cur->timeout_limit;
       }
     }
-    pthread_mutex_unlock(&p->mutex);
   }
-  // Atomic store.
-  // Try until set if <= next_timeout.
-  time_t origval;
-  time_t oldval;
-  do {                          // Spin until change is acceptable.
-    origval = p->current_timeout_limit;
-    oldval =
-        __sync_val_compare_and_swap(&p->current_timeout_limit, origval,
-                                    next_timeout);
-  } while (                     // Repeat if
-            origval != oldval   // different, so not changed because somebody else changed the value
-            && oldval > next_timeout    // and current timer is for later than my timeout
-      );                        // Ths is when another thread changed if for a later timeout, so I must insist on mine
+  p->current_timeout_limit = next_timeout;
 
   //ONION_DEBUG("Next timeout in %d seconds", p->current_timeout_limit - ctime);
   // rearm
   struct itimerspec next = { {0, 0}, {next_timeout - ctime, 0} };
   timerfd_settime(p->timerfd, 0, &next, NULL);
+  pthread_mutex_unlock(&p->mutex);
 
   return 1;
 }
@@ -562,7 +551,11 @@ void onion_poller_poll(onion_poller * p) {
         n = el->f(el->data);
 
         if (el->timeout > 0) {
+          // A check at the same time from another thread sees this limit, or
+          // this thread sees the limit it set.
+          pthread_mutex_lock(&p->mutex);
           el->timeout_limit = onion_time() + el->timeout;
+          pthread_mutex_unlock(&p->mutex);
           onion_poller_timer_check(p, el->timeout_limit);
         }
       }
-- 
2.43.0


From d19d6b256997db15d558a1191e7b08164ed331c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:10 +0000
Subject: [PATCH 089/145] fix: a negative timeout means forever, as documented

It was taken as 0 seconds, and timeouts below one second too.
---
 src/onion/poller.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 8d9fc50..f064083 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -213,10 +213,15 @@ void onion_poller_slot_set_shutdown(onion_poller_slot * el, void (*sd) (void *),
  * @memberof onion_poller_slot_t
  *
  * @param el Slot to modify
- * @param timeout Time in milliseconds that this file can be waiting.
+ * @param timeout Time in milliseconds that this file can be waiting. <0 for ever.
  */
 void onion_poller_slot_set_timeout(onion_poller_slot * el, int timeout) {
-  el->timeout = timeout / 1000; // I dont have that resolution.
+  if (timeout < 0) {            // Forever
+    el->timeout = -1;
+    el->timeout_limit = INT_MAX;
+    return;
+  }
+  el->timeout = timeout / 1000 + (timeout % 1000 != 0); // I dont have that resolution.
   el->timeout_limit = onion_time() + el->timeout;
   ONION_DEBUG0("Set timeout to %d, %d s", el->timeout_limit, el->timeout);
 }
-- 
2.43.0


From eba539844f5e47e640a2f480ac84be019a25ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:03 +0000
Subject: [PATCH 090/145] fix: a listen point that can not be opened does not
 break the others, nor leaks

---
 src/onion/listen_point.c | 6 ++++--
 src/onion/onion.c        | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index ebc5bb3..656c1d5 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -63,6 +63,7 @@ static int onion_listen_point_read_ready(onion_request * req);
  */
 onion_listen_point *onion_listen_point_new() {
   onion_listen_point *ret = onion_low_calloc(1, sizeof(onion_listen_point));
+  ret->listenfd = -1;           // Not listening yet
   return ret;
 }
 
@@ -198,7 +199,7 @@ int onion_listen_point_listen(onion_listen_point * op) {
   if (getaddrinfo(op->hostname, op->port ? op->port : "8080", &hints, &result)
       != 0) {
     ONION_ERROR("Error getting local address and port: %s", strerror(errno));
-    return errno;
+    return errno ? errno : EADDRNOTAVAIL;
   }
 
   int optval = 1;
@@ -230,7 +231,8 @@ int onion_listen_point_listen(onion_listen_point * op) {
   }
   if (rp == NULL) {
     ONION_ERROR("Could not find any suitable address to bind to.");
-    return errno;
+    freeaddrinfo(result);
+    return errno ? errno : EADDRNOTAVAIL;
   }
 #ifdef __DEBUG__
   char address[64];
diff --git a/src/onion/onion.c b/src/onion/onion.c
index 279fd18..e596fda 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -498,6 +498,10 @@ int onion_listen(onion * o) {
     onion_listen_point **listen_points = o->listen_points;
     while (*listen_points) {
       onion_listen_point *p = *listen_points;
+      if (p->listenfd < 0) {    // Could not be opened
+        listen_points++;
+        continue;
+      }
       ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
       onion_poller_slot *slot =
           onion_poller_slot_new(p->listenfd, (void *)onion_listen_point_accept,
-- 
2.43.0


From 3b75f17b14ea606cbdd63bfe82a0632d48b64722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:03 +0000
Subject: [PATCH 091/145] fix: asking for a listen point that does not exist
 returns NULL

---
 src/onion/onion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index e596fda..d248d7b 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -674,7 +674,7 @@ int onion_add_listen_point(onion * server, const char *hostname,
  */
 onion_listen_point *onion_get_listen_point(onion * server, int nlisten_point) {
   onion_listen_point **next = server->listen_points;
-  while (next) {                // I have to go one by one, as NULL is the stop marker.
+  while (next && *next) {       // I have to go one by one, as NULL is the stop marker.
     if (nlisten_point == 0)
       return *next;
     nlisten_point--;
-- 
2.43.0


From a0c5e3fdb51c6f1e4be5bdc64cdc1a17fd97519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:03 +0000
Subject: [PATCH 092/145] fix: no crash creating a poller with no descriptors
 left

---
 src/onion/poller.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index f064083..6d1a49e 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -318,10 +318,21 @@ onion_poller *onion_poller_new(int n) {
     onion_low_free(p);
     return NULL;
   }
+  p->timerfd = timerfd_create(CLOCK_MONOTONIC, TFD_CLOEXEC | TFD_NONBLOCK);
   p->eventfd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
 #if EFD_CLOEXEC == 0
   fcntl(p->eventfd, F_SETFD, FD_CLOEXEC);
 #endif
+  if (p->eventfd < 0 || p->timerfd < 0) {
+    ONION_ERROR("Error creating the poller. %s", strerror(errno));
+    if (p->eventfd >= 0)
+      close(p->eventfd);
+    if (p->timerfd >= 0)
+      close(p->timerfd);
+    close(p->fd);
+    onion_low_free(p);
+    return NULL;
+  }
   p->head = NULL;
   p->n = 0;
   p->stop = 0;
@@ -342,7 +353,6 @@ onion_poller *onion_poller_new(int n) {
       onion_poller_slot_new(p->eventfd, onion_poller_stop_helper, p);
   onion_poller_add(p, ev);
 
-  p->timerfd = timerfd_create(CLOCK_MONOTONIC, TFD_CLOEXEC | TFD_NONBLOCK);
   ev = onion_poller_slot_new(p->timerfd, &onion_poller_timer, p);
   onion_poller_add(p, ev);
   onion_poller_timer(p);        // Force first timeout
-- 
2.43.0


From 5d5abb637d2499c863af4c7444123e6bd055e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:30 +0000
Subject: [PATCH 093/145] fix: stopped listen points are removed from the
 poller

---
 src/onion/onion.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index d248d7b..a85c0ed 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -574,6 +574,9 @@ void onion_listen_stop(onion * server) {
   /// Stop listening
   onion_listen_point **lp = server->listen_points;
   while (*lp) {
+    // Before closing it, as the descriptor may be reused straight away
+    if (server->poller && !(server->flags & O_ONE) && (*lp)->listenfd >= 0)
+      onion_poller_remove(server->poller, (*lp)->listenfd);
     onion_listen_point_listen_stop(*lp);
     lp++;
   }
-- 
2.43.0


From 31d01fe69b391fa85d6fda3e09bd39798fcac065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:30 +0000
Subject: [PATCH 094/145] fix: a stop while the server starts to listen is not
 lost

---
 src/onion/onion.c           |  5 ++++
 src/onion/poller.c          | 54 +++++++++++++++++++------------------
 src/onion/poller_libev.c    |  8 ++++++
 src/onion/poller_libevent.c |  8 ++++++
 4 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index a85c0ed..41628eb 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -171,6 +171,9 @@ static int onion_default_error(void *handler, onion_request * req,
                                onion_response * res);
 // Import it here as I need it to know if we have a HTTP port.
 ssize_t onion_http_write(onion_request * req, const char *data, size_t len);
+// Internal to the pollers
+void onion_poller_begin(onion_poller * p);
+void onion_poller_end(onion_poller * p);
 #ifdef HAVE_GNUTLS
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
 #endif
@@ -471,6 +474,7 @@ int onion_listen(onion * o) {
     return 1;
   }
 
+  onion_poller_begin(o->poller);        // A stop from here on stops it
   o->flags |= O_LISTENING;
 
   if (o->flags & O_ONE) {
@@ -545,6 +549,7 @@ int onion_listen(onion * o) {
   }
 
   o->flags = o->flags & ~O_LISTENING;
+  onion_poller_end(o->poller);
   shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
   return 0;
 }
diff --git a/src/onion/poller.c b/src/onion/poller.c
index 6d1a49e..67838a6 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -74,8 +74,8 @@ struct onion_poller_t {
   char stop;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
-  int npollers;
 #endif
+  int npollers;                 ///< Threads polling, or about to
 
   onion_poller_slot *head;
 };
@@ -496,6 +496,30 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
 // Max of events per loop. If not al consumed for next, so no prob.  right number uses less memory, and makes less calls.
 static size_t onion_poller_max_events = 1;
 
+/**
+ * @short Somebody is about to poll: from now on a stop will be noticed.
+ *
+ * Only the first forgets the old stops, if not a stop aimed to all the pollers may be ignored by the new ones.
+ */
+void onion_poller_begin(onion_poller * p) {
+  pthread_mutex_lock(&p->mutex);
+  if (p->npollers++ == 0) {
+    char data[8];
+    int __attribute__ ((unused)) r = read(p->eventfd, data, 8);
+    p->stop = 0;
+  }
+  ONION_DEBUG0("Npollers %d. %d listenings %p", p->npollers, p->n, p->head);
+  pthread_mutex_unlock(&p->mutex);
+}
+
+/// The opposite of onion_poller_begin
+void onion_poller_end(onion_poller * p) {
+  pthread_mutex_lock(&p->mutex);
+  p->npollers--;
+  ONION_DEBUG0("Npollers %d", p->npollers);
+  pthread_mutex_unlock(&p->mutex);
+}
+
 /**
  * @short Do the event polling.
  * @memberof onion_poller_t
@@ -508,20 +532,7 @@ static size_t onion_poller_max_events = 1;
 void onion_poller_poll(onion_poller * p) {
   struct epoll_event event[onion_poller_max_events];
   ONION_DEBUG("Start polling");
-#ifdef HAVE_PTHREADS
-  pthread_mutex_lock(&p->mutex);
-  // Only the first poller forgets old stops, if not new pollers would ignore
-  // a stop aimed to all of them.
-  if (p->npollers++ == 0) {
-    char data[8];
-    int __attribute__ ((unused)) r = read(p->eventfd, data, 8);
-    p->stop = 0;
-  }
-  ONION_DEBUG0("Npollers %d. %d listenings %p", p->npollers, p->n, p->head);
-  pthread_mutex_unlock(&p->mutex);
-#else
-  p->stop = 0;
-#endif
+  onion_poller_begin(p);
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
   char stop = !p->stop && p->head;
@@ -536,11 +547,7 @@ void onion_poller_poll(onion_poller * p) {
       //ONION_DEBUG("Some error happened"); // Also spurious wakeups... gdb is to blame sometimes or any other.
       if (p->fd < 0 || !p->head) {
         ONION_DEBUG("Finishing the epoll as finished: %s", strerror(errno));
-#ifdef HAVE_PTHREADS
-        pthread_mutex_lock(&p->mutex);
-        p->npollers--;
-        pthread_mutex_unlock(&p->mutex);
-#endif
+        onion_poller_end(p);
         return;
       }
     }
@@ -596,12 +603,7 @@ void onion_poller_poll(onion_poller * p) {
 #endif
   }
   ONION_DEBUG("Finished polling fds");
-#ifdef HAVE_PTHREADS
-  pthread_mutex_lock(&p->mutex);
-  p->npollers--;
-  ONION_DEBUG0("Npollers %d", p->npollers);
-  pthread_mutex_unlock(&p->mutex);
-#endif
+  onion_poller_end(p);
 }
 
 /**
diff --git a/src/onion/poller_libev.c b/src/onion/poller_libev.c
index 8884c75..e4eab54 100644
--- a/src/onion/poller_libev.c
+++ b/src/onion/poller_libev.c
@@ -154,6 +154,14 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
   return NULL;
 }
 
+/// Somebody is about to poll.
+void onion_poller_begin(onion_poller * poller) {
+}
+
+/// The opposite of onion_poller_begin
+void onion_poller_end(onion_poller * poller) {
+}
+
 /// Do the polling. If on several threads, this is done in every thread.
 void onion_poller_poll(onion_poller * poller) {
   ev_default_fork();
diff --git a/src/onion/poller_libevent.c b/src/onion/poller_libevent.c
index f379289..d2b005b 100644
--- a/src/onion/poller_libevent.c
+++ b/src/onion/poller_libevent.c
@@ -139,6 +139,14 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
   return NULL;
 }
 
+/// Somebody is about to poll.
+void onion_poller_begin(onion_poller * poller) {
+}
+
+/// The opposite of onion_poller_begin
+void onion_poller_end(onion_poller * poller) {
+}
+
 /// Do the polling. If on several threads, this is done in every thread.
 void onion_poller_poll(onion_poller * poller) {
   poller->stop = 0;
-- 
2.43.0


From c6f6e711cbf19df273f7ae9e05185d4fea3e2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:02 +0000
Subject: [PATCH 095/145] fix: a detached server is listening when listen
 returns, and can be stopped and listen again

---
 src/onion/onion.c | 51 +++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 41628eb..86036ed 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -185,6 +185,7 @@ ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
 /// Used by onion_sigterm handler. Only takes into account last onion.
 static onion *last_onion = NULL;
 static void shutdown_server(int _);
+static void onion_listen_loop(onion * o);
 
 /**
  * @short Creates the onion structure to fill with the server data, and later do the onion_listen()
@@ -386,7 +387,7 @@ static void *onion_listen_start(void *data) {
   }
 #endif /*__USE_GNU */
 #endif /*__DEBUG__*/
-  onion_listen(o);
+  onion_listen_loop(o);
   return NULL;
 }
 
@@ -443,18 +444,6 @@ long onion_count_poller_threads(void) {
  * @returns !=0 if there is any error. It returns actualy errno from the network operations. See socket for more information.
  */
 int onion_listen(onion * o) {
-#ifdef HAVE_PTHREADS
-  if (!(o->flags & O_DETACHED) && (o->flags & O_DETACH_LISTEN)) {       // Must detach and return
-    o->flags |= O_DETACHED;
-    int errcode =
-        onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
-                                 o);
-    if (errcode != 0)
-      return errcode;
-    return 0;
-  }
-#endif
-
   if (!o->listen_points) {
     onion_add_listen_point(o, NULL, NULL, onion_http_new());
     ONION_DEBUG("Created default HTTP listen port");
@@ -477,6 +466,27 @@ int onion_listen(onion * o) {
   onion_poller_begin(o->poller);        // A stop from here on stops it
   o->flags |= O_LISTENING;
 
+#ifdef HAVE_PTHREADS
+  if (o->flags & O_DETACH_LISTEN) {     // Must detach and return
+    o->flags |= O_DETACHED;
+    int errcode =
+        onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
+                                 o);
+    if (errcode != 0) {
+      o->flags &= ~O_DETACHED;
+      onion_listen_stop(o);
+      o->flags &= ~O_LISTENING;
+      onion_poller_end(o->poller);
+    }
+    return errcode;
+  }
+#endif
+  onion_listen_loop(o);
+  return 0;
+}
+
+/// The ports are open, attend them until it is stopped.
+static void onion_listen_loop(onion * o) {
   if (o->flags & O_ONE) {
     onion_listen_point **listen_points = o->listen_points;
     if (listen_points[1] != NULL) {
@@ -548,10 +558,15 @@ int onion_listen(onion * o) {
     }
   }
 
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&o->mutex);
+#endif
   o->flags = o->flags & ~O_LISTENING;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&o->mutex);
+#endif
   onion_poller_end(o->poller);
   shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
-  return 0;
 }
 
 /**
@@ -590,10 +605,12 @@ void onion_listen_stop(onion * server) {
     onion_poller_stop(server->poller);
   }
 #ifdef HAVE_PTHREADS
-  if (server->flags & O_DETACHED)
+  bool detached = server->flags & O_DETACHED;
+  server->flags &= ~O_DETACHED;
+  pthread_mutex_unlock(&server->mutex);
+  if (detached)                 // Not locked, as what it waits for may need the lock
     onion_low_pthread_join(server->listen_thread, NULL);
-  pthread_mutex_unlock (&server->mutex);
-#endif	/* end HAVE_PTHREADS */
+#endif                          /* end HAVE_PTHREADS */
 }
 
 /**
-- 
2.43.0


From 96204516153ec7e08b7d0409f53766f610af2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:02 +0000
Subject: [PATCH 096/145] fix: the threads of a server are released when it
 stops, and may fail to start

---
 src/onion/onion.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 86036ed..9ca8cf8 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -530,19 +530,24 @@ static void onion_listen_loop(onion * o) {
                 *o->listen_points, *(o->listen_points + 1));
     if (o->flags & O_THREADED) {
       o->threads = onion_low_malloc(sizeof(pthread_t) * (o->nthreads - 1));
-      int i;
+      int i, n = 0;
       for (i = 0; i < o->nthreads - 1; i++) {
-        onion_low_pthread_create(&o->threads[i], NULL, onion_poller_poll_start,
-                                 o->poller);
+        if (onion_low_pthread_create(&o->threads[n], NULL,
+                                     onion_poller_poll_start, o->poller) == 0)
+          n++;
+        else
+          ONION_ERROR("Could not create a thread, there will be fewer.");
       }
 
       // Here is where it waits.. but eventually it will exit at onion_listen_stop
       onion_poller_poll(o->poller);
       ONION_DEBUG("Closing onion_listen");
 
-      for (i = 0; i < o->nthreads - 1; i++) {
+      for (i = 0; i < n; i++) {
         onion_low_pthread_join(o->threads[i], NULL);
       }
+      onion_low_free(o->threads);
+      o->threads = NULL;
     } else
 #endif
       onion_poller_poll(o->poller);
-- 
2.43.0


From 07659b0e5300897e92b2b107569517c5ba61b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:43 +0000
Subject: [PATCH 097/145] fix: the Date header is in GMT, as HTTP requires

---
 src/onion/response.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index d166c6d..d10801c 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -106,14 +106,14 @@ onion_response *onion_response_new(onion_request * req) {
       ONION_DEBUG("Recalculating date header");
       char current_datetime[200];
 
-      if (localtime_r(&t, &tmp) == NULL) {
-        perror("localtime");
+      if (gmtime_r(&t, &tmp) == NULL) {
+        perror("gmtime");
         exit(EXIT_FAILURE);
       }
 
       if (strftime
           (current_datetime, sizeof(current_datetime),
-           "%a, %d %b %Y %H:%M:%S %Z", &tmp) == 0) {
+           "%a, %d %b %Y %H:%M:%S GMT", &tmp) == 0) {
         fprintf(stderr, "strftime returned 0");
         exit(EXIT_FAILURE);
       }
-- 
2.43.0


From 24bd30cc37b16e24f0f918c35abab9df7a397a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:43 +0000
Subject: [PATCH 098/145] fix: mime types are right also for the first
 requests, when they come at the same time

---
 src/onion/mime.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index d256703..1033999 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -36,6 +36,16 @@
 /// Dict with all extension to mime type. This will never be freed.
 static onion_dict *onion_mime_dict = NULL;
 
+#ifdef HAVE_PTHREADS
+#include <pthread.h>
+static pthread_mutex_t onion_mime_mutex = PTHREAD_MUTEX_INITIALIZER;
+#define onion_mime_lock() pthread_mutex_lock(&onion_mime_mutex)
+#define onion_mime_unlock() pthread_mutex_unlock(&onion_mime_mutex)
+#else
+#define onion_mime_lock()
+#define onion_mime_unlock()
+#endif
+
 static void onion_mime_fill();
 
 /**
@@ -64,8 +74,10 @@ void onion_mime_set(onion_dict * d) {
  * If none is found, returns text/plain.
  */
 const char *onion_mime_get(const char *filename) {
+  onion_mime_lock();            // Several may need it for the first time
   if (!onion_mime_dict)
     onion_mime_fill();
+  onion_mime_unlock();
 
   const char *extension = filename;
   int l = strlen(filename);
@@ -176,8 +188,10 @@ static void onion_mime_fill() {
  * User can add new mime types, or remove (if mimetype == NULL).
  */
 void onion_mime_update(const char *extension, const char *mimetype) {
+  onion_mime_lock();
   if (!onion_mime_dict)
     onion_mime_fill();
+  onion_mime_unlock();
 
   if (mimetype)
     onion_dict_add(onion_mime_dict, extension, mimetype,
-- 
2.43.0


From 20796d589490009f7bcb1be431a95b58af2c7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:03 +0000
Subject: [PATCH 099/145] fix: a session is not walked to know if it is empty,
 as other requests may be changing it

---
 src/onion/request.c  | 9 +++++++--
 src/onion/response.c | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index c5af466..9f70118 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -113,6 +113,11 @@ static void unlink_files(void *p, const char *key, const char *value, int flags)
   unlink(value);
 }
 
+/// Whether there is nothing in the session. Not walking it, as other requests may be changing it.
+static int session_is_empty(onion_request * req) {
+  return !req->session || !req->session->root;
+}
+
 /**
  * @short Deletes a request and all its data
  * @memberof onion_request_t
@@ -136,7 +141,7 @@ void onion_request_free(onion_request * req) {
     onion_dict_free(req->FILES);
   }
   if (req->session) {
-    if (onion_dict_count(req->session) == 0)
+    if (session_is_empty(req))
       onion_request_session_free(req);
     else {
       onion_sessions_save(req->connection.listen_point->server->sessions,
@@ -198,7 +203,7 @@ void onion_request_clean(onion_request * req) {
     req->FILES = NULL;
   }
   if (req->session_id) {
-    if (onion_dict_count(req->session) == 0) {
+    if (session_is_empty(req)) {
       onion_request_session_free(req);
     } else {
       onion_sessions_save(req->connection.listen_point->server->sessions,
diff --git a/src/onion/response.c b/src/onion/response.c
index d10801c..6e3ed35 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -327,7 +327,7 @@ int onion_response_write_headers(onion_response * res) {
 
   onion_dict_preorder(res->headers, write_header, res);
 
-  if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
+  if (res->request->session_id && res->request->session && res->request->session->root) // I have session with something, tell user
     onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
-- 
2.43.0


From e654cf6f29bfd8a3a14bd8bf292f8494fa07dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:22 +0000
Subject: [PATCH 100/145] fix: the expiry of cookies set at the same time by
 several threads does not mix

---
 src/onion/response.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 6e3ed35..8a0d0e4 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -659,12 +659,12 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
         snprintf(data + pos, sizeof(data) - pos,
                  "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
-    struct tm *tmp;
+    struct tm tmp;
     time_t t = time(NULL) + validity_t;
-    tmp = localtime(&t);
+    localtime_r(&t, &tmp);
     pos +=
         strftime(data + pos, sizeof(data) - pos,
-                 "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp);
+                 "; expires=%a, %d %b %Y %H:%M:%S %Z", &tmp);
   }
   if (path)
     pos += snprintf(data + pos, sizeof(data) - pos, "; path=%s", path);
-- 
2.43.0


From 5ca69bb3a29e5766b24cb229bd3c1cf6e889314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:10 +0000
Subject: [PATCH 101/145] fix: HTTPS requests longer than the read buffer in
 one TLS record are attended

---
 src/onion/https.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index e1c9e71..7d9f595 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -65,6 +65,7 @@ typedef struct onion_https_t onion_https;
 
 int onion_http_read_ready(onion_request * req);
 static int onion_https_request_init(onion_request * req);
+static int onion_https_read_ready(onion_request * req);
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len);
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
 static void onion_https_close(onion_request * req);
@@ -93,7 +94,7 @@ onion_listen_point *onion_https_new() {
   op->read = onion_https_read;
   op->write = onion_https_write;
   op->close = onion_https_close;
-  op->read_ready = onion_http_read_ready;
+  op->read_ready = onion_https_read_ready;
   op->secure = true;
 
   op->user_data = onion_low_calloc(1, sizeof(onion_https));
@@ -235,6 +236,26 @@ static int onion_https_request_init(onion_request * req) {
   return 0;
 }
 
+/**
+ * @short HTTPS client has data ready to be readen
+ * @memberof onion_https_t
+ * @ingroup https
+ *
+ * A record may have more data than what is readen at once, and the poller
+ * does not know about the data that is already out of the socket.
+ *
+ * @param req The request
+ * @returns <0 if the connection has to be closed.
+ */
+static int onion_https_read_ready(onion_request * req) {
+  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
+  int ret;
+  do {
+    ret = onion_http_read_ready(req);
+  } while (ret >= 0 && gnutls_record_check_pending(session) > 0);
+  return ret;
+}
+
 /**
  * @short Method to read some HTTPS data.
  * @memberof onion_https_t
-- 
2.43.0


From 2003a78281abe1be25b41e44e02c38d9fcdc3b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:10 +0000
Subject: [PATCH 102/145] fix: a client that stops in the middle of the TLS
 handshake is dropped at the timeout

---
 src/onion/https.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 7d9f595..fe7024f 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -223,7 +223,7 @@ static int onion_https_request_init(onion_request * req) {
   int ret;
   do {
     ret = gnutls_handshake(session);
-  } while (ret < 0 && gnutls_error_is_fatal(ret) == 0);
+  } while (ret < 0 && ret != GNUTLS_E_AGAIN && gnutls_error_is_fatal(ret) == 0);        // Again means timeout
   if (ret < 0) {                // could not handshake. assume an error.
     ONION_ERROR("Handshake has failed (%s)", gnutls_strerror(ret));
     gnutls_bye(session, GNUTLS_SHUT_WR);
-- 
2.43.0


From 50daef51ce515331690b85c1b79d118a5914c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:48 +0000
Subject: [PATCH 103/145] fix: websocket frames that come together over TLS are
 all attended

---
 src/onion/https.c     | 15 +++++++++++++++
 src/onion/websocket.c |  8 ++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/onion/https.c b/src/onion/https.c
index fe7024f..04b9940 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -276,6 +276,21 @@ static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
   return ret;
 }
 
+/**
+ * @short Data already out of the socket, that poll does not know about.
+ * @memberof onion_https_t
+ * @ingroup https
+ *
+ * @param req The request
+ * @returns Bytes that can be readen with no wait. 0 if it is not a HTTPS request.
+ */
+size_t onion_https_pending(onion_request * req) {
+  if (req->connection.listen_point->read != onion_https_read)
+    return 0;
+  return gnutls_record_check_pending((gnutls_session_t) req->
+                                     connection.user_data);
+}
+
 /**
  * @short Writes some data to the HTTPS client.
  * @memberof onion_https_t
diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index d9a43e1..d463aed 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -37,6 +37,10 @@
 #include <stdint.h>
 #include <stdio.h>
 
+#ifdef HAVE_GNUTLS
+size_t onion_https_pending(onion_request * req);        // at https.c
+#endif
+
 /// @defgroup websocket Websockets. Basic websockets support.
 
 /// @ingroup websocket
@@ -578,7 +582,11 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       pfd.events = POLLIN;
       pfd.fd = ws->req->connection.fd;
       //ONION_DEBUG("Wait for data");
+#ifdef HAVE_GNUTLS
+      int r = onion_https_pending(ws->req) > 0 ? 1 : poll(&pfd, 1, -1);
+#else
       int r = poll(&pfd, 1, -1);
+#endif
       if (r == 0)
         return OCS_CLOSE_CONNECTION;
       //ONION_DEBUG("waited for data fd %d -- res %d -- events %d", ws->req->fd, r, pfd.events);
-- 
2.43.0


From 0143a23ceb0c0aa3eb8addd1ce463d18b1c7cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:07 +0000
Subject: [PATCH 104/145] fix: templates with % inside tags, } inside variables
 or several # in comments

---
 tools/otemplate/parser.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index efb3cad..dee42fb 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -76,7 +76,7 @@ void parse_template(parser_status * status) {
     case COMMENTHASH:
       if (c == '}')
         set_mode(status, TEXT);
-      else
+      else if (c != '#')
         set_mode(status, COMMENT);
       break;
     case VARIABLE:
@@ -95,7 +95,7 @@ void parse_template(parser_status * status) {
       if (c == '}')
         set_mode(status, TEXT);
       else {
-        set_mode(status, VARIABLE);
+        status->mode = VARIABLE;        // Same variable, not ended yet
         add_char(status, '}');
         add_char(status, c);
       }
@@ -104,9 +104,11 @@ void parse_template(parser_status * status) {
       if (c == '}')
         set_mode(status, TEXT);
       else {
-        set_mode(status, END_TAG);
         add_char(status, '%');
-        add_char(status, c);
+        if (c != '%') {         // Another % may end it.
+          status->mode = TAG;
+          add_char(status, c);
+        }
       }
       break;
     default:
-- 
2.43.0


From 58f8e934b3f680b72cf95eb8785e2b232a5f9afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:07 +0000
Subject: [PATCH 105/145] fix: templates that end in { keep it, and those that
 do not end are errors

---
 tools/otemplate/parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index dee42fb..9c9165c 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -117,6 +117,18 @@ void parse_template(parser_status * status) {
       return;
     }
   }
+  switch (status->mode) {
+  case TEXT:
+    break;
+  case BEGIN:
+    add_char(status, '{');
+    break;
+  default:
+    ONION_ERROR("%s:%d Not terminated variable, tag or comment",
+                status->infilename, status->line);
+    status->status = 1;
+    return;
+  }
   set_mode(status, END);
 }
 
-- 
2.43.0


From 15faf6c97c595aae1e84854fe45342d4199e6c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:07 +0000
Subject: [PATCH 106/145] fix: templates with long lines

---
 tools/otemplate/functions.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index 358f1cf..90dc73b 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -230,11 +230,13 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
   if (p->flags & F_NO_MORE_WRITE)
     return;
 
-  char tmp[4096];
-
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  int l = vsnprintf(NULL, 0, fmt, ap);
+  va_end(ap);
+  char *tmp = malloc(l + 1);
+  va_start(ap, fmt);
+  vsnprintf(tmp, l + 1, fmt, ap);
   va_end(ap);
 
   if (use_orig_line_numbers) {
@@ -262,6 +264,7 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
     //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
     onion_block_add_str(st->current_code, tmp);
   }
+  free(tmp);
 }
 
 /**
-- 
2.43.0


From 7e4a350676d74e0bbe29bb398d2099ca2b8b9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:07 +0000
Subject: [PATCH 107/145] fix: otemplate tells when a file can not be opened

---
 tools/otemplate/otemplate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index bd1576e..172c262 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -194,6 +194,7 @@ int work(const char *infilename, const char *outfilename,
 
   if (!status.in) {
     ONION_ERROR("Could not open in file %s", infilename);
+    status.status = 1;
     goto work_end;
   }
 
@@ -223,7 +224,8 @@ int work(const char *infilename, const char *outfilename,
   else
     status.out = fopen(outfilename, "wt");
   if (!status.out) {
-    ONION_ERROR("Could not open out file %s", infilename);
+    ONION_ERROR("Could not open out file %s", outfilename);
+    status.status = 1;
     goto work_end;
   }
 
-- 
2.43.0


From ff9b3beba9e9f155d5e4877f8bffff7322c28cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:07 +0000
Subject: [PATCH 108/145] fix: comparisons in templates of a variable with
 itself, or with one that is not set

---
 tools/otemplate/tag_builtins.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 4cc9864..8f938e8 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -130,25 +130,26 @@ void tag_if(parser_status * st, list * l) {
   } else if (lc == 4) {
     const char *op = tag_value_arg(l, 2);
     const char *opcmp = NULL;
+    const char *opnull = "op1==op2";    // When any is not set
     if (strcmp(op, "==") == 0)
       opcmp = "==0";
     else if (strcmp(op, "<=") == 0)
       opcmp = "<=0";
     else if (strcmp(op, "<") == 0)
-      opcmp = "<0";
+      opcmp = "<0", opnull = "0";
     else if (strcmp(op, ">=") == 0)
       opcmp = ">=0";
     else if (strcmp(op, ">") == 0)
-      opcmp = ">0";
+      opcmp = ">0", opnull = "0";
     else if (strcmp(op, "!=") == 0)
-      opcmp = "!=0";
+      opcmp = "!=0", opnull = "op1!=op2";
     if (opcmp) {
       function_add_code(st, "  {\n" "    const char *op1, *op2;\n");
       variable_solve(st, tag_value_arg(l, 1), "op1", tag_type_arg(l, 1));
       variable_solve(st, tag_value_arg(l, 3), "op2", tag_type_arg(l, 3));
       function_add_code(st,
-                        "    if (op1==op2 || (op1 && op2 && strcmp(op1, op2)%s))\n",
-                        opcmp);
+                        "    if ((op1 && op2) ? strcmp(op1, op2)%s : %s)\n",
+                        opcmp, opnull);
     } else {
       ONION_ERROR("%s:%d Unkonwn operator for if: %s", st->infilename, st->line,
                   op);
-- 
2.43.0


From 4de78f9d697b135599724c49e2fbd28326adbca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:43 +0000
Subject: [PATCH 109/145] fix: blocks inside for loops

---
 tools/otemplate/otemplate.c    |  1 +
 tools/otemplate/tag_builtins.c | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index 172c262..5755b45 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -233,6 +233,7 @@ int work(const char *infilename, const char *outfilename,
           "/** Autogenerated by otemplate v. 0.2.0 */\n"
           "\n"
           "#include <libintl.h>\n"
+          "#include <stdio.h>\n"
           "#include <string.h>\n\n"
           "#include <onion/onion.h>\n"
           "#include <onion/dict.h>\n"
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 8f938e8..6f3a26e 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -204,10 +204,11 @@ void tag_block(parser_status * st, list * l) {
   const char *block_name = tag_value_arg(l, 1);
   function_add_code(st,
                     "  {\n"
-                    "    void (*f)(onion_dict *context, onion_response *res);\n"
-                    "    f=(void*)onion_dict_get(context, \"__block_%s__\");\n"
-                    "    if (f)\n"
-                    "      f(context, res);\n" "  }\n", block_name);
+                    "    void *f;\n"
+                    "    const char *tmp=onion_dict_get(context, \"__block_%s__\");\n"
+                    "    if (tmp && sscanf(tmp, \"%%p\", &f)==1)\n"
+                    "      ((void (*)(onion_dict *, onion_response *))f)(context, res);\n"
+                    "  }\n", block_name);
 
   char tmp[256];
   assert(strlen(st->infilename) < sizeof(tmp));
@@ -215,9 +216,12 @@ void tag_block(parser_status * st, list * l) {
   function_data *d =
       function_new(st, "%s__block_%s", onion_basename(tmp), block_name);
   function_add_code_f(st->blocks_init,
-                      "  if (!onion_dict_get(context, \"__block_%s__\"))\n"
-                      "    onion_dict_add(context, \"__block_%s__\", %s, 0);\n",
-                      block_name, block_name, d->id);
+                      "  if (!onion_dict_get(context, \"__block_%s__\")){\n"
+                      "    char tmp[32]; // As text, it may be duplicated\n"
+                      "    snprintf(tmp, sizeof(tmp), \"%%p\", (void*)%s);\n"
+                      "    onion_dict_add(context, \"__block_%s__\", tmp, OD_DUP_VALUE);\n"
+                      "  }\n",
+                      block_name, d->id, block_name);
 }
 
 void tag_endblock(parser_status * st, list * l) {
-- 
2.43.0


From 509fd68e3e17a8a1a93c7bdd29d9e8a2ae559ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:43 +0000
Subject: [PATCH 110/145] fix: errors in the tags of templates are told,
 instead of generating wrong code or crashing

---
 tools/otemplate/functions.h    |  5 ++++
 tools/otemplate/otemplate.c    |  4 +++
 tools/otemplate/tag_builtins.c | 46 +++++++++++++++++++++++++++++++---
 3 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/tools/otemplate/functions.h b/tools/otemplate/functions.h
index 3324375..e8d47b2 100644
--- a/tools/otemplate/functions.h
+++ b/tools/otemplate/functions.h
@@ -29,6 +29,11 @@
 
 enum function_data_flags_e {
   F_NO_MORE_WRITE = 1,
+  // What it is the function of, to check that it is properly closed
+  F_IF = 2,
+  F_ELSE = 4,
+  F_FOR = 8,
+  F_BLOCK = 16,
 };
 
 typedef enum function_data_flags_e function_data_flags;
diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index 5755b45..5928e19 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -209,6 +209,10 @@ int work(const char *infilename, const char *outfilename,
 
   parse_template(&status);
 
+  if (!status.status && list_count(status.function_stack) != 2) {
+    ONION_ERROR("%s:%d Some tag is not closed", infilename, status.line);
+    status.status = 1;
+  }
   ((function_data *) status.function_stack->tail->data)->flags = 0;
 
   function_add_code(&status,
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 6f3a26e..7b3eabc 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -85,8 +85,30 @@ void tag_load(parser_status * st, list * l) {
   }
 }
 
+/// Checks that the tag has n arguments
+static int tag_has_args(parser_status * st, list * l, int n) {
+  if (list_count(l) == n + 1)
+    return 1;
+  ONION_ERROR("%s:%d %s needs %d arguments", st->infilename, st->line,
+              tag_value_arg(l, 0), n);
+  st->status = 1;
+  return 0;
+}
+
+/// Checks that current function was opened by the tag that is being closed.
+static int tag_closes(parser_status * st, list * l, int flags) {
+  if (((function_data *) st->function_stack->tail->data)->flags & flags)
+    return 1;
+  ONION_ERROR("%s:%d Unexpected %s", st->infilename, st->line,
+              tag_value_arg(l, 0));
+  st->status = 1;
+  return 0;
+}
+
 /// Do the first for part.
 void tag_for(parser_status * st, list * l) {
+  if (!tag_has_args(st, l, 3))
+    return;
   function_add_code(st, "  {\n" "    onion_dict *loopdict=NULL;\n");
   variable_solve(st, tag_value_arg(l, 3), "loopdict", 2);
 // "    onion_dict_get_dict(context, \"%s\");\n", tag_value_arg (l,3));
@@ -102,11 +124,14 @@ void tag_for(parser_status * st, list * l) {
                     "  onion_dict_add(dr->dict, \"%s\", value, OD_DUP_VALUE|OD_REPLACE|(flags&OD_TYPE_MASK));\n",
                     tag_value_arg(l, 1));
 
-  function_new(st, NULL);
+  d = function_new(st, NULL);
+  d->flags |= F_FOR;
 }
 
 /// Ends a for
 void tag_endfor(parser_status * st, list * l) {
+  if (!tag_closes(st, l, F_FOR))
+    return;
   // First the preorder function
   function_data *d = function_pop(st);
   function_add_code(st, "  %s(dr->dict, dr->res);\n", d->id);
@@ -160,25 +185,33 @@ void tag_if(parser_status * st, list * l) {
                 st->infilename, st->line, lc - 1);
     st->status = 1;
   }
-  function_new(st, NULL);
+  function_data *d = function_new(st, NULL);
+  d->flags |= F_IF;
 }
 
 /// Else part
 void tag_else(parser_status * st, list * l) {
+  if (!tag_closes(st, l, F_IF))
+    return;
   function_data *d = function_pop(st);
   function_add_code(st, "      %s(context, res);\n    else\n", d->id);
 
-  function_new(st, NULL);
+  d = function_new(st, NULL);
+  d->flags |= F_ELSE;
 }
 
 /// endif
 void tag_endif(parser_status * st, list * l) {
+  if (!tag_closes(st, l, F_IF | F_ELSE))
+    return;
   function_data *d = function_pop(st);
   function_add_code(st, "      %s(context, res);\n  }\n", d->id);
 }
 
 /// Include an external html. This is only the call, the programmer must compile such html too.
 void tag_include(parser_status * st, list * l) {
+  if (!tag_has_args(st, l, 1))
+    return;
   assert(st != NULL);           // Tell coverty that at function_new it will keep a pointer to the original, always.
 
   function_data *d = function_new(st, "%s", tag_value_arg(l, 1));
@@ -190,6 +223,8 @@ void tag_include(parser_status * st, list * l) {
 }
 
 void tag_extends(parser_status * st, list * l) {
+  if (!tag_has_args(st, l, 1))
+    return;
   function_data *d = function_new(st, "%s", tag_value_arg(l, 1));
   function_pop(st);
   onion_block_free(d->code);
@@ -201,6 +236,8 @@ void tag_extends(parser_status * st, list * l) {
 }
 
 void tag_block(parser_status * st, list * l) {
+  if (!tag_has_args(st, l, 1))
+    return;
   const char *block_name = tag_value_arg(l, 1);
   function_add_code(st,
                     "  {\n"
@@ -215,6 +252,7 @@ void tag_block(parser_status * st, list * l) {
   strncpy(tmp, st->infilename, sizeof(tmp) - 1);
   function_data *d =
       function_new(st, "%s__block_%s", onion_basename(tmp), block_name);
+  d->flags |= F_BLOCK;
   function_add_code_f(st->blocks_init,
                       "  if (!onion_dict_get(context, \"__block_%s__\")){\n"
                       "    char tmp[32]; // As text, it may be duplicated\n"
@@ -225,5 +263,7 @@ void tag_block(parser_status * st, list * l) {
 }
 
 void tag_endblock(parser_status * st, list * l) {
+  if (!tag_closes(st, l, F_BLOCK))
+    return;
   function_pop(st);
 }
-- 
2.43.0


From 3338a269b85dcf3776be6977f7d7f05aa98826f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:22 +0000
Subject: [PATCH 111/145] fix: opack of several directories, or with the
 options first

---
 tools/opack/opack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index fb63675..a16c859 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -92,7 +92,7 @@ int main(int argc, char **argv) {
       struct stat st;
       stat(argv[i], &st);
       if (S_ISDIR(st.st_mode)) {
-        parse_directory(onion_basename(argv[1]), argv[i], outfd, assets);
+        parse_directory(onion_basename(argv[i]), argv[i], outfd, assets);
       } else {
         parse_file("", argv[i], outfd, assets);
       }
-- 
2.43.0


From 6186f7723c84ab950dde4e8219d5e9d8e07f6fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:22 +0000
Subject: [PATCH 112/145] fix: the size of a packed file is not taken as the
 status of the connection

---
 tools/opack/opack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index a16c859..8a77e53 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -177,7 +177,7 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
           "  onion_response_set_header(res, \"Content-Type\", \"%s\");\n",
           mime_type);
   fprintf(outfd,
-          "  return onion_response_write(res, data, sizeof(data));\n}\n\n");
+          "  onion_response_write(res, data, sizeof(data));\n  return OCS_PROCESSED;\n}\n\n");
 
   fprintf(outfd, "const unsigned int %s_length = %d;\n\n", fname, l);
 
-- 
2.43.0


From 111fa76155875527510e4e10e906e24799ff1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:22 +0000
Subject: [PATCH 113/145] fix: assets files longer than 4096 bytes are kept as
 they were

---
 tools/common/updateassets.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index 35484d9..67c08d4 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -140,12 +140,13 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
     char buffer[4096];
     int r = 0;
     int o = 0;
+    int kept = 0;
     int total = 0;
     do {
-      r = fread(&buffer[o], 1, sizeof(buffer) - o, file);
+      r = fread(&buffer[kept], 1, sizeof(buffer) - kept, file);
       int i;
       o = 0;
-      for (i = 0; i < r; i++) {
+      for (i = kept; i < kept + r; i++) {
         if (buffer[i] == '\n') {
           buffer[i] = 0;
           ONION_DEBUG("Read original line <%s>", &buffer[o]);
@@ -154,6 +155,8 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
           o = i + 1;
         }
       }
+      kept = kept + r - o;      // The start of a line, the end comes with next data
+      memmove(buffer, &buffer[o], kept);
     } while (r > 0);
     onion_assets_file_set_tail(ret);
     fclose(file);
-- 
2.43.0


From bee4bd81c8fd4a011da331abd56a3514400088d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:50 +0000
Subject: [PATCH 114/145] fix: the last line of assets files is kept although
 it has no end of line

---
 tools/common/updateassets.c | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index 67c08d4..141377b 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -137,27 +137,18 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
   ret->tail = NULL;
 
   if (file) {
-    char buffer[4096];
-    int r = 0;
-    int o = 0;
-    int kept = 0;
+    char *line = NULL;
+    size_t line_size = 0;
+    ssize_t r = 0;
     int total = 0;
-    do {
-      r = fread(&buffer[kept], 1, sizeof(buffer) - kept, file);
-      int i;
-      o = 0;
-      for (i = kept; i < kept + r; i++) {
-        if (buffer[i] == '\n') {
-          buffer[i] = 0;
-          ONION_DEBUG("Read original line <%s>", &buffer[o]);
-          onion_assets_file_add_line(ret, &buffer[o]);
-          total += strlen(&buffer[o]);
-          o = i + 1;
-        }
-      }
-      kept = kept + r - o;      // The start of a line, the end comes with next data
-      memmove(buffer, &buffer[o], kept);
-    } while (r > 0);
+    while ((r = getline(&line, &line_size, file)) > 0) {
+      if (line[r - 1] == '\n')  // The last one may have no end of line
+        line[r - 1] = 0;
+      ONION_DEBUG("Read original line <%s>", line);
+      onion_assets_file_add_line(ret, line);
+      total += strlen(line);
+    }
+    free(line);
     onion_assets_file_set_tail(ret);
     fclose(file);
     if (total > 0) {
-- 
2.43.0


From 91c2ffaa9068f8aabad4346f61e3946f0c68b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 115/145] fix: opack of directories with names with quotes or
 backslashes

---
 tools/opack/opack.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 8a77e53..7d688f5 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -28,6 +28,8 @@
 #include <unistd.h>
 #include <dirent.h>
 #include <sys/stat.h>
+#include <onion/codecs.h>
+#include <onion/low.h>
 #include <onion/mime.h>
 #include <onion/utils.h>
 
@@ -228,15 +230,16 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
     if (de->d_name[0] == '.' || de->d_name[strlen(de->d_name) - 1] == '~')
       continue;
     char *fname = funcname(prefix, de->d_name);
+    char *qname = onion_c_quote_new(de->d_name);
     if (de->d_type == DT_DIR) {
       int l = strlen(de->d_name);
-      fprintf(outfd, "  if (strncmp(\"%s/\", path, %d)==0){\n", de->d_name,
-              l + 1);
+      fprintf(outfd, "  if (strncmp(%s \"/\", path, %d)==0){\n", qname, l + 1);
       fprintf(outfd, "    onion_request_advance_path(req, %d);\n", l + 1);
     } else
-      fprintf(outfd, "  if (strcmp(\"%s\", path)==0){\n", de->d_name);
+      fprintf(outfd, "  if (strcmp(%s, path)==0){\n", qname);
     fprintf(outfd, "    return %s(_, req, res);\n", fname);
     fprintf(outfd, "  }\n");
+    onion_low_free(qname);
     free(fname);
   }
   closedir(dir);
-- 
2.43.0


From 5567f81b2fbcb37f1731da40aac42685c146f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 116/145] fix: C++ dicts assigned to themselves or that do not
 exist, and locks that were moved

---
 src/bindings/cpp/dict.cpp | 11 +++++------
 src/bindings/cpp/dict.hpp |  3 ++-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 110c4bf..081f83e 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -76,20 +76,19 @@ Onion::Dict::Dict(const Dict & d)
 d.ptr.get(), &onion_dict_free}
 
 {
-  onion_dict_dup(ptr.get());
+  if (ptr)
+    onion_dict_dup(ptr.get());
 }
 
 Onion::Dict & Onion::Dict::operator=(const Dict & o) {
-  ptr = internal_pointer {
-  o.ptr.get(), &onion_dict_free};
-  onion_dict_dup(o.ptr.get());
-  return *this;
+  return *this = o.ptr.get();
 }
 
 Onion::Dict & Onion::Dict::operator=(onion_dict * o) {
+  if (o)
+    onion_dict_dup(o);          // Before freeing the current one, may be the same.
   ptr = internal_pointer {
   o, &onion_dict_free};
-  onion_dict_dup(ptr.get());
   return *this;
 }
 
diff --git a/src/bindings/cpp/dict.hpp b/src/bindings/cpp/dict.hpp
index 77c7c1c..c60177f 100644
--- a/src/bindings/cpp/dict.hpp
+++ b/src/bindings/cpp/dict.hpp
@@ -77,7 +77,8 @@ namespace Onion {
                         /**
 			 * @short Automatically releases a lock when the scope is exited.
 			 */ ~lock() {
-        onion_dict_unlock(dict);
+        if (dict)
+          onion_dict_unlock(dict);
       }
  private:
       onion_dict * dict;
-- 
2.43.0


From aa34cb73989e1baf51832942b68f7d51a813e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 117/145] fix: C++ dicts inside of others are references that
 keep them

---
 src/bindings/cpp/dict.cpp | 5 ++++-
 src/onion/dict.c          | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 081f83e..2191563 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -101,7 +101,10 @@ bool Onion::Dict::has(const std::string & k) const noexcept {
 }
 
 Onion::Dict Onion::Dict::getDict(const std::string & k) const noexcept {
-  return Dict(onion_dict_get_dict(ptr.get(), k.c_str()));
+  onion_dict *d = onion_dict_get_dict(ptr.get(), k.c_str());
+  if (d)
+    onion_dict_dup(d);          // Another reference, it may outlive this dict
+  return Dict(d, true);
 }
 
 Onion::Dict & Onion::Dict::add(const std::string & k, const std::string & v,
diff --git a/src/onion/dict.c b/src/onion/dict.c
index 6fe3048..412efd8 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -501,6 +501,8 @@ const char *onion_dict_get(const onion_dict * dict, const char *key) {
  * @ingroup dict
  */
 onion_dict *onion_dict_get_dict(const onion_dict * dict, const char *key) {
+  if (!dict)                    // Get from null dicts, returns null data.
+    return NULL;
   const onion_dict_node *r;
   r = onion_dict_find_node(dict, dict->root, key, NULL);
   if (r) {
-- 
2.43.0


From 939612919820f6f50f01c90f04a255be1c526c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 118/145] fix: C++ dicts made from JSON are freed

---
 src/bindings/cpp/dict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 2191563..858d579 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -132,7 +132,7 @@ std::string Onion::Dict::toJSON() const noexcept {
 }
 
 Onion::Dict Onion::Dict::fromJSON(const std::string & jsondata)noexcept {
-  return Dict(onion_dict_from_json(jsondata.c_str()));
+  return Dict(onion_dict_from_json(jsondata.c_str()), true);
 }
 
 Onion::Dict & Onion::Dict::merge(const Dict & other)noexcept {
-- 
2.43.0


From bb52cbe815dd56b2aa16a9b91e52916456cf881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 119/145] fix: HttpNotFound exceptions give a 404

---
 src/bindings/cpp/exceptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/exceptions.hpp b/src/bindings/cpp/exceptions.hpp
index c332356..dd34988 100644
--- a/src/bindings/cpp/exceptions.hpp
+++ b/src/bindings/cpp/exceptions.hpp
@@ -74,7 +74,7 @@ namespace Onion {
 	*/
   class HttpNotFound:public HttpException {
  public:
-    HttpNotFound(const std::string & str):HttpException(str) {
+    HttpNotFound(const std::string & str):HttpException(str, HTTP_NOT_FOUND) {
     };
     virtual ~ HttpNotFound()throw() {
     }
-- 
2.43.0


From 8da412dc3adfb95d5760287dcdd44a41e9df4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 120/145] fix: no C++ exception goes through the C code

---
 src/bindings/cpp/handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindings/cpp/handler.cpp b/src/bindings/cpp/handler.cpp
index 13c89c3..07081a6 100644
--- a/src/bindings/cpp/handler.cpp
+++ b/src/bindings/cpp/handler.cpp
@@ -65,6 +65,10 @@ static onion_connection_status onion_handler_call_operator(void *ptr,
     ONION_ERROR("Catched exception: %s", e.what());
     return OCS_INTERNAL_ERROR;
   }
+  catch( ...) {
+    ONION_ERROR("Catched unknown exception");
+    return OCS_INTERNAL_ERROR;
+  }
 }
 
 static void onion_handler_delete_operator(void *ptr) {
-- 
2.43.0


From df0e2b4e1d8e5fe563bcf1851869a8e2005353cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 121/145] fix: moved C++ urls do not free the root url of the
 server

---
 src/bindings/cpp/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/url.cpp b/src/bindings/cpp/url.cpp
index cba09b0..5a9dc29 100644
--- a/src/bindings/cpp/url.cpp
+++ b/src/bindings/cpp/url.cpp
@@ -61,7 +61,7 @@ new HandlerMethod < Url > (this, &::Onion::Url::operator())}, ptr {
 Onion::Url::Url(Url && o)
  : Handler {
 new HandlerMethod < Url > (this, &::Onion::Url::operator())}, ptr {
-o.ptr.get(), &onion_url_free}
+o.ptr.get(), o.ptr.get_deleter()}
 
 {
   o.ptr.get_deleter() =[](onion_url *)->void {
-- 
2.43.0


From 1db491037fbb7b09c0a9dcf7b252986e16ca93b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 122/145] fix: release of C++ listen points does not free them

---
 src/bindings/cpp/listen_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/listen_point.hpp b/src/bindings/cpp/listen_point.hpp
index 4392b8e..6ef969b 100644
--- a/src/bindings/cpp/listen_point.hpp
+++ b/src/bindings/cpp/listen_point.hpp
@@ -57,7 +57,7 @@ namespace Onion {
 		 * @short Release ownership of the underlying pointer.
 		 */
     void release() {
-      ptr.reset(nullptr);
+      ptr.release();
     }
 
                 /**
-- 
2.43.0


From 0ee52f47ac020f2adec51b9fc39ba018af3e29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 123/145] fix: the language code is freed with the allocator of
 onion in C++

---
 src/bindings/cpp/request.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/request.hpp b/src/bindings/cpp/request.hpp
index bc20a37..d827a8f 100644
--- a/src/bindings/cpp/request.hpp
+++ b/src/bindings/cpp/request.hpp
@@ -198,7 +198,7 @@ namespace Onion {
        */
       const char *r = onion_request_get_language_code(ptr);
        std::string retval(r);
-       free(const_cast < char *>(r));
+       onion_low_free(const_cast < char *>(r));
        return retval;
     }
                 /**
-- 
2.43.0


From 9b893b88c062d4ec641109555055c49aad53712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:27 +0000
Subject: [PATCH 124/145] fix: headers of C++ exceptions and mime types compile
 after onion.hpp

---
 src/bindings/cpp/exceptions.hpp | 4 ++--
 src/bindings/cpp/mime.hpp       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bindings/cpp/exceptions.hpp b/src/bindings/cpp/exceptions.hpp
index dd34988..3b2befd 100644
--- a/src/bindings/cpp/exceptions.hpp
+++ b/src/bindings/cpp/exceptions.hpp
@@ -54,8 +54,8 @@ namespace Onion {
       return str;
     }
     /// How to handle this exception type. May be a redirect, or just plain show this message.
-    virtual onion_connection_status handle(Onion::Request & req,
-                                           Onion::Response & res);
+    virtual onion_connection_status handle(Request & req,
+                                           Response & res);
   };
 
         /**
diff --git a/src/bindings/cpp/mime.hpp b/src/bindings/cpp/mime.hpp
index 5dc65b5..8d6cc27 100644
--- a/src/bindings/cpp/mime.hpp
+++ b/src/bindings/cpp/mime.hpp
@@ -33,7 +33,7 @@ namespace Onion {
                 /**
 		 * @short Sets the mime dictionary (extension -> mime_type)
 		 */
-    static void set(Onion::Dict & dict) {
+    static void set(Dict & dict) {
       onion_mime_set(dict.c_handler());
     }
                 /**
-- 
2.43.0


From a3ea59e33cd58df8625676e297e4786fc41df032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:08 +0000
Subject: [PATCH 125/145] fix: the internal error handler that is replaced is
 freed

---
 src/onion/onion.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 9ca8cf8..cfd6aed 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -645,6 +645,9 @@ onion_handler *onion_get_root_handler(onion * server) {
  * @ingroup onion
  */
 void onion_set_internal_error_handler(onion * server, onion_handler * handler) {
+  if (server->internal_error_handler
+      && server->internal_error_handler != handler)
+    onion_handler_free(server->internal_error_handler);
   server->internal_error_handler = handler;
 }
 
-- 
2.43.0


From 696821983f3b519ed15cbfeadaa43c114b29e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:50 +0000
Subject: [PATCH 126/145] fix: the exported path is freed with the allocator it
 comes from

---
 src/onion/handlers/exportlocal.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 57e079c..52d58de 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -292,13 +292,14 @@ onion_handler *onion_handler_export_local_new(const char *localpath) {
   struct stat st;
   if (stat(rp, &st) != 0) {
     ONION_ERROR("Cant access to the exported directory/file (%s).", rp);
-    onion_low_free(rp);
+    free(rp);                   // From realpath, not from onion_low
     return NULL;
   }
   onion_handler_export_local_data *priv_data =
       onion_low_malloc(sizeof(onion_handler_export_local_data));
 
-  priv_data->localpath = rp;
+  priv_data->localpath = onion_low_strdup(rp);
+  free(rp);                     // From realpath, not from onion_low
   priv_data->renderer_header = onion_handler_export_local_header_default;
   priv_data->renderer_footer = onion_handler_export_local_footer_default;
 
-- 
2.43.0


From b9e303e0b4e8d5eabc947be02ec58cfc7cec8914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 127/145] fix: WebDAV frees the real paths with the allocator
 they come from

---
 src/onion/handlers/webdav.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index b4081cc..746509a 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -798,14 +798,11 @@ int onion_webdav_default_check_permissions(const char *exported_path,
       ret = 1;
       ONION_ERROR("Base %s is not for the parent of %s", base, filename);
     }
-    if (parent)
-      onion_low_free(parent);
+    free(parent);               // From realpath, not from onion_low
   }
 
-  if (base)
-    onion_low_free(base);
-  if (file)
-    onion_low_free(file);
+  free(base);
+  free(file);
   ONION_DEBUG0("Permission %s", ret == 0 ? "granted" : "denied");
   return ret;
 }
-- 
2.43.0


From dc0c79592d0bb27d7725e2a6d334c1ab83434c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 128/145] fix: filtered pointer lists are freed with the
 allocator of onion

---
 src/onion/ptr_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/ptr_list.c b/src/onion/ptr_list.c
index 4b86b86..c04bf8a 100644
--- a/src/onion/ptr_list.c
+++ b/src/onion/ptr_list.c
@@ -100,7 +100,7 @@ onion_ptr_list *onion_ptr_list_filter(onion_ptr_list * l,
     l->next = next;
     return l;
   } else {
-    free(l);
+    onion_low_free(l);
     return next;
   }
 }
-- 
2.43.0


From d4955275ba72a8721a3ab42f2e994eb1bb20e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 129/145] fix: the answers to PAM are allocated as PAM frees
 them

---
 src/onion/handlers/auth_pam.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index ab139ae..a6a752d 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -142,8 +142,7 @@ static int authPAM_passwd(int num_msg, const struct pam_message **msg,
   struct pam_response *r;
 
   *resp = r =
-      (struct pam_response *)onion_low_calloc(num_msg,
-                                              sizeof(struct pam_response));
+      (struct pam_response *)calloc(num_msg, sizeof(struct pam_response));      // PAM frees it with free()
   if (r == NULL)
     return PAM_BUF_ERR;
 
@@ -151,7 +150,7 @@ static int authPAM_passwd(int num_msg, const struct pam_message **msg,
 
   for (i = 0; i < num_msg; i++) {
     ONION_DEBUG0("Question %d: %s", i, (*msg)[i].msg);
-    r->resp = onion_low_strdup((const char *)appdata_ptr);
+    r->resp = strdup((const char *)appdata_ptr);
     r->resp_retcode = 0;
     r++;
   }
-- 
2.43.0


From 4fdddba4b5caf4a5eb6f24136cdd47c4ae2e8702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:04 +0000
Subject: [PATCH 130/145] fix: handlers for urls with bad regular expressions
 are freed

---
 src/onion/url.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index ab95a69..14f9f3d 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -252,8 +252,11 @@ int onion_url_add_handler(onion_url * url, const char *regexp,
  * @returns 0 if everything ok. Else there is a regexp error.
  */
 int onion_url_add(onion_url * url, const char *regexp, void *handler) {
-  return onion_url_add_handler(url, regexp,
-                               onion_handler_new(handler, NULL, NULL));
+  onion_handler *next = onion_handler_new(handler, NULL, NULL);
+  int err = onion_url_add_handler(url, regexp, next);
+  if (err)
+    onion_handler_free(next);
+  return err;
 }
 
 /**
@@ -312,8 +315,13 @@ int onion_url_add_static(onion_url * url, const char *regexp, const char *text,
       onion_low_malloc(sizeof(struct onion_url_static_data));
   d->text = onion_low_strdup(text);
   d->code = http_code;
-  return onion_url_add_with_data(url, regexp, onion_url_static, d,
-                                 onion_url_static_free);
+  onion_handler *next =
+      onion_handler_new((void *)onion_url_static, d,
+                        (void *)onion_url_static_free);
+  int err = onion_url_add_handler(url, regexp, next);
+  if (err)
+    onion_handler_free(next);
+  return err;
 }
 
 /**
-- 
2.43.0


From e87df37f72548cc960718bcd0d9cd599901b00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:50 +0000
Subject: [PATCH 131/145] fix: removal from pointer lists ends, and frees what
 it removes

---
 src/onion/ptr_list.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/onion/ptr_list.c b/src/onion/ptr_list.c
index c04bf8a..59de3b9 100644
--- a/src/onion/ptr_list.c
+++ b/src/onion/ptr_list.c
@@ -53,9 +53,13 @@ onion_ptr_list *onion_ptr_list_add(onion_ptr_list * l, void *ptr) {
 onion_ptr_list *onion_ptr_list_remove(onion_ptr_list * l, void *ptr) {
   if (!l)
     return l;
-  if (ptr == l->ptr)
-    return l->next;
-  return onion_ptr_list_remove(l, ptr);
+  if (ptr == l->ptr) {
+    onion_ptr_list *next = l->next;
+    onion_low_free(l);
+    return next;
+  }
+  l->next = onion_ptr_list_remove(l->next, ptr);
+  return l;
 }
 
 /**
-- 
2.43.0


From 7397561649c31db27b71040f6753362242fdf27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:37 +0000
Subject: [PATCH 132/145] fix: messages to the log that just do not fit are cut
 without a zero

---
 src/onion/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/log.c b/src/onion/log.c
index d034652..31450e9 100644
--- a/src/onion/log.c
+++ b/src/onion/log.c
@@ -186,8 +186,8 @@ void onion_log_stderr(onion_log_level level, const char *filename, int lineno,
   {
     size_t maxsize = sizeof(strout) - strout_length - 6;
     size_t total_size = vsnprintf(strout + strout_length, maxsize, fmt, ap);
-    if (total_size > maxsize) { // Message too long, truncates it
-      strout_length += maxsize;
+    if (total_size >= maxsize) {        // Message too long, truncates it
+      strout_length += maxsize - 1;     // vsnprintf always writes the final 0
       strout[strout_length - 1] = '.';
       strout[strout_length - 2] = '.';
       strout[strout_length - 3] = '.';
-- 
2.43.0


From d3e525eddd9bfafa26fdab97fe44cce10e40742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:49 +0000
Subject: [PATCH 133/145] fix: names of files of any length in the log do not
 overflow the line

---
 src/onion/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/log.c b/src/onion/log.c
index 31450e9..5596405 100644
--- a/src/onion/log.c
+++ b/src/onion/log.c
@@ -176,7 +176,7 @@ void onion_log_stderr(onion_log_level level, const char *filename, int lineno,
   localtime_r(&t, &result);
   strftime(datetime, sizeof(datetime), "%Y-%m-%d %H:%M:%S", &result);
 
-  strout_length += sprintf(strout + strout_length, "[%s] [%s %s:%d] ", datetime, levelstr[level], filename, lineno);    // I dont know why basename is char *. Please somebody tell me.
+  strout_length += sprintf(strout + strout_length, "[%s] [%s %.128s:%d] ", datetime, levelstr[level], filename, lineno);        // I dont know why basename is char *. Please somebody tell me.
 
   va_list ap;
   va_start(ap, fmt);
-- 
2.43.0


From 23a2d35005a79aa248eb2dd1830b078af7fd3586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:35 +0000
Subject: [PATCH 134/145] fix: HEAD of PNG images frees the data of libpng

---
 src/onion/extras/png.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/extras/png.c b/src/onion/extras/png.c
index f33811d..3343c51 100644
--- a/src/onion/extras/png.c
+++ b/src/onion/extras/png.c
@@ -103,8 +103,10 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   /* where user_io_ptr is a structure you want available to the callbacks */
 
   onion_response_set_header(res, "Content-Type", "image/png");
-  if (onion_response_write_headers(res) == OR_SKIP_CONTENT)     // Maybe it was HEAD.
+  if (onion_response_write_headers(res) == OR_SKIP_CONTENT) {   // Maybe it was HEAD.
+    png_destroy_write_struct(&png_ptr, &info_ptr);
     return OCS_PROCESSED;
+  }
 
   /* Set the image information here.  Width and height are up to 2^31,
    * bit_depth is one of 1, 2, 4, 8, or 16, but valid values also depend on
-- 
2.43.0


From 1e1c553f68af907437c4cf70c8219df6a8d01bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:35 +0000
Subject: [PATCH 135/145] fix: the rows of PNG images are not kept in the stack

---
 src/onion/extras/png.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onion/extras/png.c b/src/onion/extras/png.c
index 3343c51..323ebfb 100644
--- a/src/onion/extras/png.c
+++ b/src/onion/extras/png.c
@@ -24,6 +24,7 @@
 #include <png.h>
 #include <onion/response.h>
 #include <onion/log.h>
+#include <onion/low.h>
 
 struct onion_png_data_t {
   onion_response *res;
@@ -148,13 +149,15 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   }
 
   png_uint_32 k;
-  png_bytep row_pointers[height];
 
   if (height > PNG_UINT_32_MAX / sizeof(png_bytep))
     png_error(png_ptr, "Image is too tall to process in memory");
 
+  // May be too tall for the stack
+  png_bytep *row_pointers = onion_low_malloc(height * sizeof(png_bytep));
+
   for (k = 0; k < height; k++)
-    row_pointers[k] = (png_byte *) (image + k * width * Bpp);
+    row_pointers[k] = (png_byte *) (image + (size_t) k * width * Bpp);
 
   // Sets the rows to save at the image
   png_set_rows(png_ptr, info_ptr, row_pointers);
@@ -169,6 +172,7 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
 
   /* Clean up after the write, and free any memory allocated */
   png_destroy_write_struct(&png_ptr, &info_ptr);
+  onion_low_free(row_pointers);
 
   /* That's it */
   return OCS_PROCESSED;
-- 
2.43.0


From 8f37ca6aa70b8b4ed3d7f918ab3b12a4270e25f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:55 +0000
Subject: [PATCH 136/145] fix: what can not be a PNG image is an error and does
 not abort the server

---
 src/onion/extras/png.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/onion/extras/png.c b/src/onion/extras/png.c
index 323ebfb..d36de93 100644
--- a/src/onion/extras/png.c
+++ b/src/onion/extras/png.c
@@ -103,10 +103,12 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   png_set_write_fn(png_ptr, (void *)&opd, onion_png_write, onion_png_flush);
   /* where user_io_ptr is a structure you want available to the callbacks */
 
-  onion_response_set_header(res, "Content-Type", "image/png");
-  if (onion_response_write_headers(res) == OR_SKIP_CONTENT) {   // Maybe it was HEAD.
+  png_bytep *volatile row_pointers = NULL;
+  // Errors come here. The error is at the response, if it was not sent yet.
+  if (setjmp(png_jmpbuf(png_ptr))) {
     png_destroy_write_struct(&png_ptr, &info_ptr);
-    return OCS_PROCESSED;
+    onion_low_free(row_pointers);
+    return (opd.sent == 1) ? OCS_PROCESSED : OCS_CLOSE_CONNECTION;
   }
 
   /* Set the image information here.  Width and height are up to 2^31,
@@ -154,7 +156,7 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
     png_error(png_ptr, "Image is too tall to process in memory");
 
   // May be too tall for the stack
-  png_bytep *row_pointers = onion_low_malloc(height * sizeof(png_bytep));
+  row_pointers = onion_low_malloc(height * sizeof(png_bytep));
 
   for (k = 0; k < height; k++)
     row_pointers[k] = (png_byte *) (image + (size_t) k * width * Bpp);
@@ -162,11 +164,13 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   // Sets the rows to save at the image
   png_set_rows(png_ptr, info_ptr, row_pointers);
 
-  // If header already sent, then there was an error.
-  if (opd.sent) {
+  onion_response_set_header(res, "Content-Type", "image/png");
+  if (onion_response_write_headers(res) == OR_SKIP_CONTENT) {   // Maybe it was HEAD.
+    png_destroy_write_struct(&png_ptr, &info_ptr);
+    onion_low_free(row_pointers);
     return OCS_PROCESSED;
   }
-  opd.sent = 1;
+  opd.sent = 2;
   // Finally WRITE the image. Uses the onion_response_write via onion_png_write helper.
   png_write_png(png_ptr, info_ptr, 0, NULL);
 
-- 
2.43.0


From c92b81b566929169d7dc4904bdae69cbb1e52064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:47 +0000
Subject: [PATCH 137/145] fix: what can not be a JPEG image is an error, and
 not a 200 with the error as image

---
 src/onion/extras/jpeg.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/extras/jpeg.c b/src/onion/extras/jpeg.c
index 3a9c1fe..8fa0ff5 100644
--- a/src/onion/extras/jpeg.c
+++ b/src/onion/extras/jpeg.c
@@ -61,7 +61,7 @@ void onion_error_exit(j_common_ptr cinfo) {
   (*(cinfo->err->format_message)) (cinfo, msg);
 
   onion_jpeg_data *d = (onion_jpeg_data *) cinfo->client_data;
-  if (!d->sent) {
+  if (!d->sent && !(d->res->flags & OR_HEADER_SENT)) {
     onion_response_set_code(d->res, HTTP_INTERNAL_ERROR);
     onion_response_printf(d->res, "Libpng error: %s", msg);
     d->sent = 1;
@@ -124,8 +124,7 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
   int row_stride;               /* physical row width in image buffer */
 
   onion_response_set_header(res, "Content-Type", "image/jpeg");
-  if (onion_response_write_headers(res) == OR_SKIP_CONTENT)     // Maybe it was HEAD.
-    return OCS_PROCESSED;
+  // Headers are written with the first data, so that errors can still be told.
 
   /* Step 1: allocate and initialize JPEG compression object */
   // 1.1 Setup used error routines
@@ -137,7 +136,7 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
      * We need to clean up the JPEG object, and return.
      */
     jpeg_destroy_compress(&cinfo);
-    return 0;
+    return (res->flags & OR_HEADER_SENT) ? OCS_CLOSE_CONNECTION : OCS_PROCESSED;
   }
 
   jpeg_create_compress(&cinfo);
-- 
2.43.0


From 6bc702ec8fd73e148e1d514d63d09f155924ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:57 +0000
Subject: [PATCH 138/145] fix: the description of unknown clients is empty in
 C++

---
 src/bindings/cpp/request.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/request.hpp b/src/bindings/cpp/request.hpp
index d827a8f..f3e39ee 100644
--- a/src/bindings/cpp/request.hpp
+++ b/src/bindings/cpp/request.hpp
@@ -183,7 +183,8 @@ namespace Onion {
                 /**
 		 * @short Returns a string with the client description
 		 */ const std::string clientDescription() const {
-      return onion_request_get_client_description(ptr);
+      const char *r = onion_request_get_client_description(ptr);
+      return r ? r : "";    // May be unknown
     }
                 /**
 		 * @short Returns the language code for the current request.
-- 
2.43.0


From 5460d7b03d25155ebbba5bb924ee91c82fba68a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:57 +0000
Subject: [PATCH 139/145] fix: the mime types set from a C++ dict are not freed
 twice

---
 src/bindings/cpp/mime.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/mime.hpp b/src/bindings/cpp/mime.hpp
index 8d6cc27..f46ea59 100644
--- a/src/bindings/cpp/mime.hpp
+++ b/src/bindings/cpp/mime.hpp
@@ -34,7 +34,7 @@ namespace Onion {
 		 * @short Sets the mime dictionary (extension -> mime_type)
 		 */
     static void set(Dict & dict) {
-      onion_mime_set(dict.c_handler());
+      onion_mime_set(onion_dict_dup(dict.c_handler()));      // Onion frees it
     }
                 /**
 		 * @short Get the mime type based on the file name.
-- 
2.43.0


From 32fd261b87dcfb565c22a1f707281949c7175c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:53 +0000
Subject: [PATCH 140/145] fix: the user set before is freed when another one is
 set

---
 src/onion/onion.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index cfd6aed..670ecd2 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -762,6 +762,7 @@ int onion_flags(onion * onion) {
  * but the proper way should be use capabilities and/or SELinux.
  */
 void onion_set_user(onion * server, const char *username) {
+  onion_low_free(server->username);
   server->username = onion_low_strdup(username);
 }
 
-- 
2.43.0


From 49901897383f071e62fc66da6c5e2abd04bef3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:49 +0000
Subject: [PATCH 141/145] fix: priviledges are dropped to the user that was
 set, as documented

---
 src/onion/onion.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 670ecd2..d581822 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -148,6 +148,10 @@ onion_url_add_url(url, ...); // Nesting
 #include <string.h>
 #include <errno.h>
 #include <stdbool.h>
+#include <unistd.h>
+#include <sys/types.h>
+#include <pwd.h>
+#include <grp.h>
 
 //#define HAVE_PTHREADS
 #ifdef HAVE_PTHREADS
@@ -433,6 +437,27 @@ long onion_count_poller_threads(void) {
 }
 #endif
 
+/// Becomes the user, for ever. Returns 0 if ok, or the errno.
+static int onion_drop_priviledges(const char *username) {
+  errno = 0;
+  struct passwd *pw = getpwnam(username);
+  if (!pw) {
+    ONION_ERROR("Can not find the user to drop priviledges to: %s", username);
+    return errno ? errno : ENOENT;
+  }
+  if (getuid() == pw->pw_uid && geteuid() == pw->pw_uid)
+    return 0;                   // Already, may be listening again.
+  // The user goes last, as after it there is no right to change the groups.
+  if (initgroups(username, pw->pw_gid) < 0 || setgid(pw->pw_gid) < 0
+      || setuid(pw->pw_uid) < 0) {
+    int err = errno ? errno : EPERM;
+    ONION_ERROR("Can not drop priviledges to user %s: %s", username,
+                strerror(err));
+    return err;
+  }
+  return 0;
+}
+
 /**
  * @short Performs the listening with the given mode
  * @ingroup onion
@@ -462,6 +487,14 @@ int onion_listen(onion * o) {
     ONION_ERROR("There are no available listen points");
     return 1;
   }
+  if (o->username) {            // Ports are open, no more priviledges needed
+    int err = onion_drop_priviledges(o->username);
+    if (err) {
+      for (lp = o->listen_points; *lp; lp++)
+        onion_listen_point_listen_stop(*lp);
+      return err;
+    }
+  }
 
   onion_poller_begin(o->poller);        // A stop from here on stops it
   o->flags |= O_LISTENING;
-- 
2.43.0


From 246b24de5c2ea701aafb80a37b4b64634f52e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:32 +0000
Subject: [PATCH 142/145] fix: the response of a yielded request is not touched
 by the server

---
 src/onion/handler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 90a353e..3cebbf8 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -66,6 +66,8 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
 #endif
       res = handler->handler(handler->priv_data, request, response);
       ONION_DEBUG0("Result: %d", res);
+      if (res == OCS_YIELD)     // The response belongs to somebody else now.
+        return res;
       if (res) {
         // write pending data.
         if (!(response->flags & OR_HEADER_SENT)
-- 
2.43.0


From be3cdb42bb6f8e7e980cf0c699af8cd1a6d3b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:26 +0000
Subject: [PATCH 143/145] fix: the error is the whole answer of a handler that
 fails after writing some

---
 src/onion/handler.c |  3 +++
 src/onion/request.c | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 3cebbf8..ffabdef 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -68,6 +68,9 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
       ONION_DEBUG0("Result: %d", res);
       if (res == OCS_YIELD)     // The response belongs to somebody else now.
         return res;
+      if (res == OCS_INTERNAL_ERROR || res == OCS_FORBIDDEN ||
+          res == OCS_NOT_IMPLEMENTED)   // The error handler will answer.
+        return res;
       if (res) {
         // write pending data.
         if (!(response->flags & OR_HEADER_SENT)
diff --git a/src/onion/request.c b/src/onion/request.c
index 9f70118..fa2bbdf 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -590,8 +590,19 @@ onion_connection_status onion_request_process(onion_request * req) {
     if (hs == OCS_FORBIDDEN)
       req->flags |= OR_FORBIDDEN;
 
-    hs = onion_handler_handle(req->connection.listen_point->server->
-                              internal_error_handler, req, res);
+    if (res->flags & OR_HEADER_SENT) {  // Too late to answer an error, just do not go on.
+      onion_response_flush(res);
+      res->flags |= OR_CLOSE_CONNECTION;
+      hs = OCS_CLOSE_CONNECTION;
+    } else {
+      // Forget what the handler left, the error is the whole answer.
+      res->buffer_pos = 0;
+      res->length = 0;
+      res->flags &= ~OR_LENGTH_SET;
+      onion_dict_remove(res->headers, "Content-Length");
+      hs = onion_handler_handle(req->connection.listen_point->server->
+                                internal_error_handler, req, res);
+    }
   }
 
   if (hs == OCS_YIELD) {
-- 
2.43.0


From 621a21a36cabfc330af44d65a16cee3adc81f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:28 +0000
Subject: [PATCH 144/145] fix: a poller slot is searched with the list locked

---
 src/onion/poller.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 67838a6..53875e4 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -484,13 +484,12 @@ int onion_poller_remove(onion_poller * poller, int fd) {
  * This might be used for long polling, removing the default deleter.
  */
 onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
+  pthread_mutex_lock(&poller->mutex);
   onion_poller_slot *next = poller->head;
-  while (next) {
-    if (next->fd == fd)
-      return next;
+  while (next && next->fd != fd)
     next = next->next;
-  }
-  return NULL;
+  pthread_mutex_unlock(&poller->mutex);
+  return next;
 }
 
 // Max of events per loop. If not al consumed for next, so no prob.  right number uses less memory, and makes less calls.
-- 
2.43.0


From 0b32e28e9fe8637708500568a724a26829f7336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:18 +0000
Subject: [PATCH 145/145] fix: yielded requests are not freed in the modes of
 one client at a time

---
 src/onion/onion.c   | 3 ++-
 src/onion/request.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index d581822..6881e7d 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -538,7 +538,8 @@ static void onion_listen_loop(onion * o) {
         ret = req->connection.listen_point->read_ready(req);
       } while (ret >= 0);
       ONION_DEBUG("End of request %p", req);
-      onion_request_free(req);
+      if (ret != OCS_YIELD)     // If yielded, who got it will free it.
+        onion_request_free(req);
       //req->connection.listen_point->close(req);
     } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP) && op->listenfd > 0);
   } else {
diff --git a/src/onion/request.c b/src/onion/request.c
index fa2bbdf..29e29d9 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -610,7 +610,8 @@ onion_connection_status onion_request_process(onion_request * req) {
     onion_poller *poller =
         onion_get_poller(req->connection.listen_point->server);
     onion_poller_slot *slot = onion_poller_get(poller, req->connection.fd);
-    onion_poller_slot_set_shutdown(slot, NULL, NULL);
+    if (slot)                   // There is none when clients are attended one by one
+      onion_poller_slot_set_shutdown(slot, NULL, NULL);
 
     return hs;
   }
-- 
2.43.0

