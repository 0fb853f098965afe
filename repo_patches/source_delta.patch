From 6248b4fcf0c698db57a912e76a597bbc3efcb499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 001/104] fix: serialize created_at as plain decimal digits

cJSON prints numbers of 1e15 and above in (lossy) exponent notation, so the
event id was not the hash of the NIP-01 canonical serialization.
---
 src/event.c          | 8 ++++++--
 src/relay_protocol.c | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/event.c b/src/event.c
index 733e358..f885691 100644
--- a/src/event.c
+++ b/src/event.c
@@ -284,6 +284,7 @@ static char* serialize_for_id(const nostr_event* event)
 {
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
     char pubkey_hex[65];
+    char created_at[24];
     const char* content = event->content ? event->content : "";
 
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
@@ -294,7 +295,9 @@ static char* serialize_for_id(const nostr_event* event)
     cJSON* serialization = cJSON_CreateArray();
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
     cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->created_at));
+    /* cJSON prints large numbers in exponent notation; NIP-01 needs plain digits */
+    snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
+    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
@@ -408,7 +411,8 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
     hex_buffer[64] = '\0';
     cJSON_AddStringToObject(root, "pubkey", hex_buffer);
 
-    cJSON_AddNumberToObject(root, "created_at", event->created_at);
+    snprintf(hex_buffer, sizeof(hex_buffer), "%" PRId64, event->created_at);
+    cJSON_AddRawToObject(root, "created_at", hex_buffer);
     cJSON_AddNumberToObject(root, "kind", event->kind);
 
     cJSON* tags_array = cJSON_CreateArray();
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index a698e1b..72d8496 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -329,7 +329,9 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
 
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
     cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber((double)event->created_at));
+    char created_at[24];
+    snprintf(created_at, sizeof(created_at), "%lld", (long long)event->created_at);
+    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
-- 
2.43.0


From b375a710ca41a50d12eb02941a28e2721858fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 002/104] fix: nostr_event_parse reads at most json_len bytes
 of its input

---
 src/relay_protocol.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 72d8496..bf7b0b3 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -288,13 +288,22 @@ bool nostr_event_is_expired_now(const nostr_event* event)
 
 nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_event** event)
 {
-    (void)json_len;
-
     if (!json || !event) {
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
-    nostr_error_t err = nostr_event_from_json(json, event);
+    nostr_error_t err;
+    if (json_len > 0) {
+        char* text = strndup(json, json_len);
+        if (!text) {
+            *event = NULL;
+            return NOSTR_RELAY_ERR_MEMORY;
+        }
+        err = nostr_event_from_json(text, event);
+        free(text);
+    } else {
+        err = nostr_event_from_json(json, event);
+    }
 
     switch (err) {
         case NOSTR_OK:
-- 
2.43.0


From e084bedc67cba6c7516af2b6bbebf862c84f3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 003/104] fix: nostr_event_from_json leaves no dangling event
 pointer on failure

---
 src/event.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/event.c b/src/event.c
index f885691..a4928f0 100644
--- a/src/event.c
+++ b/src/event.c
@@ -463,6 +463,8 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
+    *event = NULL;
+
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
     cJSON* root = cJSON_Parse(json);
     if (!root) {
@@ -477,6 +479,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         cJSON_Delete(root);
         return NOSTR_ERR_MEMORY;
     }
@@ -485,6 +488,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     if (id_json && cJSON_IsString(id_json)) {
         if (!hex_to_bytes(id_json->valuestring, (*event)->id, NOSTR_ID_SIZE)) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_EVENT;
         }
@@ -494,6 +498,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     if (pubkey_json && cJSON_IsString(pubkey_json)) {
         if (!hex_to_bytes(pubkey_json->valuestring, (*event)->pubkey.data, NOSTR_PUBKEY_SIZE)) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_EVENT;
         }
@@ -514,12 +519,14 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         const nostr_config* cfg = nostr_config_get_current();
         if (cfg && strlen(content_json->valuestring) > cfg->max_content_size) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_PARAM;
         }
         (*event)->content = strdup(content_json->valuestring);
         if (!(*event)->content) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_MEMORY;
         }
@@ -531,6 +538,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         const nostr_config* config = nostr_config_get_current();
         if (config && tags_count > (int)config->max_tags) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_PARAM;
         }
@@ -538,6 +546,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
             (*event)->tags = calloc(tags_count, sizeof(nostr_tag));
             if (!(*event)->tags) {
                 nostr_event_destroy(*event);
+                *event = NULL;
                 cJSON_Delete(root);
                 return NOSTR_ERR_MEMORY;
             }
@@ -551,6 +560,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
                         const char** temp_values = malloc(sizeof(char*) * tag_size);
                         if (!temp_values) {
                             nostr_event_destroy(*event);
+                            *event = NULL;
                             cJSON_Delete(root);
                             return NOSTR_ERR_MEMORY;
                         }
@@ -567,6 +577,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
                         if (nostr_event_add_tag(*event, temp_values, tag_size) != NOSTR_OK) {
                             free(temp_values);
                             nostr_event_destroy(*event);
+                            *event = NULL;
                             cJSON_Delete(root);
                             return NOSTR_ERR_MEMORY;
                         }
@@ -582,6 +593,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     if (sig_json && cJSON_IsString(sig_json)) {
         if (!hex_to_bytes(sig_json->valuestring, (*event)->sig, NOSTR_SIG_SIZE)) {
             nostr_event_destroy(*event);
+            *event = NULL;
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_EVENT;
         }
-- 
2.43.0


From d459529e79b4f8eb1d30d05880fe75d63b76b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 004/104] fix: reject hex fields with signs, blanks or a 0x
 prefix

---
 src/event.c | 3 ++-
 src/key.c   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/event.c b/src/event.c
index a4928f0..66cb358 100644
--- a/src/event.c
+++ b/src/event.c
@@ -445,7 +445,8 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
 
 static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
 {
-    if (strlen(hex) != bytes_len * 2) {
+    if (strlen(hex) != bytes_len * 2 ||
+        strspn(hex, "0123456789abcdefABCDEF") != bytes_len * 2) {
         return 0;
     }
 
diff --git a/src/key.c b/src/key.c
index 8b511ed..645dbec 100644
--- a/src/key.c
+++ b/src/key.c
@@ -381,7 +381,7 @@ nostr_error_t nostr_key_from_hex(const char* hex, nostr_key* key) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (strlen(hex) != 64) {
+    if (strlen(hex) != 64 || strspn(hex, "0123456789abcdefABCDEF") != 64) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
@@ -412,7 +412,7 @@ nostr_error_t nostr_privkey_from_hex(const char* hex, nostr_privkey* privkey) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (strlen(hex) != 64) {
+    if (strlen(hex) != 64 || strspn(hex, "0123456789abcdefABCDEF") != 64) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-- 
2.43.0


From 8c370b0e57378587362d82cd937dc23b4fd9d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 005/104] fix: reject events whose kind or created_at is out of
 range or not an integer

---
 src/event.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index 66cb358..f8a186b 100644
--- a/src/event.c
+++ b/src/event.c
@@ -507,12 +507,27 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
 
     cJSON* created_at_json = cJSON_GetObjectItem(root, "created_at");
     if (created_at_json && cJSON_IsNumber(created_at_json)) {
-        (*event)->created_at = (int64_t)created_at_json->valuedouble;
+        double created_at = created_at_json->valuedouble;
+        if (!(created_at >= -9223372036854775808.0 && created_at < 9223372036854775808.0) ||
+            created_at != (double)(int64_t)created_at) {
+            nostr_event_destroy(*event);
+            *event = NULL;
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
+        (*event)->created_at = (int64_t)created_at;
     }
 
     cJSON* kind_json = cJSON_GetObjectItem(root, "kind");
     if (kind_json && cJSON_IsNumber(kind_json)) {
-        (*event)->kind = (uint16_t)kind_json->valueint;
+        double kind = kind_json->valuedouble;
+        if (!(kind >= 0 && kind <= UINT16_MAX) || kind != (double)(uint16_t)kind) {
+            nostr_event_destroy(*event);
+            *event = NULL;
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
+        (*event)->kind = (uint16_t)kind;
     }
 
     cJSON* content_json = cJSON_GetObjectItem(root, "content");
-- 
2.43.0


From a5dae5eb7b515039593cce89767e62942dd9ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 006/104] fix: JSON field names are matched case-sensitively

---
 src/event.c          | 14 +++++++-------
 src/nip46.c          |  6 +++---
 src/nip47.c          | 14 +++++++-------
 src/nip47_commands.c | 18 +++++++++---------
 src/relay_filter.c   | 18 +++++++++---------
 5 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/event.c b/src/event.c
index f8a186b..6da8f06 100644
--- a/src/event.c
+++ b/src/event.c
@@ -485,7 +485,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         return NOSTR_ERR_MEMORY;
     }
 
-    cJSON* id_json = cJSON_GetObjectItem(root, "id");
+    cJSON* id_json = cJSON_GetObjectItemCaseSensitive(root, "id");
     if (id_json && cJSON_IsString(id_json)) {
         if (!hex_to_bytes(id_json->valuestring, (*event)->id, NOSTR_ID_SIZE)) {
             nostr_event_destroy(*event);
@@ -495,7 +495,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* pubkey_json = cJSON_GetObjectItem(root, "pubkey");
+    cJSON* pubkey_json = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
     if (pubkey_json && cJSON_IsString(pubkey_json)) {
         if (!hex_to_bytes(pubkey_json->valuestring, (*event)->pubkey.data, NOSTR_PUBKEY_SIZE)) {
             nostr_event_destroy(*event);
@@ -505,7 +505,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* created_at_json = cJSON_GetObjectItem(root, "created_at");
+    cJSON* created_at_json = cJSON_GetObjectItemCaseSensitive(root, "created_at");
     if (created_at_json && cJSON_IsNumber(created_at_json)) {
         double created_at = created_at_json->valuedouble;
         if (!(created_at >= -9223372036854775808.0 && created_at < 9223372036854775808.0) ||
@@ -518,7 +518,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         (*event)->created_at = (int64_t)created_at;
     }
 
-    cJSON* kind_json = cJSON_GetObjectItem(root, "kind");
+    cJSON* kind_json = cJSON_GetObjectItemCaseSensitive(root, "kind");
     if (kind_json && cJSON_IsNumber(kind_json)) {
         double kind = kind_json->valuedouble;
         if (!(kind >= 0 && kind <= UINT16_MAX) || kind != (double)(uint16_t)kind) {
@@ -530,7 +530,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         (*event)->kind = (uint16_t)kind;
     }
 
-    cJSON* content_json = cJSON_GetObjectItem(root, "content");
+    cJSON* content_json = cJSON_GetObjectItemCaseSensitive(root, "content");
     if (content_json && cJSON_IsString(content_json)) {
         const nostr_config* cfg = nostr_config_get_current();
         if (cfg && strlen(content_json->valuestring) > cfg->max_content_size) {
@@ -548,7 +548,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* tags_json = cJSON_GetObjectItem(root, "tags");
+    cJSON* tags_json = cJSON_GetObjectItemCaseSensitive(root, "tags");
     if (tags_json && cJSON_IsArray(tags_json)) {
         int tags_count = cJSON_GetArraySize(tags_json);
         const nostr_config* config = nostr_config_get_current();
@@ -605,7 +605,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* sig_json = cJSON_GetObjectItem(root, "sig");
+    cJSON* sig_json = cJSON_GetObjectItemCaseSensitive(root, "sig");
     if (sig_json && cJSON_IsString(sig_json)) {
         if (!hex_to_bytes(sig_json->valuestring, (*event)->sig, NOSTR_SIG_SIZE)) {
             nostr_event_destroy(*event);
diff --git a/src/nip46.c b/src/nip46.c
index 2994d85..b9005d4 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -40,17 +40,17 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
         return NOSTR_ERR_JSON_PARSE;
     }
 
-    cJSON* id = cJSON_GetObjectItem(root, "id");
+    cJSON* id = cJSON_GetObjectItemCaseSensitive(root, "id");
     if (id && cJSON_IsString(id)) {
         strncpy(request->id, id->valuestring, sizeof(request->id) - 1);
     }
 
-    cJSON* method = cJSON_GetObjectItem(root, "method");
+    cJSON* method = cJSON_GetObjectItemCaseSensitive(root, "method");
     if (method && cJSON_IsString(method)) {
         strncpy(request->method, method->valuestring, sizeof(request->method) - 1);
     }
 
-    cJSON* params = cJSON_GetObjectItem(root, "params");
+    cJSON* params = cJSON_GetObjectItemCaseSensitive(root, "params");
     if (params) {
         char* params_str = cJSON_PrintUnformatted(params);
         if (params_str) {
diff --git a/src/nip47.c b/src/nip47.c
index 8bcaadc..e8dd0cb 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -613,30 +613,30 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     }
     
     if (result_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "result_type");
+        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "result_type");
         if (type_obj && cJSON_IsString(type_obj)) {
             *result_type = strdup(type_obj->valuestring);
         }
     }
     
     if (result_json) {
-        cJSON* result_obj = cJSON_GetObjectItem(root, "result");
+        cJSON* result_obj = cJSON_GetObjectItemCaseSensitive(root, "result");
         if (result_obj) {
             *result_json = cJSON_PrintUnformatted(result_obj);
         }
     }
     
-    cJSON* error_obj = cJSON_GetObjectItem(root, "error");
+    cJSON* error_obj = cJSON_GetObjectItemCaseSensitive(root, "error");
     if (error_obj) {
         if (error_code) {
-            cJSON* code_obj = cJSON_GetObjectItem(error_obj, "code");
+            cJSON* code_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "code");
             if (code_obj && cJSON_IsString(code_obj)) {
                 *error_code = strdup(code_obj->valuestring);
             }
         }
         
         if (error_message) {
-            cJSON* msg_obj = cJSON_GetObjectItem(error_obj, "message");
+            cJSON* msg_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "message");
             if (msg_obj && cJSON_IsString(msg_obj)) {
                 *error_message = strdup(msg_obj->valuestring);
             }
@@ -820,14 +820,14 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
     }
     
     if (notification_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "notification_type");
+        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "notification_type");
         if (type_obj && cJSON_IsString(type_obj)) {
             *notification_type = strdup(type_obj->valuestring);
         }
     }
     
     if (notification_json) {
-        cJSON* notif_obj = cJSON_GetObjectItem(root, "notification");
+        cJSON* notif_obj = cJSON_GetObjectItemCaseSensitive(root, "notification");
         if (notif_obj) {
             *notification_json = cJSON_PrintUnformatted(notif_obj);
         }
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 7bba6d9..57a4357 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -360,7 +360,7 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    cJSON* balance = cJSON_GetObjectItem(root, "balance");
+    cJSON* balance = cJSON_GetObjectItemCaseSensitive(root, "balance");
     if (!balance || !cJSON_IsNumber(balance)) {
         cJSON_Delete(root);
         return NOSTR_ERR_INVALID_PARAM;
@@ -397,14 +397,14 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     }
     
     if (preimage) {
-        cJSON* preim = cJSON_GetObjectItem(root, "preimage");
+        cJSON* preim = cJSON_GetObjectItemCaseSensitive(root, "preimage");
         if (preim && cJSON_IsString(preim)) {
             *preimage = strdup(preim->valuestring);
         }
     }
     
     if (fees_paid) {
-        cJSON* fees = cJSON_GetObjectItem(root, "fees_paid");
+        cJSON* fees = cJSON_GetObjectItemCaseSensitive(root, "fees_paid");
         if (fees && cJSON_IsNumber(fees)) {
             *fees_paid = (uint64_t)fees->valuedouble;
         }
@@ -456,42 +456,42 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     }
     
     if (alias) {
-        cJSON* al = cJSON_GetObjectItem(root, "alias");
+        cJSON* al = cJSON_GetObjectItemCaseSensitive(root, "alias");
         if (al && cJSON_IsString(al)) {
             *alias = strdup(al->valuestring);
         }
     }
     
     if (color) {
-        cJSON* col = cJSON_GetObjectItem(root, "color");
+        cJSON* col = cJSON_GetObjectItemCaseSensitive(root, "color");
         if (col && cJSON_IsString(col)) {
             *color = strdup(col->valuestring);
         }
     }
     
     if (pubkey) {
-        cJSON* pk = cJSON_GetObjectItem(root, "pubkey");
+        cJSON* pk = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
         if (pk && cJSON_IsString(pk)) {
             *pubkey = strdup(pk->valuestring);
         }
     }
     
     if (network) {
-        cJSON* net = cJSON_GetObjectItem(root, "network");
+        cJSON* net = cJSON_GetObjectItemCaseSensitive(root, "network");
         if (net && cJSON_IsString(net)) {
             *network = strdup(net->valuestring);
         }
     }
     
     if (block_height) {
-        cJSON* height = cJSON_GetObjectItem(root, "block_height");
+        cJSON* height = cJSON_GetObjectItemCaseSensitive(root, "block_height");
         if (height && cJSON_IsNumber(height)) {
             *block_height = (uint32_t)height->valuedouble;
         }
     }
     
     if (methods && method_count) {
-        cJSON* meth = cJSON_GetObjectItem(root, "methods");
+        cJSON* meth = cJSON_GetObjectItemCaseSensitive(root, "methods");
         if (meth && cJSON_IsArray(meth)) {
             *method_count = cJSON_GetArraySize(meth);
             *methods = malloc(*method_count * sizeof(char*));
diff --git a/src/relay_filter.c b/src/relay_filter.c
index 6ef4301..39b1502 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -110,19 +110,19 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     nostr_relay_error_t err;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "ids"), &filter->ids, &filter->ids_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "ids"), &filter->ids, &filter->ids_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "authors"), &filter->authors, &filter->authors_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "authors"), &filter->authors, &filter->authors_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_int_array(cJSON_GetObjectItem(root, "kinds"), &filter->kinds, &filter->kinds_count);
+    err = parse_int_array(cJSON_GetObjectItemCaseSensitive(root, "kinds"), &filter->kinds, &filter->kinds_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#e"), &filter->e_tags, &filter->e_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#e"), &filter->e_tags, &filter->e_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#p"), &filter->p_tags, &filter->p_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#p"), &filter->p_tags, &filter->p_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
     size_t generic_count = 0;
@@ -167,22 +167,22 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->generic_tags_count = generic_count;
     }
 
-    cJSON* since = cJSON_GetObjectItem(root, "since");
+    cJSON* since = cJSON_GetObjectItemCaseSensitive(root, "since");
     if (since && cJSON_IsNumber(since)) {
         filter->since = (int64_t)since->valuedouble;
     }
 
-    cJSON* until = cJSON_GetObjectItem(root, "until");
+    cJSON* until = cJSON_GetObjectItemCaseSensitive(root, "until");
     if (until && cJSON_IsNumber(until)) {
         filter->until = (int64_t)until->valuedouble;
     }
 
-    cJSON* limit = cJSON_GetObjectItem(root, "limit");
+    cJSON* limit = cJSON_GetObjectItemCaseSensitive(root, "limit");
     if (limit && cJSON_IsNumber(limit)) {
         filter->limit = limit->valueint;
     }
 
-    cJSON* search = cJSON_GetObjectItem(root, "search");
+    cJSON* search = cJSON_GetObjectItemCaseSensitive(root, "search");
     if (search && cJSON_IsString(search) && search->valuestring) {
         if (strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
-- 
2.43.0


From e4ee37862c5088d4d8d2606c01112028e2e0ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 007/104] fix: e and p tag values must be plain hex to be
 returned as ids

---
 src/relay_protocol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index bf7b0b3..3fd29fc 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -845,6 +845,7 @@ static nostr_relay_error_t hex_string_to_bytes(const char* hex, uint8_t* out, si
 
     size_t hex_len = strlen(hex);
     if (hex_len != out_size * 2) return NOSTR_RELAY_ERR_INVALID_ID;
+    if (strspn(hex, "0123456789abcdefABCDEF") != hex_len) return NOSTR_RELAY_ERR_INVALID_ID;
 
     for (size_t i = 0; i < out_size; i++) {
         unsigned int byte;
-- 
2.43.0


From a60c6dd771fd5f80546619f56dda4bbf14012ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 008/104] fix: tag filters look at every tag of the event, not
 the first 256

---
 src/relay_filter.c | 67 +++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 39b1502..16d65d0 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -343,6 +343,24 @@ static bool hex_starts_with(const char* hex, size_t hex_len, const char* prefix)
     return strncmp(hex, prefix, prefix_len) == 0;
 }
 
+static bool event_has_tag_value(const nostr_event* event, const char* tag_name,
+                                char** values, size_t values_count)
+{
+    for (size_t i = 0; i < event->tags_count; i++) {
+        const nostr_tag* tag = &event->tags[i];
+        if (tag->count < 2 || !tag->values[0] || !tag->values[1] ||
+            strcmp(tag->values[0], tag_name) != 0) {
+            continue;
+        }
+        for (size_t j = 0; j < values_count; j++) {
+            if (strcmp(tag->values[1], values[j]) == 0) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event)
 {
     if (!filter || !event) return false;
@@ -392,54 +410,23 @@ bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event
         return false;
     }
 
-    if (filter->e_tags_count > 0) {
-        bool matched = false;
-        const char* e_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t e_count = nostr_event_get_tag_values(event, "e", e_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->e_tags_count && !matched; i++) {
-            for (size_t j = 0; j < e_count; j++) {
-                if (e_values[j] && strcmp(e_values[j], filter->e_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+    if (filter->e_tags_count > 0 &&
+        !event_has_tag_value(event, "e", filter->e_tags, filter->e_tags_count)) {
+        return false;
     }
 
-    if (filter->p_tags_count > 0) {
-        bool matched = false;
-        const char* p_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t p_count = nostr_event_get_tag_values(event, "p", p_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->p_tags_count && !matched; i++) {
-            for (size_t j = 0; j < p_count; j++) {
-                if (p_values[j] && strcmp(p_values[j], filter->p_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+    if (filter->p_tags_count > 0 &&
+        !event_has_tag_value(event, "p", filter->p_tags, filter->p_tags_count)) {
+        return false;
     }
 
     for (size_t t = 0; t < filter->generic_tags_count; t++) {
         char tag_name[2] = { filter->generic_tags[t].tag_name, '\0' };
 
-        const char* tag_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t tag_count = nostr_event_get_tag_values(event, tag_name, tag_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        bool matched = false;
-        for (size_t i = 0; i < filter->generic_tags[t].values_count && !matched; i++) {
-            for (size_t j = 0; j < tag_count; j++) {
-                if (tag_values[j] && strcmp(tag_values[j], filter->generic_tags[t].values[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+        if (!event_has_tag_value(event, tag_name, filter->generic_tags[t].values,
+                                 filter->generic_tags[t].values_count)) {
+            return false;
         }
-        if (!matched) return false;
     }
 
     return true;
-- 
2.43.0


From 4a2b2acb193f88a55aaa38ad65aa2b5874389f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 009/104] fix: a filter or event must be a JSON object

---
 src/event.c        | 3 ++-
 src/relay_filter.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index 6da8f06..00a7eab 100644
--- a/src/event.c
+++ b/src/event.c
@@ -468,7 +468,8 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
     cJSON* root = cJSON_Parse(json);
-    if (!root) {
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         return NOSTR_ERR_JSON_PARSE;
     }
 
diff --git a/src/relay_filter.c b/src/relay_filter.c
index 16d65d0..5aec235 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -104,7 +104,8 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
     memset(filter, 0, sizeof(nostr_filter_t));
 
     cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
-    if (!root) {
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
-- 
2.43.0


From 7a2db82ce33cf9bd78deb36d7c269e0078398cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 010/104] fix: relay messages keep integers of more than 15
 digits exact

---
 src/relay_message.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 9a8ff3a..c2ffe30 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -6,6 +6,8 @@
 #include "../include/nostr_relay_protocol.h"
 #include <stdlib.h>
 #include <string.h>
+#include <stdio.h>
+#include <inttypes.h>
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
@@ -13,6 +15,25 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+/* Prints an object with its integer members exact: cJSON rounds numbers of more than 15 digits. */
+static char* print_exact(cJSON* object)
+{
+    for (cJSON* item = object ? object->child : NULL; item; item = item->next) {
+        double value = item->valuedouble;
+        if (!cJSON_IsNumber(item) || !(value > -9.2e18 && value < 9.2e18) ||
+            value != (double)(int64_t)value) {
+            continue;
+        }
+        item->valuestring = cJSON_malloc(24);
+        if (!item->valuestring) {
+            return NULL;
+        }
+        snprintf(item->valuestring, 24, "%" PRId64, (int64_t)value);
+        item->type = (item->type & ~0xFF) | cJSON_Raw;
+    }
+    return cJSON_PrintUnformatted(object);
+}
+
 static nostr_relay_error_t parse_filters(cJSON* root, int start_idx, int arr_size,
                                           nostr_filter_t** out_filters, size_t* out_count)
 {
@@ -35,7 +56,7 @@ static nostr_relay_error_t parse_filters(cJSON* root, int start_idx, int arr_siz
     *out_count = 0;
     for (int i = start_idx; i < arr_size; i++) {
         cJSON* filter_json = cJSON_GetArrayItem(root, i);
-        char* filter_str = cJSON_PrintUnformatted(filter_json);
+        char* filter_str = print_exact(filter_json);
         if (!filter_str) {
             for (size_t j = 0; j < *out_count; j++) {
                 nostr_filter_free(&(*out_filters)[j]);
@@ -115,7 +136,7 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
         }
 
         cJSON* event_json = cJSON_GetArrayItem(root, 1);
-        char* event_str = cJSON_PrintUnformatted(event_json);
+        char* event_str = print_exact(event_json);
         if (!event_str) {
             cJSON_Delete(root);
             return NOSTR_RELAY_ERR_MEMORY;
@@ -189,7 +210,7 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
         }
 
         cJSON* event_json = cJSON_GetArrayItem(root, 1);
-        char* event_str = cJSON_PrintUnformatted(event_json);
+        char* event_str = print_exact(event_json);
         if (!event_str) {
             cJSON_Delete(root);
             return NOSTR_RELAY_ERR_MEMORY;
@@ -412,11 +433,14 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             }
             cJSON* event_obj = cJSON_Parse(event_json);
             free(event_json);
-            if (!event_obj) {
+            char* event_str = print_exact(event_obj);
+            cJSON_Delete(event_obj);
+            if (!event_str) {
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddItemToArray(root, event_obj);
+            cJSON_AddItemToArray(root, cJSON_CreateRaw(event_str));
+            free(event_str);
             break;
         }
 
-- 
2.43.0


From 78e05fd77086a08a93f224962a66263008eb035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 011/104] fix: an event or message missing a part for lack of
 memory is an error

---
 src/event.c          | 41 +++++++++++++++++++++-------------------
 src/relay_message.c  | 45 ++++++++++++++++++++++----------------------
 src/relay_protocol.c | 19 ++++++++++---------
 3 files changed, 55 insertions(+), 50 deletions(-)

diff --git a/src/event.c b/src/event.c
index 00a7eab..14892cc 100644
--- a/src/event.c
+++ b/src/event.c
@@ -292,27 +292,29 @@ static char* serialize_for_id(const nostr_event* event)
     }
     pubkey_hex[64] = '\0';
 
+    bool ok = true;
     cJSON* serialization = cJSON_CreateArray();
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0)) && ok;
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex)) && ok;
     /* cJSON prints large numbers in exponent notation; NIP-01 needs plain digits */
     snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
-    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at)) && ok;
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind)) && ok;
 
     cJSON* tags_array = cJSON_CreateArray();
     for (size_t i = 0; i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
+            ok = cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value)) && ok;
         }
-        cJSON_AddItemToArray(tags_array, tag_array);
+        ok = cJSON_AddItemToArray(tags_array, tag_array) && ok;
     }
-    cJSON_AddItemToArray(serialization, tags_array);
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(content));
+    ok = cJSON_AddItemToArray(serialization, tags_array) && ok;
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateString(content)) && ok;
 
-    char* result = cJSON_PrintUnformatted(serialization);
+    /* a missing part would change the id */
+    char* result = ok ? cJSON_PrintUnformatted(serialization) : NULL;
 
     cJSON_Delete(serialization);
 
@@ -397,44 +399,45 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
         return NOSTR_ERR_MEMORY;
     }
 
+    bool ok = true;
     char hex_buffer[129];  // 64 bytes * 2 + null terminator
     
     for (int i = 0; i < NOSTR_ID_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->id[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "id", hex_buffer);
+    ok = cJSON_AddStringToObject(root, "id", hex_buffer) != NULL && ok;
 
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->pubkey.data[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "pubkey", hex_buffer);
+    ok = cJSON_AddStringToObject(root, "pubkey", hex_buffer) != NULL && ok;
 
     snprintf(hex_buffer, sizeof(hex_buffer), "%" PRId64, event->created_at);
-    cJSON_AddRawToObject(root, "created_at", hex_buffer);
-    cJSON_AddNumberToObject(root, "kind", event->kind);
+    ok = cJSON_AddRawToObject(root, "created_at", hex_buffer) != NULL && ok;
+    ok = cJSON_AddNumberToObject(root, "kind", event->kind) != NULL && ok;
 
     cJSON* tags_array = cJSON_CreateArray();
     for (size_t i = 0; i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
+            ok = cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value)) && ok;
         }
-        cJSON_AddItemToArray(tags_array, tag_array);
+        ok = cJSON_AddItemToArray(tags_array, tag_array) && ok;
     }
-    cJSON_AddItemToObject(root, "tags", tags_array);
+    ok = cJSON_AddItemToObject(root, "tags", tags_array) && ok;
 
-    cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
+    ok = cJSON_AddStringToObject(root, "content", event->content ? event->content : "") != NULL && ok;
 
     for (int i = 0; i < NOSTR_SIG_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->sig[i]);
     }
     hex_buffer[128] = '\0';
-    cJSON_AddStringToObject(root, "sig", hex_buffer);
+    ok = cJSON_AddStringToObject(root, "sig", hex_buffer) != NULL && ok;
 
-    *json = cJSON_Print(root);
+    *json = ok ? cJSON_Print(root) : NULL;
     cJSON_Delete(root);
 
     return *json ? NOSTR_OK : NOSTR_ERR_MEMORY;
diff --git a/src/relay_message.c b/src/relay_message.c
index c2ffe30..cac8c93 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -417,10 +417,11 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    bool ok = true;
     switch (msg->type) {
         case NOSTR_RELAY_MSG_EVENT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("EVENT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id));
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString("EVENT")) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id)) && ok;
 
             if (!msg->data.event.event) {
                 cJSON_Delete(root);
@@ -439,52 +440,52 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddItemToArray(root, cJSON_CreateRaw(event_str));
+            ok = cJSON_AddItemToArray(root, cJSON_CreateRaw(event_str)) && ok;
             free(event_str);
             break;
         }
 
         case NOSTR_RELAY_MSG_OK:
-            cJSON_AddItemToArray(root, cJSON_CreateString("OK"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id));
-            cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.message));
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString("OK")) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id)) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success)) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.message)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_EOSE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("EOSE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id));
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString("EOSE")) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_CLOSED:
-            cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message));
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED")) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id)) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_NOTICE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message));
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE")) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_AUTH:
-            cJSON_AddItemToArray(root, cJSON_CreateString("AUTH"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge));
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString("AUTH")) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_COUNT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("COUNT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id));
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString("COUNT")) && ok;
+            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id)) && ok;
             cJSON* count_obj = cJSON_CreateObject();
             if (!count_obj) {
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count);
+            ok = cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count) != NULL && ok;
             if (msg->data.count.approximate) {
-                cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True);
+                ok = cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True) != NULL && ok;
             }
-            cJSON_AddItemToArray(root, count_obj);
+            ok = cJSON_AddItemToArray(root, count_obj) && ok;
             break;
         }
 
@@ -493,7 +494,7 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             return NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE;
     }
 
-    char* json_str = cJSON_PrintUnformatted(root);
+    char* json_str = ok ? cJSON_PrintUnformatted(root) : NULL;
     cJSON_Delete(root);
 
     if (!json_str) {
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 3fd29fc..09f8c19 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -336,27 +336,28 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
+    bool ok = true;
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0)) && ok;
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex)) && ok;
     char created_at[24];
     snprintf(created_at, sizeof(created_at), "%lld", (long long)event->created_at);
-    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at)) && ok;
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind)) && ok;
 
     cJSON* tags_array = cJSON_CreateArray();
     for (size_t i = 0; i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
+            ok = cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value)) && ok;
         }
-        cJSON_AddItemToArray(tags_array, tag_array);
+        ok = cJSON_AddItemToArray(tags_array, tag_array) && ok;
     }
-    cJSON_AddItemToArray(serialization, tags_array);
+    ok = cJSON_AddItemToArray(serialization, tags_array) && ok;
 
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(event->content ? event->content : ""));
+    ok = cJSON_AddItemToArray(serialization, cJSON_CreateString(event->content ? event->content : "")) && ok;
 
-    char* json_str = cJSON_PrintUnformatted(serialization);
+    char* json_str = ok ? cJSON_PrintUnformatted(serialization) : NULL;
     cJSON_Delete(serialization);
 
     if (!json_str) {
-- 
2.43.0


From d5496c5fcc85418071b1afbfaa2f7dfc6467d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 012/104] fix: COUNT replies give the exact count

---
 src/relay_message.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index cac8c93..54b1032 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -481,7 +481,9 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            ok = cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count) != NULL && ok;
+            char count[24];
+            snprintf(count, sizeof(count), "%" PRId64, msg->data.count.count);
+            ok = cJSON_AddRawToObject(count_obj, "count", count) != NULL && ok;
             if (msg->data.count.approximate) {
                 ok = cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True) != NULL && ok;
             }
-- 
2.43.0


From 84309ff55fe37a6027f665f7fb70759078707cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:28 +0000
Subject: [PATCH 013/104] fix: a timestamp limit that exceeds the int64 range
 accepts every timestamp

---
 src/relay_protocol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 09f8c19..b1954d2 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -108,6 +108,9 @@ bool nostr_validate_subscription_id(const char* sub_id)
 bool nostr_validate_timestamp(int64_t timestamp, int64_t max_future_seconds)
 {
     int64_t now = nostr_timestamp_now();
+    if (now > 0 && max_future_seconds > INT64_MAX - now) {
+        return true;
+    }
     return timestamp <= (now + max_future_seconds);
 }
 
-- 
2.43.0


From 3a1edabd1d790d4d25c2d0d4f4602daa52a29a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:28 +0000
Subject: [PATCH 014/104] fix: deletions reach addressable events with long d
 tags

---
 src/relay_protocol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index b1954d2..bdcbbe3 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -674,15 +674,15 @@ bool nostr_deletion_authorized_address(const nostr_deletion_request_t* request,
         d_tag = "";
     }
 
-    char target_address[256];
-    int written = snprintf(target_address, sizeof(target_address), "%d:%s:%s",
-                          target_event->kind, target_pubkey, d_tag);
-    if (written < 0 || (size_t)written >= sizeof(target_address)) {
+    char prefix[80];
+    int written = snprintf(prefix, sizeof(prefix), "%d:%s:", target_event->kind, target_pubkey);
+    if (written < 0 || (size_t)written >= sizeof(prefix)) {
         return false;
     }
 
     for (size_t i = 0; i < request->addresses_count; i++) {
-        if (strcmp(request->addresses[i], target_address) == 0) {
+        if (strncmp(request->addresses[i], prefix, (size_t)written) == 0 &&
+            strcmp(request->addresses[i] + written, d_tag) == 0) {
             return true;
         }
     }
-- 
2.43.0


From ea9a64cfbd29148a704def9bb77e8ef1abcf76ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:43 +0000
Subject: [PATCH 015/104] fix: a nonce tag without a value can be mined

---
 src/nip13.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index 0adc5e6..e4ff3bd 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -157,33 +157,38 @@ nostr_error_t nostr_nip13_add_nonce_tag(nostr_event* event, uint64_t nonce_value
         // Update existing nonce tag
         // Note: Old strings remain in arena (can't be individually freed) but will be
         // cleaned up when the event is destroyed. This is acceptable for mining workloads.
+        if (event->tags[nonce_idx].count < count) {
+            // Need to expand values array - allocate new array from arena
+            size_t new_values_size = 3 * sizeof(char*);
+            if (arena_ensure_capacity(event, new_values_size) != 0) {
+                return NOSTR_ERR_MEMORY;
+            }
+            char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
+            event->tag_arena->used += new_values_size;
+            new_values[0] = event->tags[nonce_idx].values[0];
+            new_values[1] = event->tags[nonce_idx].count > 1 ? event->tags[nonce_idx].values[1] : NULL;
+            new_values[2] = NULL;
+            event->tags[nonce_idx].values = new_values;
+        }
+
         char* new_nonce = arena_strdup(event, nonce_str);
         if (!new_nonce) {
             return NOSTR_ERR_MEMORY;
         }
         event->tags[nonce_idx].values[1] = new_nonce;
+        if (event->tags[nonce_idx].count < 2) {
+            event->tags[nonce_idx].count = 2;
+        }
 
         if (target_difficulty > 0) {
-            if (event->tags[nonce_idx].count < 3) {
-                // Need to expand values array - allocate new array from arena
-                size_t new_values_size = 3 * sizeof(char*);
-                if (arena_ensure_capacity(event, new_values_size) != 0) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
-                event->tag_arena->used += new_values_size;
-                new_values[0] = event->tags[nonce_idx].values[0];
-                new_values[1] = event->tags[nonce_idx].values[1];
-                new_values[2] = NULL;
-                event->tags[nonce_idx].values = new_values;
-                event->tags[nonce_idx].count = 3;
-            }
-
             char* new_target = arena_strdup(event, target_str);
             if (!new_target) {
                 return NOSTR_ERR_MEMORY;
             }
             event->tags[nonce_idx].values[2] = new_target;
+            if (event->tags[nonce_idx].count < 3) {
+                event->tags[nonce_idx].count = 3;
+            }
         } else {
             event->tags[nonce_idx].count = 2;
         }
-- 
2.43.0


From 866433ba25c278d14d2d38ade80f7f73db272469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:43 +0000
Subject: [PATCH 016/104] fix: mining threads read the found flag under the
 lock

---
 src/nip13.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index e4ff3bd..7e77abf 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -362,9 +362,7 @@ static void* mining_thread(void* arg)
     uint64_t nonce = data->start_nonce;
     uint64_t iterations = 0;
     
-    while (!*(data->global_found) && 
-           (data->max_iterations == 0 || iterations < data->max_iterations)) {
-        
+    while (data->max_iterations == 0 || iterations < data->max_iterations) {
         pthread_mutex_lock(data->mutex);
         if (*(data->global_found)) {
             pthread_mutex_unlock(data->mutex);
@@ -517,7 +515,9 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
         thread_data[i].global_found = &global_found;
         
         if (pthread_create(&threads[i], NULL, mining_thread, &thread_data[i]) != 0) {
+            pthread_mutex_lock(&mutex);
             global_found = 1;
+            pthread_mutex_unlock(&mutex);
             for (int j = 0; j < i; j++) {
                 pthread_join(threads[j], NULL);
             }
-- 
2.43.0


From c83870cd65e98a292e13401ba9a12970bd9d235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:43 +0000
Subject: [PATCH 017/104] fix: a keypair whose import or generation failed is
 not left usable

---
 src/key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/key.c b/src/key.c
index 645dbec..f43dc8d 100644
--- a/src/key.c
+++ b/src/key.c
@@ -508,6 +508,7 @@ nostr_error_t nostr_keypair_generate(nostr_keypair* keypair)
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    keypair->initialized = 0;
     nostr_error_t err = nostr_key_generate(&keypair->privkey, &keypair->pubkey);
     if (err != NOSTR_OK) {
         return err;
@@ -544,6 +545,7 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
         }
     }
     
+    keypair->initialized = 0;
     memcpy(&keypair->privkey, privkey, sizeof(nostr_privkey));
     
 #ifdef HAVE_NOSCRYPT
-- 
2.43.0


From 5b4b6043ab7becdddee9071b778ccdd863a1710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:53 +0000
Subject: [PATCH 018/104] fix: ECDH yields the documented x coordinate, the
 same for both sides

---
 src/key.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/key.c b/src/key.c
index f43dc8d..e213155 100644
--- a/src/key.c
+++ b/src/key.c
@@ -438,6 +438,17 @@ nostr_error_t nostr_privkey_to_hex(const nostr_privkey* privkey, char* hex, size
     return NOSTR_OK;
 }
 
+#if !defined(HAVE_NOSCRYPT) && defined(HAVE_SECP256K1)
+/* The shared secret is the bare x coordinate: x-only public keys leave the sign of y open. */
+static int ecdh_copy_x(unsigned char* output, const unsigned char* x32, const unsigned char* y32, void* data)
+{
+    (void)y32;
+    (void)data;
+    memcpy(output, x32, 32);
+    return 1;
+}
+#endif
+
 nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubkey, uint8_t shared_secret[32])
 {
     if (!privkey || !pubkey || !shared_secret) {
@@ -479,7 +490,7 @@ nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubk
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, NULL, NULL)) {
+    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, ecdh_copy_x, NULL)) {
         return NOSTR_ERR_INVALID_KEY;
     }
 #else
-- 
2.43.0


From f055b2496df7d28c60a36205b85e8224b3651a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:27 +0000
Subject: [PATCH 019/104] fix: a committed PoW difficulty too large for an int
 is not taken as smaller

---
 src/nip13.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip13.c b/src/nip13.c
index 7e77abf..04106f0 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -271,7 +271,7 @@ nostr_error_t nostr_nip13_verify_pow(const nostr_event* event, int min_difficult
     }
     
     if (event->tags[nonce_idx].count >= 3 && event->tags[nonce_idx].values[2]) {
-        int committed_difficulty = atoi(event->tags[nonce_idx].values[2]);
+        long committed_difficulty = strtol(event->tags[nonce_idx].values[2], NULL, 10);
         if (committed_difficulty > 0 && difficulty < committed_difficulty) {
             return NOSTR_ERR_INVALID_EVENT;
         }
-- 
2.43.0


From eebd91db48a744438c2975cf2a322f85fc01191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:40 +0000
Subject: [PATCH 020/104] fix: delegation conditions are a conjunction of
 well-formed conditions

---
 src/nip26.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/nip26.c b/src/nip26.c
index 269412f..48377ca 100644
--- a/src/nip26.c
+++ b/src/nip26.c
@@ -92,7 +92,7 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             unsigned long val = strtoul(p, &endptr, 10);
-            if (errno != 0 || endptr == p || val > UINT16_MAX) {
+            if (!isdigit((unsigned char)*p) || errno != 0 || endptr == p || val > UINT16_MAX) {
                 cleanup_conditions(out);
                 return 0;
             }
@@ -117,11 +117,13 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (!isdigit((unsigned char)(*p == '-' ? p[1] : *p)) || errno != 0 || endptr == p) {
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_after = (int64_t)val;
+            /* conditions are a conjunction: the tightest bound holds */
+            if (!out->has_created_after || val > out->created_after)
+                out->created_after = (int64_t)val;
             out->has_created_after = 1;
             p = endptr;
             parsed++;
@@ -131,11 +133,13 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (!isdigit((unsigned char)(*p == '-' ? p[1] : *p)) || errno != 0 || endptr == p) {
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_before = (int64_t)val;
+            /* conditions are a conjunction: the tightest bound holds */
+            if (!out->has_created_before || val < out->created_before)
+                out->created_before = (int64_t)val;
             out->has_created_before = 1;
             p = endptr;
             parsed++;
@@ -144,6 +148,11 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             cleanup_conditions(out);
             return 0;
         }
+
+        if (*p != '&' && *p != '\0') {
+            cleanup_conditions(out);
+            return 0;
+        }
     }
 
     if (parsed == 0) {
-- 
2.43.0


From 2916f75b27e4fde8239b24937aac89d9e2d49d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 021/104] fix: a failed nostr_event_create leaves no dangling
 event pointer

---
 src/event.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/event.c b/src/event.c
index 14892cc..2b20d3f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -97,6 +97,7 @@ nostr_error_t nostr_event_create(nostr_event** event)
 
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
-- 
2.43.0


From b5bccf2e2445925816938de1a9999a874acd8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 022/104] fix: setting content or a list field fails without
 losing the old value

---
 src/event.c | 7 ++++---
 src/nip51.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/event.c b/src/event.c
index 2b20d3f..24a022c 100644
--- a/src/event.c
+++ b/src/event.c
@@ -123,12 +123,13 @@ nostr_error_t nostr_event_set_content(nostr_event* event, const char* content)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    free(event->content);
-    event->content = strdup(content);
-    if (!event->content) {
+    char* copy = strdup(content);
+    if (!copy) {
         return NOSTR_ERR_MEMORY;
     }
 
+    free(event->content);
+    event->content = copy;
     return NOSTR_OK;
 }
 
diff --git a/src/nip51.c b/src/nip51.c
index 14c992d..d06e83d 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -167,11 +167,12 @@ static nostr_error_t set_string_field(nostr_list* list, char** field, const char
     if (!list) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    free(*field);
-    *field = value ? strdup(value) : NULL;
-    if (value && !*field) {
+    char* copy = value ? strdup(value) : NULL;
+    if (value && !copy) {
         return NOSTR_ERR_MEMORY;
     }
+    free(*field);
+    *field = copy;
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 24ee32e3c001ce9c3e6e74dfa68ea0ab49912616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:05 +0000
Subject: [PATCH 023/104] fix: NIP-05 names and relays are looked up in their
 own objects only

---
 src/nip05.c | 82 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/src/nip05.c b/src/nip05.c
index b6438bb..e92c834 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -70,19 +70,58 @@ static int is_escaped_quote(const char* json, const char* p) {
     return backslashes % 2 == 1;
 }
 
-static const char* json_strstr(const char* json, const char* needle) {
-    if (!json || !needle) return NULL;
+static const char* skip_ws(const char* p) {
+    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++;
+    return p;
+}
 
-    int in_string = 0;
-    size_t needle_len = strlen(needle);
+/* p is at an opening quote; returns the position after the closing one */
+static const char* skip_string(const char* p) {
+    for (p++; *p && *p != '"'; p++) {
+        if (*p == '\\' && p[1]) p++;
+    }
+    return *p ? p + 1 : NULL;
+}
 
-    for (const char* p = json; *p; p++) {
-        if (!in_string && strncmp(p, needle, needle_len) == 0) {
-            return p;
+static const char* skip_value(const char* p) {
+    int depth = 0;
+    while (*p) {
+        if (*p == '"') {
+            p = skip_string(p);
+            if (!p || depth == 0) return p;
+            continue;
         }
-        if (*p == '"' && !is_escaped_quote(json, p)) {
-            in_string = !in_string;
+        if (*p == '{' || *p == '[') {
+            depth++;
+        } else if (*p == '}' || *p == ']') {
+            if (depth == 0) return p;
+            if (--depth == 0) return p + 1;
+        } else if (*p == ',' && depth == 0) {
+            return p;
         }
+        p++;
+    }
+    return p;
+}
+
+/* the value of a member of the object that starts at obj (not of any object within it) */
+static const char* find_member(const char* obj, const char* key) {
+    size_t key_len = strlen(key);
+    const char* p = skip_ws(obj);
+    if (*p != '{') return NULL;
+
+    p = skip_ws(p + 1);
+    while (*p == '"') {
+        const char* name = p + 1;
+        const char* end = skip_string(p);
+        if (!end) return NULL;
+        p = skip_ws_and_colon(end);
+        if ((size_t)(end - 1 - name) == key_len && memcmp(name, key, key_len) == 0) return p;
+        p = skip_value(p);
+        if (!p) return NULL;
+        p = skip_ws(p);
+        if (*p != ',') return NULL;
+        p = skip_ws(p + 1);
     }
     return NULL;
 }
@@ -180,19 +219,12 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
         if (name[i] == '"' || name[i] == '\\') return NOSTR_ERR_INVALID_PARAM;
     }
 
-    const char* names_pos = json_strstr(json, "\"names\"");
+    const char* names_pos = find_member(json, "names");
     if (!names_pos) return NOSTR_ERR_NOT_FOUND;
-
-    names_pos = skip_ws_and_colon(names_pos + 7);
     if (*names_pos != '{') return NOSTR_ERR_JSON_PARSE;
 
-    char search_name[NIP05_MAX_NAME_LEN + 4];
-    snprintf(search_name, sizeof(search_name), "\"%s\"", name);
-
-    const char* name_pos = json_strstr(names_pos, search_name);
+    const char* name_pos = find_member(names_pos, name);
     if (!name_pos) return NOSTR_ERR_NOT_FOUND;
-
-    name_pos = skip_ws_and_colon(name_pos + strlen(search_name));
     if (*name_pos != '"') return NOSTR_ERR_JSON_PARSE;
     name_pos++;
 
@@ -208,19 +240,11 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
 
     if (!relays || !relay_count) return NOSTR_OK;
 
-    const char* relays_pos = json_strstr(json, "\"relays\"");
-    if (!relays_pos) return NOSTR_OK;
-
-    relays_pos = skip_ws_and_colon(relays_pos + 8);
-    if (*relays_pos != '{') return NOSTR_OK;
+    const char* relays_pos = find_member(json, "relays");
+    if (!relays_pos || *relays_pos != '{') return NOSTR_OK;
 
-    char pubkey_search[68];
-    snprintf(pubkey_search, sizeof(pubkey_search), "\"%s\"", pubkey_hex);
-
-    const char* pubkey_relays = json_strstr(relays_pos, pubkey_search);
+    const char* pubkey_relays = find_member(relays_pos, pubkey_hex);
     if (!pubkey_relays) return NOSTR_OK;
-
-    pubkey_relays = skip_ws_and_colon(pubkey_relays + strlen(pubkey_search));
     if (*pubkey_relays != '[') return NOSTR_OK;
     pubkey_relays++;
 
-- 
2.43.0


From 24833c249e5eff8e4bd91e1e847956f9c3cd2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:51 +0000
Subject: [PATCH 024/104] fix: a NIP-05 relay URL may contain a bracket

---
 src/nip05.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip05.c b/src/nip05.c
index e92c834..6fc5404 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -251,7 +251,7 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
     size_t count = 0;
     const char* p = pubkey_relays;
     int in_string = 0;
-    while (*p && *p != ']') {
+    while (*p && (in_string || *p != ']')) {
         if (*p == '"' && !is_escaped_quote(pubkey_relays, p)) {
             in_string = !in_string;
             if (!in_string) count++;
-- 
2.43.0


From c0622db8309e1b0adcaa85481b4ecdf410fc1744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 025/104] fix: NIP-05 relay URLs may be written with escaped
 slashes

---
 src/nip05.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/nip05.c b/src/nip05.c
index 6fc5404..2223c01 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -133,8 +133,19 @@ static int contains_unicode_escape(const char* s, size_t len) {
     return 0;
 }
 
+/* copy the contents of a JSON string, resolving \/ \" and \\ */
+static size_t unescape(char* out, const char* s, size_t len) {
+    size_t n = 0;
+    for (size_t i = 0; i < len; i++) {
+        if (s[i] == '\\' && i + 1 < len && (s[i + 1] == '/' || s[i + 1] == '"' || s[i + 1] == '\\')) i++;
+        out[n++] = s[i];
+    }
+    out[n] = '\0';
+    return n;
+}
+
 static int is_valid_relay_url(const char* url, size_t len) {
-    if (len < 6 || contains_unicode_escape(url, len)) return 0;
+    if (len < 6) return 0;
     return strncmp(url, "wss://", 6) == 0 || strncmp(url, "ws://", 5) == 0;
 }
 
@@ -277,7 +288,7 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
         if (*p != '"') break;
 
         size_t relay_len = p - relay_start;
-        if (!is_valid_relay_url(relay_start, relay_len)) {
+        if (contains_unicode_escape(relay_start, relay_len)) {
             p++;
             continue;
         }
@@ -286,9 +297,13 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
             nostr_nip05_free_relays(relay_array, idx);
             return NOSTR_ERR_MEMORY;
         }
-        memcpy(relay_array[idx], relay_start, relay_len);
-        relay_array[idx][relay_len] = '\0';
-        idx++;
+        relay_len = unescape(relay_array[idx], relay_start, relay_len);
+        if (is_valid_relay_url(relay_array[idx], relay_len)) {
+            idx++;
+        } else {
+            free(relay_array[idx]);
+            relay_array[idx] = NULL;
+        }
         p++;
     }
 
-- 
2.43.0


From 766c47bccd8d5b52a37ae18dfe8258ebb83e7f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:08 +0000
Subject: [PATCH 026/104] fix: a NIP-05 response is read up to its stated
 length

---
 src/nip05.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nip05.c b/src/nip05.c
index 2223c01..b3a2c5f 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -354,6 +354,14 @@ nostr_error_t nostr_nip05_verify(const char* identifier, const char* expected_pu
         return NOSTR_ERR_INVALID_PARAM;
     }
 
+    char* terminated = realloc(response, response_len + 1);
+    if (!terminated) {
+        free(response);
+        return NOSTR_ERR_MEMORY;
+    }
+    response = terminated;
+    response[response_len] = '\0';
+
     char pubkey_hex[65];
     char** relays = NULL;
     size_t relay_count = 0;
-- 
2.43.0


From ca67583df654038da7939c5f5e1b343e549dcb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 027/104] fix: a long prefix of an LNURL does not overflow the
 stack

---
 src/zap.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 962b91f..e9e3df0 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -16,7 +16,7 @@ static int is_valid_bech32_char(char c)
     return strchr(charset, tolower(c)) != NULL;
 }
 
-static int decode_bech32(const char* bech32, char* hrp, uint8_t* data, size_t* data_len)
+static int decode_bech32(const char* bech32, char* hrp, size_t hrp_size, uint8_t* data, size_t* data_len)
 {
     size_t bech32_len = strlen(bech32);
     if (bech32_len < 8 || bech32_len > 90) {
@@ -35,6 +35,9 @@ static int decode_bech32(const char* bech32, char* hrp, uint8_t* data, size_t* d
     }
     
     if (hrp) {
+        if (separator >= hrp_size) {
+            return 0;
+        }
         memcpy(hrp, bech32, separator);
         hrp[separator] = '\0';
     }
@@ -123,7 +126,7 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
     uint8_t data[256];
     size_t data_len = sizeof(data);
     
-    if (!decode_bech32(lnurl, hrp, data, &data_len)) {
+    if (!decode_bech32(lnurl, hrp, sizeof(hrp), data, &data_len)) {
         return NOSTR_ERR_ENCODING;
     }
     
-- 
2.43.0


From f2b20ad02b2dd055a3529486546a63589031ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:29 +0000
Subject: [PATCH 028/104] fix: a zap request names all its relays, not the
 first 15

---
 src/zap.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index e9e3df0..30cd784 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -66,13 +66,19 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         }
     }
     
-    const char* relay_tag[16];
-    relay_tag[0] = "relays";
-    size_t tag_count = 1;
-    for (size_t i = 0; i < relays_count && tag_count < 16; i++) {
-        relay_tag[tag_count++] = relays[i];
+    if (relays_count >= SIZE_MAX / sizeof(char*)) {
+        nostr_event_destroy(*event);
+        return NOSTR_ERR_INVALID_PARAM;
     }
-    err = nostr_event_add_tag(*event, relay_tag, tag_count);
+    const char** relay_tag = malloc((relays_count + 1) * sizeof(char*));
+    if (!relay_tag) {
+        nostr_event_destroy(*event);
+        return NOSTR_ERR_MEMORY;
+    }
+    relay_tag[0] = "relays";
+    memcpy(relay_tag + 1, relays, relays_count * sizeof(char*));
+    err = nostr_event_add_tag(*event, relay_tag, relays_count + 1);
+    free(relay_tag);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
         return err;
-- 
2.43.0


From 4b128f109c33556052e269bd747bf8e3765adca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 029/104] fix: a failed nostr_zap_create_request leaves no
 dangling event pointer

---
 src/zap.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/zap.c b/src/zap.c
index 30cd784..112bbc0 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -62,17 +62,20 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_set_content(*event, content);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+        *event = NULL;
             return err;
         }
     }
     
     if (relays_count >= SIZE_MAX / sizeof(char*)) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return NOSTR_ERR_INVALID_PARAM;
     }
     const char** relay_tag = malloc((relays_count + 1) * sizeof(char*));
     if (!relay_tag) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return NOSTR_ERR_MEMORY;
     }
     relay_tag[0] = "relays";
@@ -81,6 +84,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     free(relay_tag);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -90,6 +94,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_event_add_tag(*event, amount_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -98,6 +103,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_add_tag(*event, lnurl_tag, 2);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+        *event = NULL;
             return err;
         }
     }
@@ -106,12 +112,14 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_key_to_hex(recipient, pubkey_hex, sizeof(pubkey_hex));
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     const char* p_tag[] = {"p", pubkey_hex};
     err = nostr_event_add_tag(*event, p_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
-- 
2.43.0


From 2ab4b39d00baa2cc67f4610f9e0728944353e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 030/104] fix: zap receipts yield the invoice's amount, and
 failures leave nothing behind

---
 src/zap.c | 132 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 87 insertions(+), 45 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 112bbc0..0d48bc4 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -151,12 +151,65 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
     return NOSTR_OK;
 }
 
+/* The amount in the human-readable part of a bolt11 invoice, in millisats. */
+static int parse_bolt11_amount(const char* invoice, uint64_t* amount)
+{
+    const char* p = strstr(invoice, "lnbc");
+    const char* separator = strrchr(invoice, '1');
+    if (!p || !separator) {
+        return 0;
+    }
+    p += 4;
+    
+    uint64_t value = 0;
+    const char* digits = p;
+    for (; p < separator && *p >= '0' && *p <= '9'; p++) {
+        if (value > (UINT64_MAX - 9) / 10) {
+            return 0;
+        }
+        value = value * 10 + (uint64_t)(*p - '0');
+    }
+    if (p == digits || p > separator) {
+        return 0;
+    }
+    
+    uint64_t unit = 100000000000ULL;
+    if (p < separator) {
+        switch (tolower((unsigned char)*p)) {
+            case 'm': unit = 100000000ULL; break;
+            case 'u': unit = 100000ULL; break;
+            case 'n': unit = 100ULL; break;
+            case 'p': unit = 1; value /= 10; break;
+            default: return 0;
+        }
+        if (p + 1 != separator) {
+            return 0;
+        }
+    }
+    
+    if (value > UINT64_MAX / unit) {
+        return 0;
+    }
+    *amount = value * unit;
+    return 1;
+}
+
 nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount, char** bolt11, char* preimage, nostr_event** zap_request)
 {
+    if (amount) *amount = 0;
+    if (bolt11) *bolt11 = NULL;
+    if (preimage) preimage[0] = '\0';
+    if (zap_request) *zap_request = NULL;
+    
     if (!event || event->kind != ZAP_RECEIPT_KIND) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    /* the first tag of each name counts */
+    const char* invoice = NULL;
+    const char* preimage_value = NULL;
+    const char* description = NULL;
+    
     for (size_t i = 0; i < event->tags_count; i++) {
         if (event->tags[i].count < 2) {
             continue;
@@ -165,54 +218,43 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
         const char* tag_name = event->tags[i].values[0];
         const char* tag_value = event->tags[i].values[1];
         
-        if (strcmp(tag_name, "bolt11") == 0 && bolt11) {
-            *bolt11 = strdup(tag_value);
-            if (!*bolt11) {
-                return NOSTR_ERR_MEMORY;
-            }
-        } else if (strcmp(tag_name, "preimage") == 0 && preimage) {
-            size_t len = strlen(tag_value);
-            if (len <= 64) {
-                memcpy(preimage, tag_value, len);
-                preimage[len] = '\0';
-            }
-        } else if (strcmp(tag_name, "description") == 0 && zap_request) {
-            nostr_error_t err = nostr_event_from_json(tag_value, zap_request);
-            if (err != NOSTR_OK) {
-                if (bolt11 && *bolt11) {
-                    free(*bolt11);
-                    *bolt11 = NULL;
-                }
-                return err;
-            }
+        if (strcmp(tag_name, "bolt11") == 0 && !invoice) {
+            invoice = tag_value;
+        } else if (strcmp(tag_name, "preimage") == 0 && !preimage_value) {
+            preimage_value = tag_value;
+        } else if (strcmp(tag_name, "description") == 0 && !description) {
+            description = tag_value;
         }
     }
     
-    if (amount && bolt11 && *bolt11) {
-        const char* amt_start = strstr(*bolt11, "lnbc");
-        if (amt_start) {
-            amt_start += 4;
-            char* amt_end;
-            unsigned long amt = strtoul(amt_start, &amt_end, 10);
-            if (amt_end > amt_start) {
-                char multiplier = tolower(*amt_end);
-                switch (multiplier) {
-                    case 'm':
-                        *amount = amt * 100000000;
-                        break;
-                    case 'u':
-                        *amount = amt * 100000;
-                        break;
-                    case 'n':
-                        *amount = amt * 100;
-                        break;
-                    case 'p':
-                        *amount = amt / 10;
-                        break;
-                    default:
-                        *amount = amt * 100000000000;
-                }
-            }
+    nostr_event* request = NULL;
+    if (zap_request && description) {
+        nostr_error_t err = nostr_event_from_json(description, &request);
+        if (err != NOSTR_OK) {
+            return err;
+        }
+    }
+    
+    if (bolt11 && invoice) {
+        *bolt11 = strdup(invoice);
+        if (!*bolt11) {
+            nostr_event_destroy(request);
+            return NOSTR_ERR_MEMORY;
+        }
+    }
+    
+    if (zap_request) {
+        *zap_request = request;
+    }
+    
+    if (amount && invoice) {
+        parse_bolt11_amount(invoice, amount);
+    }
+    
+    if (preimage && preimage_value) {
+        size_t len = strlen(preimage_value);
+        if (len <= 64) {
+            memcpy(preimage, preimage_value, len + 1);
         }
     }
     
-- 
2.43.0


From 9ddaca93e8df504a142c968719ac1939e5d1de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 031/104] fix: a zap receipt without the requested amount does
 not verify

---
 src/zap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zap.c b/src/zap.c
index 0d48bc4..f9dc361 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -310,7 +310,7 @@ nostr_error_t nostr_zap_verify(const nostr_event* receipt, const nostr_event* re
         }
     }
     
-    if (request_amount > 0 && receipt_amount > 0 && request_amount != receipt_amount) {
+    if (request_amount > 0 && request_amount != receipt_amount) {
         nostr_event_destroy(embedded_request);
         if (bolt11) free(bolt11);
         return NOSTR_ERR_INVALID_EVENT;
-- 
2.43.0


From 78e6bedf552d026d59e56bfb8dc89564fa3fe1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:08 +0000
Subject: [PATCH 032/104] fix: a bech32 string with a short prefix does not
 overflow the data buffer

---
 src/bech32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 5bb58d9..6eab89c 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -179,7 +179,7 @@ nostr_error_t nostr_key_from_bech32(const char* bech32, nostr_key* key) {
     strncpy(hrp, bech32, sep);
     hrp[sep] = '\0';
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = sep + 1; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -250,7 +250,7 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -321,7 +321,7 @@ nostr_error_t nostr_event_id_from_bech32(const char* bech32, uint8_t* id) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
-- 
2.43.0


From d881efd6532466e01825c7a6890406517fe36105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:17 +0000
Subject: [PATCH 033/104] fix: encoding an entity without memory for its
 checksum is an error

---
 src/nip21.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nip21.c b/src/nip21.c
index e3e783d..773264c 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -79,7 +79,10 @@ static nostr_error_t encode_bytes_to_bech32(const uint8_t* data, size_t data_len
     }
 
     uint8_t checksum[6];
-    bech32_create_checksum(hrp, conv, conv_len, checksum);
+    if (!bech32_create_checksum(hrp, conv, conv_len, checksum)) {
+        free(conv);
+        return NOSTR_ERR_MEMORY;
+    }
 
     memcpy(out, hrp, hrp_len);
     out[hrp_len] = '1';
-- 
2.43.0


From 3f075c1e163c3af6f9fe0fb865da93915c7f3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:25 +0000
Subject: [PATCH 034/104] fix: entities with long relay hints keep all of them

---
 src/nip21.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/nip21.c b/src/nip21.c
index 773264c..63dbc84 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -12,6 +12,9 @@
 #define TLV_AUTHOR  2
 #define TLV_KIND    3
 
+/* room for every part at its largest: identifier, relays, author and kind */
+#define TLV_MAX_SIZE ((NOSTR_URI_MAX_RELAYS + 1) * 257 + 34 + 6)
+
 static nostr_error_t decode_bech32_to_bytes(const char* bech32, const char* expected_hrp,
                                             uint8_t* out, size_t out_size, size_t* out_len) {
     if (!bech32 || !out) return NOSTR_ERR_INVALID_PARAM;
@@ -232,7 +235,7 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
 nostr_error_t nostr_nprofile_encode(const nostr_nprofile* profile, char* bech32, size_t bech32_size) {
     if (!profile || !bech32) return NOSTR_ERR_INVALID_PARAM;
 
-    uint8_t tlv[4096];
+    uint8_t tlv[TLV_MAX_SIZE];
     size_t tlv_len = build_tlv(tlv, sizeof(tlv),
                                profile->pubkey.data, 32,
                                profile->relays, profile->relay_count,
@@ -247,7 +250,7 @@ nostr_error_t nostr_nprofile_decode(const char* bech32, nostr_nprofile* profile)
 
     memset(profile, 0, sizeof(nostr_nprofile));
 
-    uint8_t data[4096];
+    uint8_t data[TLV_MAX_SIZE];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "nprofile", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
@@ -282,7 +285,7 @@ void nostr_nprofile_free(nostr_nprofile* profile) {
 nostr_error_t nostr_nevent_encode(const nostr_nevent* nevent, char* bech32, size_t bech32_size) {
     if (!nevent || !bech32) return NOSTR_ERR_INVALID_PARAM;
 
-    uint8_t tlv[4096];
+    uint8_t tlv[TLV_MAX_SIZE];
     size_t tlv_len = build_tlv(tlv, sizeof(tlv),
                                nevent->id, 32,
                                nevent->relays, nevent->relay_count,
@@ -298,7 +301,7 @@ nostr_error_t nostr_nevent_decode(const char* bech32, nostr_nevent* nevent) {
 
     memset(nevent, 0, sizeof(nostr_nevent));
 
-    uint8_t data[4096];
+    uint8_t data[TLV_MAX_SIZE];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "nevent", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
@@ -326,7 +329,7 @@ void nostr_nevent_free(nostr_nevent* nevent) {
 nostr_error_t nostr_naddr_encode(const nostr_naddr* addr, char* bech32, size_t bech32_size) {
     if (!addr || !bech32) return NOSTR_ERR_INVALID_PARAM;
 
-    uint8_t tlv[4096];
+    uint8_t tlv[TLV_MAX_SIZE];
     size_t id_len = strnlen(addr->identifier, NOSTR_URI_MAX_IDENTIFIER_LEN);
     size_t tlv_len = build_tlv(tlv, sizeof(tlv),
                                (const uint8_t*)addr->identifier, id_len,
@@ -342,7 +345,7 @@ nostr_error_t nostr_naddr_decode(const char* bech32, nostr_naddr* addr) {
 
     memset(addr, 0, sizeof(nostr_naddr));
 
-    uint8_t data[4096];
+    uint8_t data[TLV_MAX_SIZE];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "naddr", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
-- 
2.43.0


From b455aaba8aafb0adcc05b32c8a10c1d2117c0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 035/104] fix: nostr:npub URIs have exactly the npub prefix

---
 src/nip21.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nip21.c b/src/nip21.c
index 63dbc84..411e5c0 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -425,6 +425,8 @@ nostr_error_t nostr_uri_parse(const char* uri, nostr_uri* result) {
 
     if (strncmp(entity, "npub1", 5) == 0) {
         result->type = NOSTR_URI_NPUB;
+        /* the last 1 ends the prefix: any further one makes it something else */
+        if (strchr(entity + 5, '1')) return NOSTR_ERR_ENCODING;
         return nostr_key_from_bech32(entity, &result->data.npub);
     }
 
-- 
2.43.0


From 2f63b142ca7a9b8405903193086f0cce3cea13fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 036/104] fix: HD keys start the library when it is not
 initialised

---
 src/hd_key.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/hd_key.c b/src/hd_key.c
index 5ffafd6..99134de 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -34,6 +34,12 @@ extern NCContext* nc_ctx;
 
 static const char HD_SEED_KEY[] = "Bitcoin seed";
 
+/* the curve context exists only once the library is initialised */
+static nostr_error_t hd_key_require_ctx(void)
+{
+    return secp256k1_ctx ? NOSTR_OK : nostr_init();
+}
+
 nostr_error_t nostr_hd_key_from_seed(const uint8_t* seed, size_t seed_len, nostr_hd_key* master)
 {
     unsigned char hash[64];
@@ -42,6 +48,11 @@ nostr_error_t nostr_hd_key_from_seed(const uint8_t* seed, size_t seed_len, nostr
     if (!seed || seed_len < 16 || seed_len > 64 || !master) {
         return NOSTR_ERR_INVALID_PARAM;
     }
+
+    nostr_error_t init_err = hd_key_require_ctx();
+    if (init_err != NOSTR_OK) {
+        return init_err;
+    }
     
     memset(master, 0, sizeof(nostr_hd_key));
     
@@ -104,6 +115,11 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_PARAM;
     }
 
+    nostr_error_t init_err = hd_key_require_ctx();
+    if (init_err != NOSTR_OK) {
+        return init_err;
+    }
+
     memset(child, 0, sizeof(nostr_hd_key));
 
     unsigned char data[37];
-- 
2.43.0


From badd06d7b82d06d7326c6bd8dff2407720f15258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 037/104] fix: a derivation path consists of plain child
 numbers in range

---
 src/hd_key.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 99134de..7b21a03 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -257,9 +257,14 @@ nostr_error_t nostr_hd_key_derive_path(const nostr_hd_key* master, const char* p
             token[token_len - 1] = '\0';
         }
 
-        char* endptr;
-        uint32_t index = strtoul(token, &endptr, 10);
-        if (*endptr != '\0' || index >= HD_HARDENED_FLAG) {
+        /* digits only: strtoul also takes blanks, a sign, or nothing at all */
+        char* endptr = token;
+        unsigned long value = 0;
+        if (token[0] >= '0' && token[0] <= '9') {
+            value = strtoul(token, &endptr, 10);
+        }
+        uint32_t index = (uint32_t)value;
+        if (endptr == token || *endptr != '\0' || value >= HD_HARDENED_FLAG) {
             secure_wipe(path_copy, path_len);
             free(path_copy);
             secure_wipe(&current, sizeof(current));
-- 
2.43.0


From 16b8e0235f3d097af53d1c1ef8ac4b108bc279ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:50 +0000
Subject: [PATCH 038/104] fix: relay client releases the connection context of
 a failed or remotely closed connection

A failed connect left ws_handle pointing at freed memory; after a remote close,
destroy() freed the relay under the running service thread and connect() lost the
old context and its thread. A callback may now also disconnect the relay.
---
 src/relay.c | 146 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 94 insertions(+), 52 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 2d08bd8..b560258 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -77,6 +77,7 @@ typedef struct {
     volatile bool service_running;
     bool service_thread_created;
 #endif
+    bool orphaned;
     bool reconnect_enabled;
     int reconnect_interval;
     time_t last_connect_attempt;
@@ -86,6 +87,8 @@ typedef struct {
     size_t buffer_pos;
 } relay_context;
 
+static void free_context(relay_context* ctx);
+
 #ifdef NOSTR_FEATURE_THREADING
 #ifdef _WIN32
 static DWORD WINAPI service_thread_func(LPVOID arg) {
@@ -98,6 +101,9 @@ static void* service_thread_func(void* arg) {
         if (!context) break;
         lws_service(context, 50);
     }
+    if (ctx->orphaned) {
+        free_context(ctx);
+    }
 #ifdef _WIN32
     return 0;
 #else
@@ -153,6 +159,78 @@ static void lock_queue_mutex(relay_context* ctx) { (void)ctx; }
 static void unlock_queue_mutex(relay_context* ctx) { (void)ctx; }
 #endif
 
+static void free_context(relay_context* ctx)
+{
+    if (ctx->context) {
+        lws_context_destroy(ctx->context);
+    }
+
+    destroy_queue_mutex(ctx);
+
+    while (ctx->subscriptions) {
+        subscription_t* sub = ctx->subscriptions;
+        ctx->subscriptions = sub->next;
+        free(sub->id);
+        free(sub);
+    }
+
+    free(ctx->data);
+    free(ctx->receive_buffer);
+    free(ctx);
+}
+
+/* Detach the connection context from the relay and release it. When called from a
+   callback on the service thread itself, that thread releases it once it has left
+   the callback. */
+static void release_context(nostr_relay* relay)
+{
+    relay_context* ctx = (relay_context*)relay->ws_handle;
+    if (!ctx) return;
+
+    ctx->reconnect_enabled = false;
+
+#ifdef NOSTR_FEATURE_THREADING
+    if (ctx->service_thread_created) {
+#ifdef _WIN32
+        bool on_service_thread = GetThreadId(ctx->service_thread) == GetCurrentThreadId();
+#else
+        bool on_service_thread = pthread_equal(ctx->service_thread, pthread_self()) != 0;
+#endif
+        if (on_service_thread) {
+            if (ctx->wsi) {
+                lws_set_opaque_user_data(ctx->wsi, NULL);
+            }
+            relay->ws_handle = NULL;
+#ifdef _WIN32
+            CloseHandle(ctx->service_thread);
+#else
+            pthread_detach(ctx->service_thread);
+#endif
+            ctx->service_thread_created = false;
+            ctx->orphaned = true;
+            ctx->service_running = false;
+            return;
+        }
+
+        ctx->service_running = false;
+#ifdef _WIN32
+        WaitForSingleObject(ctx->service_thread, INFINITE);
+        CloseHandle(ctx->service_thread);
+#else
+        pthread_join(ctx->service_thread, NULL);
+#endif
+        ctx->service_thread_created = false;
+    }
+#endif
+
+    if (ctx->wsi && relay->state == NOSTR_RELAY_CONNECTED) {
+        lws_close_reason(ctx->wsi, LWS_CLOSE_STATUS_NORMAL, NULL, 0);
+    }
+
+    relay->ws_handle = NULL;
+    free_context(ctx);
+}
+
 static struct lws_protocols protocols[] = {
     { "nostr-protocol", callback_nostr_relay, sizeof(relay_context), 65536 },
     { NULL, NULL, 0, 0 }
@@ -171,6 +249,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
     (*relay)->url = strdup(url);
     if (!(*relay)->url) {
         free(*relay);
+        *relay = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
@@ -186,9 +265,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
 void nostr_relay_destroy(nostr_relay* relay) {
     if (!relay) return;
 
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
-        nostr_relay_disconnect(relay);
-    }
+    release_context(relay);
 
     free(relay->url);
     free(relay);
@@ -203,6 +280,9 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_CONNECTION;
     }
 
+    /* a previous connection that the remote side closed */
+    release_context(relay);
+
     struct lws_context_creation_info info;
     memset(&info, 0, sizeof(info));
     info.port = CONTEXT_PORT_NO_LISTEN;
@@ -223,6 +303,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ccinfo.ssl_connection = LCCSCF_USE_SSL;
     
     char* url_copy = strdup(relay->url);
+    if (!url_copy) {
+        lws_context_destroy(context);
+        return NOSTR_ERR_MEMORY;
+    }
     if (strncmp(url_copy, "wss://", 6) == 0) {
         ccinfo.address = url_copy + 6;
         ccinfo.ssl_connection = LCCSCF_USE_SSL;
@@ -281,8 +365,8 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     struct lws* wsi = lws_client_connect_via_info(&ccinfo);
     if (!wsi) {
         free(url_copy);
-        free(ctx);
-        lws_context_destroy(context);
+        relay->ws_handle = NULL;
+        free_context(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_CONNECTION;
     }
@@ -298,20 +382,16 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ctx->service_thread = CreateThread(NULL, 0, service_thread_func, ctx, 0, NULL);
     if (!ctx->service_thread) {
         ctx->service_running = false;
-        destroy_queue_mutex(ctx);
         relay->ws_handle = NULL;
-        lws_context_destroy(context);
-        free(ctx);
+        free_context(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_MEMORY;
     }
 #else
     if (pthread_create(&ctx->service_thread, NULL, service_thread_func, ctx) != 0) {
         ctx->service_running = false;
-        destroy_queue_mutex(ctx);
         relay->ws_handle = NULL;
-        lws_context_destroy(context);
-        free(ctx);
+        free_context(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_MEMORY;
     }
@@ -331,47 +411,7 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    relay_context* ctx = (relay_context*)relay->ws_handle;
-    ctx->reconnect_enabled = false;
-
-    struct lws_context* context_to_destroy = ctx->context;
-    ctx->context = NULL;
-
-#ifdef NOSTR_FEATURE_THREADING
-    ctx->service_running = false;
-    if (ctx->service_thread_created) {
-#ifdef _WIN32
-        WaitForSingleObject(ctx->service_thread, INFINITE);
-        CloseHandle(ctx->service_thread);
-#else
-        pthread_join(ctx->service_thread, NULL);
-#endif
-        ctx->service_thread_created = false;
-    }
-#endif
-
-    if (ctx->wsi && relay->state == NOSTR_RELAY_CONNECTED) {
-        lws_close_reason(ctx->wsi, LWS_CLOSE_STATUS_NORMAL, NULL, 0);
-    }
-
-    if (context_to_destroy) {
-        lws_context_destroy(context_to_destroy);
-    }
-    
-    destroy_queue_mutex(ctx);
-    
-    while (ctx->subscriptions) {
-        subscription_t* sub = ctx->subscriptions;
-        ctx->subscriptions = sub->next;
-        free(sub->id);
-        free(sub);
-    }
-    
-    free(ctx->data);
-    free(ctx->receive_buffer);
-    free(ctx);
-    
-    relay->ws_handle = NULL;
+    release_context(relay);
     relay->state = NOSTR_RELAY_DISCONNECTED;
 
     return NOSTR_OK;
@@ -690,6 +730,8 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     cJSON_Delete(json);
                     *end = saved;
 
+                    if (ctx->orphaned) return 0;
+
                     start = end;
                     while (*start && (*start == '\n' || *start == '\r' || *start == ' ')) start++;
                 }
-- 
2.43.0


From ac938751dd3f5fffb1cb84d5146514eebe3a547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:50 +0000
Subject: [PATCH 039/104] fix: relay client notices that the relay closed the
 connection

libwebsockets reports it to clients as LWS_CALLBACK_CLIENT_CLOSED; the state stayed
CONNECTED and the next send wrote to a freed wsi.
---
 src/relay.c | 68 +++++++++++++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index b560258..a98fa65 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -417,6 +417,26 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     return NOSTR_OK;
 }
 
+/* Send one text message; call with the queue mutex held. */
+static nostr_error_t write_text(relay_context* ctx, const char* msg)
+{
+    if (!ctx->wsi) {
+        return NOSTR_ERR_CONNECTION;
+    }
+
+    size_t msg_len = strlen(msg);
+    unsigned char* buf = malloc(LWS_PRE + msg_len);
+    if (!buf) {
+        return NOSTR_ERR_MEMORY;
+    }
+
+    memcpy(&buf[LWS_PRE], msg, msg_len);
+    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    free(buf);
+
+    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+}
+
 nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* event) {
     if (!relay || !event || relay->state != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
@@ -443,23 +463,13 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     sprintf(msg, "[\"EVENT\",%s]", json);
     free(json);
     
-    size_t msg_len = strlen(msg);
-    unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
-        free(msg);
-        return NOSTR_ERR_MEMORY;
-    }
-    
-    memcpy(&buf[LWS_PRE], msg, msg_len);
-
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    err = write_text(ctx, msg);
     unlock_queue_mutex(ctx);
 
     free(msg);
-    free(buf);
 
-    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+    return err;
 }
 
 
@@ -505,23 +515,13 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
 
     sprintf(msg, "[\"REQ\",\"%s\",%s]", subscription_id, filters_json);
     
-    size_t msg_len = strlen(msg);
-    unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
-        free(msg);
-        return NOSTR_ERR_MEMORY;
-    }
-    
-    memcpy(&buf[LWS_PRE], msg, msg_len);
-
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    nostr_error_t err = write_text(ctx, msg);
     unlock_queue_mutex(ctx);
 
     free(msg);
-    free(buf);
 
-    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+    return err;
 }
 
 nostr_error_t nostr_publish_event(nostr_relay* relay, const nostr_event* event) {
@@ -578,23 +578,13 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     
     sprintf(msg, "[\"CLOSE\",\"%s\"]", subscription_id);
     
-    size_t msg_len = strlen(msg);
-    unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
-        free(msg);
-        return NOSTR_ERR_MEMORY;
-    }
-    
-    memcpy(&buf[LWS_PRE], msg, msg_len);
-
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    nostr_error_t err = write_text(ctx, msg);
     unlock_queue_mutex(ctx);
 
     free(msg);
-    free(buf);
 
-    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+    return err;
 }
 
 static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reason,
@@ -748,8 +738,14 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             break;
             
         case LWS_CALLBACK_CLIENT_CONNECTION_ERROR:
+        case LWS_CALLBACK_CLIENT_CLOSED:
         case LWS_CALLBACK_CLOSED:
             if (relay && ctx) {
+                lws_set_opaque_user_data(wsi, NULL);
+                lock_queue_mutex(ctx);
+                ctx->wsi = NULL;
+                ctx->buffer_pos = 0;
+                unlock_queue_mutex(ctx);
                 relay->state = NOSTR_RELAY_DISCONNECTED;
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
-- 
2.43.0


From 435a93d53f76d04faff20bbee733a69538893c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:50 +0000
Subject: [PATCH 040/104] fix: relay client really attempts the reconnection it
 announces

The state was set to CONNECTING without any attempt, after which connect() refused.
---
 src/relay.c | 89 +++++++++++++++++++++++++++++------------------------
 1 file changed, 49 insertions(+), 40 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index a98fa65..6c1f8c2 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -271,40 +271,17 @@ void nostr_relay_destroy(nostr_relay* relay) {
     free(relay);
 }
 
-nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callback, void* user_data) {
-    if (!relay || !callback) {
-        return NOSTR_ERR_INVALID_PARAM;
-    }
-
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
-        return NOSTR_ERR_CONNECTION;
-    }
-
-    /* a previous connection that the remote side closed */
-    release_context(relay);
-
-    struct lws_context_creation_info info;
-    memset(&info, 0, sizeof(info));
-    info.port = CONTEXT_PORT_NO_LISTEN;
-    info.protocols = protocols;
-    info.gid = -1;
-    info.uid = -1;
-    info.options = LWS_SERVER_OPTION_DO_SSL_GLOBAL_INIT;
-
-    struct lws_context* context = lws_create_context(&info);
-    if (!context) {
-        return NOSTR_ERR_CONNECTION;
-    }
-
+/* Open a client connection to the relay's URL on the given context. */
+static nostr_error_t start_connection(nostr_relay* relay, relay_context* ctx)
+{
     struct lws_client_connect_info ccinfo;
     memset(&ccinfo, 0, sizeof(ccinfo));
-    ccinfo.context = context;
+    ccinfo.context = ctx->context;
     ccinfo.port = 443;
     ccinfo.ssl_connection = LCCSCF_USE_SSL;
     
     char* url_copy = strdup(relay->url);
     if (!url_copy) {
-        lws_context_destroy(context);
         return NOSTR_ERR_MEMORY;
     }
     if (strncmp(url_copy, "wss://", 6) == 0) {
@@ -316,7 +293,6 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         ccinfo.ssl_connection = 0;
     } else {
         free(url_copy);
-        lws_context_destroy(context);
         return NOSTR_ERR_INVALID_PARAM;
     }
     
@@ -332,9 +308,45 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ccinfo.origin = ccinfo.address;
     ccinfo.protocol = protocols[0].name;
 
+    struct lws* wsi = lws_client_connect_via_info(&ccinfo);
+    free(url_copy);
+    if (!wsi) {
+        return NOSTR_ERR_CONNECTION;
+    }
+
+    ctx->wsi = wsi;
+    lws_set_opaque_user_data(wsi, relay);
+
+    return NOSTR_OK;
+}
+
+nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callback, void* user_data) {
+    if (!relay || !callback) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
+        return NOSTR_ERR_CONNECTION;
+    }
+
+    /* a previous connection that the remote side closed */
+    release_context(relay);
+
+    struct lws_context_creation_info info;
+    memset(&info, 0, sizeof(info));
+    info.port = CONTEXT_PORT_NO_LISTEN;
+    info.protocols = protocols;
+    info.gid = -1;
+    info.uid = -1;
+    info.options = LWS_SERVER_OPTION_DO_SSL_GLOBAL_INIT;
+
+    struct lws_context* context = lws_create_context(&info);
+    if (!context) {
+        return NOSTR_ERR_CONNECTION;
+    }
+
     relay_context* ctx = calloc(1, sizeof(relay_context));
     if (!ctx) {
-        free(url_copy);
         lws_context_destroy(context);
         return NOSTR_ERR_MEMORY;
     }
@@ -352,28 +364,23 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ctx->message_callback = relay->message_callback;
     ctx->message_user_data = relay->message_user_data;
     if (init_queue_mutex(ctx) != 0) {
-        free(url_copy);
         free(ctx);
         lws_context_destroy(context);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_MEMORY;
     }
     
+    nostr_relay_state previous_state = relay->state;
     relay->ws_handle = ctx;
     relay->state = NOSTR_RELAY_CONNECTING;
     
-    struct lws* wsi = lws_client_connect_via_info(&ccinfo);
-    if (!wsi) {
-        free(url_copy);
+    nostr_error_t err = start_connection(relay, ctx);
+    if (err != NOSTR_OK) {
         relay->ws_handle = NULL;
         free_context(ctx);
-        relay->state = NOSTR_RELAY_ERROR;
-        return NOSTR_ERR_CONNECTION;
+        relay->state = (err == NOSTR_ERR_CONNECTION) ? NOSTR_RELAY_ERROR : previous_state;
+        return err;
     }
-    
-    ctx->wsi = wsi;
-    lws_set_opaque_user_data(wsi, relay);
-    free(url_copy);
 
 #ifdef NOSTR_FEATURE_THREADING
     ctx->service_running = true;
@@ -756,7 +763,9 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     if (now - ctx->last_connect_attempt >= ctx->reconnect_interval) {
                         ctx->last_connect_attempt = now;
                         relay->state = NOSTR_RELAY_CONNECTING;
-                        if (ctx->state_callback) {
+                        if (start_connection(relay, ctx) != NOSTR_OK) {
+                            relay->state = NOSTR_RELAY_DISCONNECTED;
+                        } else if (ctx->state_callback) {
                             ctx->state_callback(relay, NOSTR_RELAY_CONNECTING, ctx->user_data);
                         }
                     }
-- 
2.43.0


From f8da6bf01a6128988b49cd1a4b472966b1ff2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:51 +0000
Subject: [PATCH 041/104] fix: relay client keeps its subscriptions consistent

A subscription whose REQ could not be sent stayed registered, a repeated id left the
older one behind, and the list was shared between threads without the mutex.
---
 src/relay.c | 161 +++++++++++++++++++++++++++-------------------------
 1 file changed, 83 insertions(+), 78 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 6c1f8c2..9dcc073 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -159,6 +159,22 @@ static void lock_queue_mutex(relay_context* ctx) { (void)ctx; }
 static void unlock_queue_mutex(relay_context* ctx) { (void)ctx; }
 #endif
 
+/* Remove the subscriptions with this id; call with the queue mutex held. */
+static void remove_subscriptions(relay_context* ctx, const char* id)
+{
+    subscription_t** sub_ptr = &ctx->subscriptions;
+    while (*sub_ptr) {
+        subscription_t* sub = *sub_ptr;
+        if (strcmp(sub->id, id) == 0) {
+            *sub_ptr = sub->next;
+            free(sub->id);
+            free(sub);
+        } else {
+            sub_ptr = &sub->next;
+        }
+    }
+}
+
 static void free_context(relay_context* ctx)
 {
     if (ctx->context) {
@@ -510,22 +526,33 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     }
 
     sub->id = strdup(subscription_id);
-    sub->callback = callback;
-    sub->user_data = user_data;
-    sub->next = ctx->subscriptions;
-    ctx->subscriptions = sub;
-
     char* msg = malloc(strlen(subscription_id) + strlen(filters_json) + 20);
-    if (!msg) {
+    if (!sub->id || !msg) {
+        free(msg);
+        free(sub->id);
+        free(sub);
         return NOSTR_ERR_MEMORY;
     }
 
     sprintf(msg, "[\"REQ\",\"%s\",%s]", subscription_id, filters_json);
-    
+
+    sub->callback = callback;
+    sub->user_data = user_data;
+
     lock_queue_mutex(ctx);
     nostr_error_t err = write_text(ctx, msg);
+    if (err == NOSTR_OK) {
+        /* a REQ replaces an earlier subscription with the same id */
+        remove_subscriptions(ctx, subscription_id);
+        sub->next = ctx->subscriptions;
+        ctx->subscriptions = sub;
+    }
     unlock_queue_mutex(ctx);
 
+    if (err != NOSTR_OK) {
+        free(sub->id);
+        free(sub);
+    }
     free(msg);
 
     return err;
@@ -545,8 +572,10 @@ nostr_error_t nostr_relay_set_message_callback(nostr_relay* relay, nostr_message
     
     if (relay->ws_handle) {
         relay_context* ctx = (relay_context*)relay->ws_handle;
+        lock_queue_mutex(ctx);
         ctx->message_callback = callback;
         ctx->message_user_data = user_data;
+        unlock_queue_mutex(ctx);
     }
     
     return NOSTR_OK;
@@ -566,18 +595,6 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
         return NOSTR_ERR_CONNECTION;
     }
 
-    subscription_t** sub_ptr = &ctx->subscriptions;
-    while (*sub_ptr) {
-        if (strcmp((*sub_ptr)->id, subscription_id) == 0) {
-            subscription_t* to_remove = *sub_ptr;
-            *sub_ptr = to_remove->next;
-            free(to_remove->id);
-            free(to_remove);
-            break;
-        }
-        sub_ptr = &(*sub_ptr)->next;
-    }
-
     char* msg = malloc(strlen(subscription_id) + 20);
     if (!msg) {
         return NOSTR_ERR_MEMORY;
@@ -586,6 +603,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     sprintf(msg, "[\"CLOSE\",\"%s\"]", subscription_id);
     
     lock_queue_mutex(ctx);
+    remove_subscriptions(ctx, subscription_id);
     nostr_error_t err = write_text(ctx, msg);
     unlock_queue_mutex(ctx);
 
@@ -594,6 +612,23 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     return err;
 }
 
+/* Hand a relay message to the message callback. */
+static void deliver_message(relay_context* ctx, const char* type, const cJSON* json)
+{
+    lock_queue_mutex(ctx);
+    nostr_message_callback callback = ctx->message_callback;
+    void* user_data = ctx->message_user_data;
+    unlock_queue_mutex(ctx);
+
+    if (!callback) return;
+
+    char* msg_str = cJSON_Print(json);
+    if (msg_str) {
+        callback(type, msg_str, user_data);
+        free(msg_str);
+    }
+}
+
 static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reason,
                                void* user, void* in, size_t len) {
     nostr_relay* relay = (nostr_relay*)lws_get_opaque_user_data(wsi);
@@ -649,77 +684,47 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     cJSON* event_json = cJSON_GetArrayItem(json, 2);
                                     if (cJSON_IsString(sub_id) && event_json) {
+                                        nostr_event_callback callback = NULL;
+                                        void* callback_data = NULL;
+                                        lock_queue_mutex(ctx);
                                         subscription_t* sub = ctx->subscriptions;
-                                        while (sub) {
-                                            if (strcmp(sub->id, sub_id->valuestring) == 0) {
-                                                char* event_str = cJSON_Print(event_json);
-                                                if (event_str) {
-                                                    nostr_event* event;
-                                                    if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
-                                                        if (sub->callback) {
-                                                            sub->callback(event, sub->user_data);
-                                                        }
-                                                        nostr_event_destroy(event);
-                                                    }
-                                                    free(event_str);
+                                        while (sub && strcmp(sub->id, sub_id->valuestring) != 0) {
+                                            sub = sub->next;
+                                        }
+                                        if (sub) {
+                                            callback = sub->callback;
+                                            callback_data = sub->user_data;
+                                        }
+                                        unlock_queue_mutex(ctx);
+
+                                        if (callback) {
+                                            char* event_str = cJSON_Print(event_json);
+                                            if (event_str) {
+                                                nostr_event* event;
+                                                if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
+                                                    callback(event, callback_data);
+                                                    nostr_event_destroy(event);
                                                 }
-                                                break;
+                                                free(event_str);
                                             }
-                                            sub = sub->next;
                                         }
                                     }
                                 } else if (strcmp(msg_type, "OK") == 0 && array_size >= 4) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
+                                    deliver_message(ctx, msg_type, json);
                                 } else if (strcmp(msg_type, "EOSE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
+                                    deliver_message(ctx, msg_type, json);
                                 } else if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3) {
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     if (cJSON_IsString(sub_id)) {
-                                        subscription_t** sub_ptr = &ctx->subscriptions;
-                                        while (*sub_ptr) {
-                                            if (strcmp((*sub_ptr)->id, sub_id->valuestring) == 0) {
-                                                subscription_t* to_remove = *sub_ptr;
-                                                *sub_ptr = to_remove->next;
-                                                free(to_remove->id);
-                                                free(to_remove);
-                                                break;
-                                            }
-                                            sub_ptr = &(*sub_ptr)->next;
-                                        }
-                                    }
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
+                                        lock_queue_mutex(ctx);
+                                        remove_subscriptions(ctx, sub_id->valuestring);
+                                        unlock_queue_mutex(ctx);
                                     }
+                                    deliver_message(ctx, msg_type, json);
                                 } else if (strcmp(msg_type, "NOTICE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
-                                } else if (ctx->message_callback) {
-                                    char* msg_str = cJSON_Print(json);
-                                    if (msg_str) {
-                                        ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                        free(msg_str);
-                                    }
+                                    deliver_message(ctx, msg_type, json);
+                                } else {
+                                    deliver_message(ctx, msg_type, json);
                                 }
                             }
                         }
-- 
2.43.0


From 63f200859295b55686a6d16622c2c91b84149bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:51 +0000
Subject: [PATCH 042/104] fix: relay client recovers from garbage, incomplete
 and oversized messages

Leftover bytes of one websocket message hid every later message.
---
 src/relay.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 9dcc073..1746232 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -85,6 +85,7 @@ typedef struct {
     char* receive_buffer;
     size_t buffer_size;
     size_t buffer_pos;
+    bool discard_message;
 } relay_context;
 
 static void free_context(relay_context* ctx);
@@ -647,14 +648,26 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
         case LWS_CALLBACK_CLIENT_RECEIVE:
             if (relay && ctx && in && len > 0) {
                 const size_t max_buffer_size = 10 * 1024 * 1024;
+                bool message_end = lws_is_final_fragment(wsi) &&
+                                   lws_remaining_packet_payload(wsi) == 0;
+                if (ctx->discard_message) {
+                    /* the rest of a message that was too large or could not be stored */
+                    ctx->discard_message = !message_end;
+                    break;
+                }
                 if (ctx->buffer_pos + len >= ctx->buffer_size) {
                     size_t new_size = ctx->buffer_pos + len + 1024;
                     if (new_size > max_buffer_size) {
                         ctx->buffer_pos = 0;
+                        ctx->discard_message = !message_end;
                         break;
                     }
                     char* new_buffer = realloc(ctx->receive_buffer, new_size);
-                    if (!new_buffer) break;
+                    if (!new_buffer) {
+                        ctx->buffer_pos = 0;
+                        ctx->discard_message = !message_end;
+                        break;
+                    }
                     ctx->receive_buffer = new_buffer;
                     ctx->buffer_size = new_size;
                 }
@@ -739,7 +752,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                 }
                 
                 size_t remaining = strlen(start);
-                if (remaining > 0) {
+                if (remaining > 0 && !message_end) {
                     memmove(ctx->receive_buffer, start, remaining + 1);
                     ctx->buffer_pos = remaining;
                 } else {
@@ -757,6 +770,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                 lock_queue_mutex(ctx);
                 ctx->wsi = NULL;
                 ctx->buffer_pos = 0;
+                ctx->discard_message = false;
                 unlock_queue_mutex(ctx);
                 relay->state = NOSTR_RELAY_DISCONNECTED;
                 if (ctx->state_callback) {
-- 
2.43.0


From 274ec17b41752d2939d71b774ecbe0672257d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:51 +0000
Subject: [PATCH 043/104] fix: relay client connects to the port in the relay
 URL

---
 src/relay.c | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 1746232..0edd0e6 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -288,6 +288,29 @@ void nostr_relay_destroy(nostr_relay* relay) {
     free(relay);
 }
 
+/* Cut a ":port" suffix off a host and store its number; the port is left alone when
+   there is none. Returns 0 when what follows the colon is not a port number. */
+static int split_port(char* address, int* port)
+{
+    char* colon = strrchr(address, ':');
+    if (!colon || strchr(colon, ']')) return 1;
+    if (strchr(address, ':') != colon && address[0] != '[') return 1;
+
+    int value = 0;
+    const char* p = colon + 1;
+    if (!*p) return 0;
+    for (; *p; p++) {
+        if (*p < '0' || *p > '9') return 0;
+        value = value * 10 + (*p - '0');
+        if (value > 65535) return 0;
+    }
+    if (value == 0) return 0;
+
+    *colon = '\0';
+    *port = value;
+    return 1;
+}
+
 /* Open a client connection to the relay's URL on the given context. */
 static nostr_error_t start_connection(nostr_relay* relay, relay_context* ctx)
 {
@@ -320,12 +343,25 @@ static nostr_error_t start_connection(nostr_relay* relay, relay_context* ctx)
     } else {
         ccinfo.path = "/";
     }
-    
-    ccinfo.host = ccinfo.address;
-    ccinfo.origin = ccinfo.address;
+
+    /* the Host header names the port, the address to connect to does not */
+    char* host = strdup(ccinfo.address);
+    if (!host) {
+        free(url_copy);
+        return NOSTR_ERR_MEMORY;
+    }
+    if (!split_port((char*)ccinfo.address, &ccinfo.port)) {
+        free(host);
+        free(url_copy);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+    ccinfo.host = host;
+    ccinfo.origin = host;
     ccinfo.protocol = protocols[0].name;
 
     struct lws* wsi = lws_client_connect_via_info(&ccinfo);
+    free(host);
     free(url_copy);
     if (!wsi) {
         return NOSTR_ERR_CONNECTION;
-- 
2.43.0


From 984531c321fb64e2dbdbe492906a14092aafccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:41 +0000
Subject: [PATCH 044/104] fix: a subscription request is one well-formed JSON
 message

Only the first JSON value of the filters was looked at; anything after it was sent.
---
 src/relay.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 0edd0e6..96d7376 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -553,15 +553,6 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
         return NOSTR_ERR_MEMORY;
     }
 
-    {
-        cJSON* filters_parsed = cJSON_Parse(filters_json);
-        if (!filters_parsed) {
-            free(sub);
-            return NOSTR_ERR_INVALID_PARAM;
-        }
-        cJSON_Delete(filters_parsed);
-    }
-
     sub->id = strdup(subscription_id);
     char* msg = malloc(strlen(subscription_id) + strlen(filters_json) + 20);
     if (!sub->id || !msg) {
@@ -573,6 +564,16 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
 
     sprintf(msg, "[\"REQ\",\"%s\",%s]", subscription_id, filters_json);
 
+    /* the filters may be several objects; with them the message must be one JSON text */
+    cJSON* parsed = cJSON_ParseWithOpts(msg, NULL, 1);
+    if (!parsed) {
+        free(msg);
+        free(sub->id);
+        free(sub);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+    cJSON_Delete(parsed);
+
     sub->callback = callback;
     sub->user_data = user_data;
 
-- 
2.43.0


From f857e0b43be36ce4e984271c471f8fd6e4f84f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:08 +0000
Subject: [PATCH 045/104] fix: relay client hands over an event's created_at
 exactly

cJSON prints only 15 digits, so that such an event no longer verified.
---
 src/relay.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index 96d7376..fa05c5b 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -2,6 +2,8 @@
 #include <libwebsockets.h>
 #include <string.h>
 #include <stdlib.h>
+#include <stdio.h>
+#include <inttypes.h>
 #ifdef NOSTR_FEATURE_THREADING
 #ifdef _WIN32
 #include <windows.h>
@@ -650,6 +652,21 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     return err;
 }
 
+/* Print an event with its time exact: cJSON rounds numbers of more than 15 digits. */
+static char* print_event(cJSON* event)
+{
+    cJSON* time_item = cJSON_GetObjectItemCaseSensitive(event, "created_at");
+    double value = cJSON_IsNumber(time_item) ? time_item->valuedouble : 0.5;
+    if (value > -9.2e18 && value < 9.2e18 && value == (double)(int64_t)value) {
+        char* digits = cJSON_malloc(24);
+        if (!digits) return NULL;
+        snprintf(digits, 24, "%" PRId64, (int64_t)value);
+        time_item->valuestring = digits;
+        time_item->type = (time_item->type & ~0xFF) | cJSON_Raw;
+    }
+    return cJSON_Print(event);
+}
+
 /* Hand a relay message to the message callback. */
 static void deliver_message(relay_context* ctx, const char* type, const cJSON* json)
 {
@@ -748,7 +765,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                         unlock_queue_mutex(ctx);
 
                                         if (callback) {
-                                            char* event_str = cJSON_Print(event_json);
+                                            char* event_str = print_event(event_json);
                                             if (event_str) {
                                                 nostr_event* event;
                                                 if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
-- 
2.43.0


From f1c07aea5846582f0671c71007578d7206f92202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 046/104] fix: the configuration callback runs without the
 configuration lock

A callback that read or changed the configuration waited for itself forever.
---
 src/config.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index 4db6996..479d9fa 100644
--- a/src/config.c
+++ b/src/config.c
@@ -257,10 +257,15 @@ nostr_error_t nostr_config_update(const nostr_config* config) {
     nostr_config old_config = g_config;
     g_config = *config;
     
-    if (g_config_callback) {
-        g_config_callback(&old_config, &g_config, g_config_callback_user_data);
-    }
-    
+    nostr_config new_config = g_config;
+    nostr_config_callback callback = g_config_callback;
+    void* user_data = g_config_callback_user_data;
+
     unlock_config();
+
+    if (callback) {
+        callback(&old_config, &new_config, user_data);
+    }
+
     return NOSTR_OK;
 }
\ No newline at end of file
-- 
2.43.0


From 2a701441755586b75f8a289127f9a1f0afafba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 047/104] fix: an empty or negative environment setting is not
 a number

An empty variable was read as 0, which made initialisation fail.
---
 src/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 479d9fa..7e711ee 100644
--- a/src/config.c
+++ b/src/config.c
@@ -79,7 +79,7 @@ static uint32_t parse_uint32_env(const char* name, uint32_t default_val) {
     
     char* endptr;
     unsigned long val = strtoul(env, &endptr, 10);
-    if (*endptr != '\0' || val > UINT32_MAX) return default_val;
+    if (endptr == env || *endptr != '\0' || strchr(env, '-') || val > UINT32_MAX) return default_val;
     
     return (uint32_t)val;
 }
@@ -90,7 +90,7 @@ static int parse_int_env(const char* name, int default_val) {
     
     char* endptr;
     long val = strtol(env, &endptr, 10);
-    if (*endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
+    if (endptr == env || *endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
     
     return (int)val;
 }
-- 
2.43.0


From 581939590874e8bfa565b93ae121f33f79663ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:41 +0000
Subject: [PATCH 048/104] fix: relay response timeouts up to the documented
 five minutes are valid

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 7e711ee..0c43a53 100644
--- a/src/config.c
+++ b/src/config.c
@@ -155,7 +155,7 @@ nostr_error_t nostr_config_validate(const nostr_config* config) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (config->relay_response_timeout_ms < 1000 || config->relay_response_timeout_ms > 60000) {
+    if (config->relay_response_timeout_ms < 1000 || config->relay_response_timeout_ms > 300000) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-- 
2.43.0


From 020c44e2c9e68f93701ef1781f9415c03d137b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 049/104] fix: hold tags to the configured max_tag_values

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 24a022c..b5d589d 100644
--- a/src/event.c
+++ b/src/event.c
@@ -140,7 +140,7 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
     }
 
     const nostr_config* config = nostr_config_get_current();
-    if (config && event->tags_count >= config->max_tags) {
+    if (config && (event->tags_count >= config->max_tags || count > config->max_tag_values)) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-- 
2.43.0


From f06ca78cca9879dbe8201ebb38ffcafd8cce8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 050/104] fix: a parsed repost's relay hint is that of the
 reported event, not of an earlier e tag

---
 src/nip18.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nip18.c b/src/nip18.c
index 593fdaf..94c8ebf 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -143,8 +143,7 @@ nostr_error_t nostr_repost_parse(const nostr_event* event, char* reposted_event_
 
         if (strcmp(name, "e") == 0) {
             found_e_id = value;
-            if (tag->count >= 3 && tag->values[2])
-                found_relay = tag->values[2];
+            found_relay = tag->count >= 3 ? tag->values[2] : NULL;
         } else if (strcmp(name, "p") == 0) {
             found_p_key = value;
         } else if (strcmp(name, "k") == 0) {
-- 
2.43.0


From 6e2ac6ddfef1f76af32afe50d1de74a66babff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:01 +0000
Subject: [PATCH 051/104] fix: a k tag that is not a kind number does not yield
 a kind in parsed reposts and reactions

---
 src/nip18.c | 2 +-
 src/nip25.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nip18.c b/src/nip18.c
index 94c8ebf..4e34a28 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -150,7 +150,7 @@ nostr_error_t nostr_repost_parse(const nostr_event* event, char* reposted_event_
             char* endptr;
             errno = 0;
             unsigned long kind_val = strtoul(value, &endptr, 10);
-            if (errno == 0 && endptr != value && *endptr == '\0' && kind_val <= UINT16_MAX)
+            if (errno == 0 && isdigit((unsigned char)value[0]) && *endptr == '\0' && kind_val <= UINT16_MAX)
                 found_kind = (uint16_t)kind_val;
         }
     }
diff --git a/src/nip25.c b/src/nip25.c
index 6500a39..0b81a84 100644
--- a/src/nip25.c
+++ b/src/nip25.c
@@ -133,8 +133,8 @@ nostr_error_t nostr_reaction_parse(const nostr_event* event, char* reaction_cont
             char* endptr;
             errno = 0;
             unsigned long kind_val = strtoul(value, &endptr, 10);
-            if (errno == 0 && endptr != value && *endptr == '\0') {
-                *target_kind = (kind_val > UINT16_MAX) ? UINT16_MAX : (uint16_t)kind_val;
+            if (errno == 0 && isdigit((unsigned char)value[0]) && *endptr == '\0' && kind_val <= UINT16_MAX) {
+                *target_kind = (uint16_t)kind_val;
             }
         }
     }
-- 
2.43.0


From 8271d41218109219deaeef36fb8d0b1c6dac4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 052/104] fix: print 64-bit numbers of the relay information
 document exactly

---
 src/relay_nip11.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 46e8e77..4165413 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -4,6 +4,8 @@
  */
 
 #include "../include/nostr_relay_protocol.h"
+#include <inttypes.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -136,6 +138,21 @@ void nostr_relay_info_free(nostr_relay_info_t* info)
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+/* cJSON prints numbers as doubles, which do not hold every 64-bit integer. */
+static void add_int64(cJSON* obj, const char* name, int64_t value)
+{
+    char text[24];
+    snprintf(text, sizeof(text), "%" PRId64, value);
+    cJSON_AddRawToObject(obj, name, text);
+}
+
+static void add_uint64(cJSON* obj, const char* name, uint64_t value)
+{
+    char text[24];
+    snprintf(text, sizeof(text), "%" PRIu64, value);
+    cJSON_AddRawToObject(obj, name, text);
+}
+
 nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
                                                      char* buf, size_t buf_size, size_t* out_len)
 {
@@ -176,10 +193,10 @@ nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitatio
     cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required);
     cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes);
     if (limitation->created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_lower_limit", (double)limitation->created_at_lower_limit);
+        add_int64(obj, "created_at_lower_limit", limitation->created_at_lower_limit);
     }
     if (limitation->created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_upper_limit", (double)limitation->created_at_upper_limit);
+        add_int64(obj, "created_at_upper_limit", limitation->created_at_upper_limit);
     }
     if (limitation->default_limit > 0) {
         cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit);
@@ -291,10 +308,10 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
     cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required);
     cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes);
     if (info->limitation.created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_lower_limit", (double)info->limitation.created_at_lower_limit);
+        add_int64(limitation_obj, "created_at_lower_limit", info->limitation.created_at_lower_limit);
     }
     if (info->limitation.created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_upper_limit", (double)info->limitation.created_at_upper_limit);
+        add_int64(limitation_obj, "created_at_upper_limit", info->limitation.created_at_upper_limit);
     }
     if (info->limitation.default_limit > 0) {
         cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit);
@@ -313,7 +330,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
                 cJSON_AddItemToObject(ret_obj, "kinds", kinds_arr);
             }
             if (info->retention[i].time != 0) {
-                cJSON_AddNumberToObject(ret_obj, "time", (double)info->retention[i].time);
+                add_int64(ret_obj, "time", info->retention[i].time);
             }
             if (info->retention[i].count > 0) {
                 cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count);
@@ -364,7 +381,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             cJSON* admission_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.admission_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.admission[i].amount);
+                add_uint64(fee_obj, "amount", info->fees.admission[i].amount);
                 if (info->fees.admission[i].unit) {
                     cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit);
                 }
@@ -377,7 +394,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             cJSON* sub_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.subscription_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.subscription[i].amount);
+                add_uint64(fee_obj, "amount", info->fees.subscription[i].amount);
                 if (info->fees.subscription[i].unit) {
                     cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit);
                 }
@@ -400,7 +417,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
                     }
                     cJSON_AddItemToObject(fee_obj, "kinds", kinds_arr);
                 }
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.publication[i].amount);
+                add_uint64(fee_obj, "amount", info->fees.publication[i].amount);
                 if (info->fees.publication[i].unit) {
                     cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit);
                 }
-- 
2.43.0


From 5a1cb3f1f6bb4130c463de85b89e98c805108db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:06 +0000
Subject: [PATCH 053/104] fix: text after a NUL byte in a relay message is not
 read from its middle

---
 src/relay.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index fa05c5b..6c06886 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -805,7 +805,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     while (*start && (*start == '\n' || *start == '\r' || *start == ' ')) start++;
                 }
                 
-                size_t remaining = strlen(start);
+                size_t remaining = ctx->buffer_pos - (size_t)(start - ctx->receive_buffer);
                 if (remaining > 0 && !message_end) {
                     memmove(ctx->receive_buffer, start, remaining + 1);
                     ctx->buffer_pos = remaining;
-- 
2.43.0


From a2b169bc4b74d7e5ae133ac7ed60ca9178f14fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:23 +0000
Subject: [PATCH 054/104] revert: the hex check in hex_string_to_bytes repeats
 its callers' check

---
 src/relay_protocol.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index bdcbbe3..15b9f1a 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -849,7 +849,6 @@ static nostr_relay_error_t hex_string_to_bytes(const char* hex, uint8_t* out, si
 
     size_t hex_len = strlen(hex);
     if (hex_len != out_size * 2) return NOSTR_RELAY_ERR_INVALID_ID;
-    if (strspn(hex, "0123456789abcdefABCDEF") != hex_len) return NOSTR_RELAY_ERR_INVALID_ID;
 
     for (size_t i = 0; i < out_size; i++) {
         unsigned int byte;
-- 
2.43.0


From b0fd1a72e22ebfd831684d9b78044c6f5e07cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:32 +0000
Subject: [PATCH 055/104] fix: JSON parts that cannot be added to a document
 being written are freed

---
 src/event.c          | 38 +++++++++++++++++++++++++----------
 src/relay_message.c  | 48 ++++++++++++++++++++++++++------------------
 src/relay_protocol.c | 26 ++++++++++++++++--------
 3 files changed, 74 insertions(+), 38 deletions(-)

diff --git a/src/event.c b/src/event.c
index b5d589d..98f7ae3 100644
--- a/src/event.c
+++ b/src/event.c
@@ -282,6 +282,19 @@ static char* escape_json_string(const char* input)
 }
 #endif
 
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+/* cJSON_AddItemToArray leaves the item with the caller when it fails */
+static bool add_item(cJSON* array, cJSON* item)
+{
+    if (cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
+#endif
+
 static char* serialize_for_id(const nostr_event* event)
 {
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -296,24 +309,24 @@ static char* serialize_for_id(const nostr_event* event)
 
     bool ok = true;
     cJSON* serialization = cJSON_CreateArray();
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0)) && ok;
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex)) && ok;
+    ok = add_item(serialization, cJSON_CreateNumber(0)) && ok;
+    ok = add_item(serialization, cJSON_CreateString(pubkey_hex)) && ok;
     /* cJSON prints large numbers in exponent notation; NIP-01 needs plain digits */
     snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at)) && ok;
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind)) && ok;
+    ok = add_item(serialization, cJSON_CreateRaw(created_at)) && ok;
+    ok = add_item(serialization, cJSON_CreateNumber(event->kind)) && ok;
 
     cJSON* tags_array = cJSON_CreateArray();
     for (size_t i = 0; i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            ok = cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value)) && ok;
+            ok = add_item(tag_array, cJSON_CreateString(tag_value)) && ok;
         }
-        ok = cJSON_AddItemToArray(tags_array, tag_array) && ok;
+        ok = add_item(tags_array, tag_array) && ok;
     }
-    ok = cJSON_AddItemToArray(serialization, tags_array) && ok;
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateString(content)) && ok;
+    ok = add_item(serialization, tags_array) && ok;
+    ok = add_item(serialization, cJSON_CreateString(content)) && ok;
 
     /* a missing part would change the id */
     char* result = ok ? cJSON_PrintUnformatted(serialization) : NULL;
@@ -425,11 +438,14 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
         cJSON* tag_array = cJSON_CreateArray();
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            ok = cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value)) && ok;
+            ok = add_item(tag_array, cJSON_CreateString(tag_value)) && ok;
         }
-        ok = cJSON_AddItemToArray(tags_array, tag_array) && ok;
+        ok = add_item(tags_array, tag_array) && ok;
+    }
+    if (!cJSON_AddItemToObject(root, "tags", tags_array)) {
+        cJSON_Delete(tags_array);
+        ok = false;
     }
-    ok = cJSON_AddItemToObject(root, "tags", tags_array) && ok;
 
     ok = cJSON_AddStringToObject(root, "content", event->content ? event->content : "") != NULL && ok;
 
diff --git a/src/relay_message.c b/src/relay_message.c
index 54b1032..7ce0439 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -406,6 +406,16 @@ void nostr_relay_msg_count(nostr_relay_msg_t* msg, const char* query_id, int64_t
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+/* cJSON_AddItemToArray leaves the item with the caller when it fails */
+static bool add_item(cJSON* array, cJSON* item)
+{
+    if (cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
 nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char* buf, size_t buf_size, size_t* out_len)
 {
     if (!msg || !buf || buf_size == 0) {
@@ -420,8 +430,8 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
     bool ok = true;
     switch (msg->type) {
         case NOSTR_RELAY_MSG_EVENT: {
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString("EVENT")) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id)) && ok;
+            ok = add_item(root, cJSON_CreateString("EVENT")) && ok;
+            ok = add_item(root, cJSON_CreateString(msg->data.event.subscription_id)) && ok;
 
             if (!msg->data.event.event) {
                 cJSON_Delete(root);
@@ -440,42 +450,42 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            ok = cJSON_AddItemToArray(root, cJSON_CreateRaw(event_str)) && ok;
+            ok = add_item(root, cJSON_CreateRaw(event_str)) && ok;
             free(event_str);
             break;
         }
 
         case NOSTR_RELAY_MSG_OK:
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString("OK")) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id)) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success)) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.message)) && ok;
+            ok = add_item(root, cJSON_CreateString("OK")) && ok;
+            ok = add_item(root, cJSON_CreateString(msg->data.ok.event_id)) && ok;
+            ok = add_item(root, cJSON_CreateBool(msg->data.ok.success)) && ok;
+            ok = add_item(root, cJSON_CreateString(msg->data.ok.message)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_EOSE:
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString("EOSE")) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id)) && ok;
+            ok = add_item(root, cJSON_CreateString("EOSE")) && ok;
+            ok = add_item(root, cJSON_CreateString(msg->data.eose.subscription_id)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_CLOSED:
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED")) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id)) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message)) && ok;
+            ok = add_item(root, cJSON_CreateString("CLOSED")) && ok;
+            ok = add_item(root, cJSON_CreateString(msg->data.closed.subscription_id)) && ok;
+            ok = add_item(root, cJSON_CreateString(msg->data.closed.message)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_NOTICE:
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE")) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message)) && ok;
+            ok = add_item(root, cJSON_CreateString("NOTICE")) && ok;
+            ok = add_item(root, cJSON_CreateString(msg->data.notice.message)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_AUTH:
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString("AUTH")) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge)) && ok;
+            ok = add_item(root, cJSON_CreateString("AUTH")) && ok;
+            ok = add_item(root, cJSON_CreateString(msg->data.auth.challenge)) && ok;
             break;
 
         case NOSTR_RELAY_MSG_COUNT: {
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString("COUNT")) && ok;
-            ok = cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id)) && ok;
+            ok = add_item(root, cJSON_CreateString("COUNT")) && ok;
+            ok = add_item(root, cJSON_CreateString(msg->data.count.query_id)) && ok;
             cJSON* count_obj = cJSON_CreateObject();
             if (!count_obj) {
                 cJSON_Delete(root);
@@ -487,7 +497,7 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             if (msg->data.count.approximate) {
                 ok = cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True) != NULL && ok;
             }
-            ok = cJSON_AddItemToArray(root, count_obj) && ok;
+            ok = add_item(root, count_obj) && ok;
             break;
         }
 
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 15b9f1a..7ad9574 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -322,6 +322,16 @@ nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_e
     }
 }
 
+/* cJSON_AddItemToArray leaves the item with the caller when it fails */
+static bool add_item(cJSON* array, cJSON* item)
+{
+    if (cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
 nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, char* buf, size_t buf_size, size_t* out_len)
 {
     if (!event || !buf || buf_size == 0) {
@@ -340,25 +350,25 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
     }
 
     bool ok = true;
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0)) && ok;
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex)) && ok;
+    ok = add_item(serialization, cJSON_CreateNumber(0)) && ok;
+    ok = add_item(serialization, cJSON_CreateString(pubkey_hex)) && ok;
     char created_at[24];
     snprintf(created_at, sizeof(created_at), "%lld", (long long)event->created_at);
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at)) && ok;
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind)) && ok;
+    ok = add_item(serialization, cJSON_CreateRaw(created_at)) && ok;
+    ok = add_item(serialization, cJSON_CreateNumber(event->kind)) && ok;
 
     cJSON* tags_array = cJSON_CreateArray();
     for (size_t i = 0; i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            ok = cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value)) && ok;
+            ok = add_item(tag_array, cJSON_CreateString(tag_value)) && ok;
         }
-        ok = cJSON_AddItemToArray(tags_array, tag_array) && ok;
+        ok = add_item(tags_array, tag_array) && ok;
     }
-    ok = cJSON_AddItemToArray(serialization, tags_array) && ok;
+    ok = add_item(serialization, tags_array) && ok;
 
-    ok = cJSON_AddItemToArray(serialization, cJSON_CreateString(event->content ? event->content : "")) && ok;
+    ok = add_item(serialization, cJSON_CreateString(event->content ? event->content : "")) && ok;
 
     char* json_str = ok ? cJSON_PrintUnformatted(serialization) : NULL;
     cJSON_Delete(serialization);
-- 
2.43.0


From addaba5c8f4959091ff99515a64743e23acc305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 056/104] fix: a relay information document that could not be
 built whole is not reported as written

---
 src/relay_nip11.c | 183 ++++++++++++++++++++++++++--------------------
 1 file changed, 105 insertions(+), 78 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 4165413..a2440d9 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -138,19 +138,38 @@ void nostr_relay_info_free(nostr_relay_info_t* info)
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+/* cJSON leaves the item with the caller when it cannot be added */
+static bool add_item(cJSON* array, cJSON* item)
+{
+    if (cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
+static bool add_member(cJSON* obj, const char* name, cJSON* item)
+{
+    if (cJSON_AddItemToObject(obj, name, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
 /* cJSON prints numbers as doubles, which do not hold every 64-bit integer. */
-static void add_int64(cJSON* obj, const char* name, int64_t value)
+static bool add_int64(cJSON* obj, const char* name, int64_t value)
 {
     char text[24];
     snprintf(text, sizeof(text), "%" PRId64, value);
-    cJSON_AddRawToObject(obj, name, text);
+    return cJSON_AddRawToObject(obj, name, text) != NULL;
 }
 
-static void add_uint64(cJSON* obj, const char* name, uint64_t value)
+static bool add_uint64(cJSON* obj, const char* name, uint64_t value)
 {
     char text[24];
     snprintf(text, sizeof(text), "%" PRIu64, value);
-    cJSON_AddRawToObject(obj, name, text);
+    return cJSON_AddRawToObject(obj, name, text) != NULL;
 }
 
 nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
@@ -165,44 +184,45 @@ nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitatio
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    bool ok = true;
     if (limitation->max_message_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_message_length", limitation->max_message_length);
+        ok = cJSON_AddNumberToObject(obj, "max_message_length", limitation->max_message_length) != NULL && ok;
     }
     if (limitation->max_subscriptions > 0) {
-        cJSON_AddNumberToObject(obj, "max_subscriptions", limitation->max_subscriptions);
+        ok = cJSON_AddNumberToObject(obj, "max_subscriptions", limitation->max_subscriptions) != NULL && ok;
     }
     if (limitation->max_filters > 0) {
-        cJSON_AddNumberToObject(obj, "max_filters", limitation->max_filters);
+        ok = cJSON_AddNumberToObject(obj, "max_filters", limitation->max_filters) != NULL && ok;
     }
     if (limitation->max_limit > 0) {
-        cJSON_AddNumberToObject(obj, "max_limit", limitation->max_limit);
+        ok = cJSON_AddNumberToObject(obj, "max_limit", limitation->max_limit) != NULL && ok;
     }
     if (limitation->max_subid_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_subid_length", limitation->max_subid_length);
+        ok = cJSON_AddNumberToObject(obj, "max_subid_length", limitation->max_subid_length) != NULL && ok;
     }
     if (limitation->max_event_tags > 0) {
-        cJSON_AddNumberToObject(obj, "max_event_tags", limitation->max_event_tags);
+        ok = cJSON_AddNumberToObject(obj, "max_event_tags", limitation->max_event_tags) != NULL && ok;
     }
     if (limitation->max_content_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_content_length", limitation->max_content_length);
+        ok = cJSON_AddNumberToObject(obj, "max_content_length", limitation->max_content_length) != NULL && ok;
     }
     if (limitation->min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(obj, "min_pow_difficulty", limitation->min_pow_difficulty);
+        ok = cJSON_AddNumberToObject(obj, "min_pow_difficulty", limitation->min_pow_difficulty) != NULL && ok;
     }
-    cJSON_AddBoolToObject(obj, "auth_required", limitation->auth_required);
-    cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required);
-    cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes);
+    ok = cJSON_AddBoolToObject(obj, "auth_required", limitation->auth_required) != NULL && ok;
+    ok = cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required) != NULL && ok;
+    ok = cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes) != NULL && ok;
     if (limitation->created_at_lower_limit > 0) {
-        add_int64(obj, "created_at_lower_limit", limitation->created_at_lower_limit);
+        ok = add_int64(obj, "created_at_lower_limit", limitation->created_at_lower_limit) && ok;
     }
     if (limitation->created_at_upper_limit > 0) {
-        add_int64(obj, "created_at_upper_limit", limitation->created_at_upper_limit);
+        ok = add_int64(obj, "created_at_upper_limit", limitation->created_at_upper_limit) && ok;
     }
     if (limitation->default_limit > 0) {
-        cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit);
+        ok = cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit) != NULL && ok;
     }
 
-    char* json_str = cJSON_PrintUnformatted(obj);
+    char* json_str = ok ? cJSON_PrintUnformatted(obj) : NULL;
     cJSON_Delete(obj);
 
     if (!json_str) {
@@ -234,26 +254,27 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    bool ok = true;
     if (info->name) {
-        cJSON_AddStringToObject(obj, "name", info->name);
+        ok = cJSON_AddStringToObject(obj, "name", info->name) != NULL && ok;
     }
     if (info->description) {
-        cJSON_AddStringToObject(obj, "description", info->description);
+        ok = cJSON_AddStringToObject(obj, "description", info->description) != NULL && ok;
     }
     if (info->banner) {
-        cJSON_AddStringToObject(obj, "banner", info->banner);
+        ok = cJSON_AddStringToObject(obj, "banner", info->banner) != NULL && ok;
     }
     if (info->icon) {
-        cJSON_AddStringToObject(obj, "icon", info->icon);
+        ok = cJSON_AddStringToObject(obj, "icon", info->icon) != NULL && ok;
     }
     if (info->pubkey) {
-        cJSON_AddStringToObject(obj, "pubkey", info->pubkey);
+        ok = cJSON_AddStringToObject(obj, "pubkey", info->pubkey) != NULL && ok;
     }
     if (info->self_pubkey) {
-        cJSON_AddStringToObject(obj, "self", info->self_pubkey);
+        ok = cJSON_AddStringToObject(obj, "self", info->self_pubkey) != NULL && ok;
     }
     if (info->contact) {
-        cJSON_AddStringToObject(obj, "contact", info->contact);
+        ok = cJSON_AddStringToObject(obj, "contact", info->contact) != NULL && ok;
     }
 
     cJSON* nips_arr = cJSON_CreateArray();
@@ -262,61 +283,61 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
         return NOSTR_RELAY_ERR_MEMORY;
     }
     for (size_t i = 0; i < info->supported_nips_count; i++) {
-        cJSON_AddItemToArray(nips_arr, cJSON_CreateNumber(info->supported_nips[i]));
+        ok = add_item(nips_arr, cJSON_CreateNumber(info->supported_nips[i])) && ok;
     }
-    cJSON_AddItemToObject(obj, "supported_nips", nips_arr);
+    ok = add_member(obj, "supported_nips", nips_arr) && ok;
 
     if (info->software) {
-        cJSON_AddStringToObject(obj, "software", info->software);
+        ok = cJSON_AddStringToObject(obj, "software", info->software) != NULL && ok;
     }
     if (info->version) {
-        cJSON_AddStringToObject(obj, "version", info->version);
+        ok = cJSON_AddStringToObject(obj, "version", info->version) != NULL && ok;
     }
     if (info->privacy_policy) {
-        cJSON_AddStringToObject(obj, "privacy_policy", info->privacy_policy);
+        ok = cJSON_AddStringToObject(obj, "privacy_policy", info->privacy_policy) != NULL && ok;
     }
     if (info->terms_of_service) {
-        cJSON_AddStringToObject(obj, "terms_of_service", info->terms_of_service);
+        ok = cJSON_AddStringToObject(obj, "terms_of_service", info->terms_of_service) != NULL && ok;
     }
 
     cJSON* limitation_obj = cJSON_CreateObject();
     if (info->limitation.max_message_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_message_length", info->limitation.max_message_length);
+        ok = cJSON_AddNumberToObject(limitation_obj, "max_message_length", info->limitation.max_message_length) != NULL && ok;
     }
     if (info->limitation.max_subscriptions > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subscriptions", info->limitation.max_subscriptions);
+        ok = cJSON_AddNumberToObject(limitation_obj, "max_subscriptions", info->limitation.max_subscriptions) != NULL && ok;
     }
     if (info->limitation.max_filters > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_filters", info->limitation.max_filters);
+        ok = cJSON_AddNumberToObject(limitation_obj, "max_filters", info->limitation.max_filters) != NULL && ok;
     }
     if (info->limitation.max_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_limit", info->limitation.max_limit);
+        ok = cJSON_AddNumberToObject(limitation_obj, "max_limit", info->limitation.max_limit) != NULL && ok;
     }
     if (info->limitation.max_subid_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subid_length", info->limitation.max_subid_length);
+        ok = cJSON_AddNumberToObject(limitation_obj, "max_subid_length", info->limitation.max_subid_length) != NULL && ok;
     }
     if (info->limitation.max_event_tags > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_event_tags", info->limitation.max_event_tags);
+        ok = cJSON_AddNumberToObject(limitation_obj, "max_event_tags", info->limitation.max_event_tags) != NULL && ok;
     }
     if (info->limitation.max_content_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_content_length", info->limitation.max_content_length);
+        ok = cJSON_AddNumberToObject(limitation_obj, "max_content_length", info->limitation.max_content_length) != NULL && ok;
     }
     if (info->limitation.min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "min_pow_difficulty", info->limitation.min_pow_difficulty);
+        ok = cJSON_AddNumberToObject(limitation_obj, "min_pow_difficulty", info->limitation.min_pow_difficulty) != NULL && ok;
     }
-    cJSON_AddBoolToObject(limitation_obj, "auth_required", info->limitation.auth_required);
-    cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required);
-    cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes);
+    ok = cJSON_AddBoolToObject(limitation_obj, "auth_required", info->limitation.auth_required) != NULL && ok;
+    ok = cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required) != NULL && ok;
+    ok = cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes) != NULL && ok;
     if (info->limitation.created_at_lower_limit > 0) {
-        add_int64(limitation_obj, "created_at_lower_limit", info->limitation.created_at_lower_limit);
+        ok = add_int64(limitation_obj, "created_at_lower_limit", info->limitation.created_at_lower_limit) && ok;
     }
     if (info->limitation.created_at_upper_limit > 0) {
-        add_int64(limitation_obj, "created_at_upper_limit", info->limitation.created_at_upper_limit);
+        ok = add_int64(limitation_obj, "created_at_upper_limit", info->limitation.created_at_upper_limit) && ok;
     }
     if (info->limitation.default_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit);
+        ok = cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit) != NULL && ok;
     }
-    cJSON_AddItemToObject(obj, "limitation", limitation_obj);
+    ok = add_member(obj, "limitation", limitation_obj) && ok;
 
     if (info->retention_count > 0 && info->retention) {
         cJSON* retention_arr = cJSON_CreateArray();
@@ -325,50 +346,56 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             if (info->retention[i].kinds_count > 0) {
                 cJSON* kinds_arr = cJSON_CreateArray();
                 for (size_t j = 0; j < info->retention[i].kinds_count; j++) {
-                    cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->retention[i].kinds[j]));
+                    ok = add_item(kinds_arr, cJSON_CreateNumber(info->retention[i].kinds[j])) && ok;
                 }
-                cJSON_AddItemToObject(ret_obj, "kinds", kinds_arr);
+                ok = add_member(ret_obj, "kinds", kinds_arr) && ok;
             }
             if (info->retention[i].time != 0) {
-                add_int64(ret_obj, "time", info->retention[i].time);
+                ok = add_int64(ret_obj, "time", info->retention[i].time) && ok;
             }
             if (info->retention[i].count > 0) {
-                cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count);
+                ok = cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count) != NULL && ok;
             }
-            cJSON_AddItemToArray(retention_arr, ret_obj);
+            ok = add_item(retention_arr, ret_obj) && ok;
         }
-        cJSON_AddItemToObject(obj, "retention", retention_arr);
+        ok = add_member(obj, "retention", retention_arr) && ok;
     }
 
     if (info->relay_countries_count > 0 && info->relay_countries) {
         cJSON* countries_arr = cJSON_CreateArray();
         for (size_t i = 0; i < info->relay_countries_count; i++) {
-            cJSON_AddItemToArray(countries_arr, cJSON_CreateString(info->relay_countries[i]));
+            if (info->relay_countries[i]) {
+                ok = add_item(countries_arr, cJSON_CreateString(info->relay_countries[i])) && ok;
+            }
         }
-        cJSON_AddItemToObject(obj, "relay_countries", countries_arr);
+        ok = add_member(obj, "relay_countries", countries_arr) && ok;
     }
 
     if (info->language_tags_count > 0 && info->language_tags) {
         cJSON* langs_arr = cJSON_CreateArray();
         for (size_t i = 0; i < info->language_tags_count; i++) {
-            cJSON_AddItemToArray(langs_arr, cJSON_CreateString(info->language_tags[i]));
+            if (info->language_tags[i]) {
+                ok = add_item(langs_arr, cJSON_CreateString(info->language_tags[i])) && ok;
+            }
         }
-        cJSON_AddItemToObject(obj, "language_tags", langs_arr);
+        ok = add_member(obj, "language_tags", langs_arr) && ok;
     }
 
     if (info->tags_count > 0 && info->tags) {
         cJSON* tags_arr = cJSON_CreateArray();
         for (size_t i = 0; i < info->tags_count; i++) {
-            cJSON_AddItemToArray(tags_arr, cJSON_CreateString(info->tags[i]));
+            if (info->tags[i]) {
+                ok = add_item(tags_arr, cJSON_CreateString(info->tags[i])) && ok;
+            }
         }
-        cJSON_AddItemToObject(obj, "tags", tags_arr);
+        ok = add_member(obj, "tags", tags_arr) && ok;
     }
 
     if (info->posting_policy) {
-        cJSON_AddStringToObject(obj, "posting_policy", info->posting_policy);
+        ok = cJSON_AddStringToObject(obj, "posting_policy", info->posting_policy) != NULL && ok;
     }
     if (info->payments_url) {
-        cJSON_AddStringToObject(obj, "payments_url", info->payments_url);
+        ok = cJSON_AddStringToObject(obj, "payments_url", info->payments_url) != NULL && ok;
     }
 
     bool has_fees = (info->fees.admission_count > 0 ||
@@ -381,29 +408,29 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             cJSON* admission_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.admission_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                add_uint64(fee_obj, "amount", info->fees.admission[i].amount);
+                ok = add_uint64(fee_obj, "amount", info->fees.admission[i].amount) && ok;
                 if (info->fees.admission[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit);
+                    ok = cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit) != NULL && ok;
                 }
-                cJSON_AddItemToArray(admission_arr, fee_obj);
+                ok = add_item(admission_arr, fee_obj) && ok;
             }
-            cJSON_AddItemToObject(fees_obj, "admission", admission_arr);
+            ok = add_member(fees_obj, "admission", admission_arr) && ok;
         }
 
         if (info->fees.subscription_count > 0 && info->fees.subscription) {
             cJSON* sub_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.subscription_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                add_uint64(fee_obj, "amount", info->fees.subscription[i].amount);
+                ok = add_uint64(fee_obj, "amount", info->fees.subscription[i].amount) && ok;
                 if (info->fees.subscription[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit);
+                    ok = cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit) != NULL && ok;
                 }
                 if (info->fees.subscription[i].period > 0) {
-                    cJSON_AddNumberToObject(fee_obj, "period", info->fees.subscription[i].period);
+                    ok = cJSON_AddNumberToObject(fee_obj, "period", info->fees.subscription[i].period) != NULL && ok;
                 }
-                cJSON_AddItemToArray(sub_arr, fee_obj);
+                ok = add_item(sub_arr, fee_obj) && ok;
             }
-            cJSON_AddItemToObject(fees_obj, "subscription", sub_arr);
+            ok = add_member(fees_obj, "subscription", sub_arr) && ok;
         }
 
         if (info->fees.publication_count > 0 && info->fees.publication) {
@@ -413,23 +440,23 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
                 if (info->fees.publication[i].kinds_count > 0 && info->fees.publication[i].kinds) {
                     cJSON* kinds_arr = cJSON_CreateArray();
                     for (size_t j = 0; j < info->fees.publication[i].kinds_count; j++) {
-                        cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->fees.publication[i].kinds[j]));
+                        ok = add_item(kinds_arr, cJSON_CreateNumber(info->fees.publication[i].kinds[j])) && ok;
                     }
-                    cJSON_AddItemToObject(fee_obj, "kinds", kinds_arr);
+                    ok = add_member(fee_obj, "kinds", kinds_arr) && ok;
                 }
-                add_uint64(fee_obj, "amount", info->fees.publication[i].amount);
+                ok = add_uint64(fee_obj, "amount", info->fees.publication[i].amount) && ok;
                 if (info->fees.publication[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit);
+                    ok = cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit) != NULL && ok;
                 }
-                cJSON_AddItemToArray(pub_arr, fee_obj);
+                ok = add_item(pub_arr, fee_obj) && ok;
             }
-            cJSON_AddItemToObject(fees_obj, "publication", pub_arr);
+            ok = add_member(fees_obj, "publication", pub_arr) && ok;
         }
 
-        cJSON_AddItemToObject(obj, "fees", fees_obj);
+        ok = add_member(obj, "fees", fees_obj) && ok;
     }
 
-    char* json_str = cJSON_PrintUnformatted(obj);
+    char* json_str = ok ? cJSON_PrintUnformatted(obj) : NULL;
     cJSON_Delete(obj);
 
     if (!json_str) {
-- 
2.43.0


From 3e7ff17e1c4afd0028db25b2df002dd2e773e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 057/104] fix: the list of NIPs survives a set that runs out of
 memory

---
 src/relay_nip11.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index a2440d9..84facf1 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -48,22 +48,18 @@ nostr_relay_error_t nostr_relay_info_set_nips(nostr_relay_info_t* info, const in
         return NOSTR_RELAY_ERR_MISSING_FIELD;
     }
 
-    free(info->supported_nips);
-    info->supported_nips = NULL;
-    info->supported_nips_count = 0;
-
-    if (count == 0 || !nips) {
-        return NOSTR_RELAY_OK;
-    }
-
-    int32_t* copy = malloc(count * sizeof(int32_t));
-    if (!copy) {
-        return NOSTR_RELAY_ERR_MEMORY;
+    int32_t* copy = NULL;
+    if (count > 0 && nips) {
+        copy = malloc(count * sizeof(int32_t));
+        if (!copy) {
+            return NOSTR_RELAY_ERR_MEMORY;
+        }
+        memcpy(copy, nips, count * sizeof(int32_t));
     }
 
-    memcpy(copy, nips, count * sizeof(int32_t));
+    free(info->supported_nips);
     info->supported_nips = copy;
-    info->supported_nips_count = count;
+    info->supported_nips_count = copy ? count : 0;
     return NOSTR_RELAY_OK;
 }
 
-- 
2.43.0


From 2efb34894b28b77878048508301f6704eecda915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 058/104] fix: a mention is not left out of the quote tags when
 memory runs out

---
 src/bech32.c | 20 ++++++++------------
 src/nip18.c  |  3 +++
 src/nip21.c  |  8 ++++++--
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 6eab89c..128ad15 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -11,8 +11,7 @@ const char BECH32_CHARSET[33] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
 
 const uint32_t BECH32_GENERATOR[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
 
-uint32_t bech32_polymod(const uint8_t* values, size_t len) {
-    uint32_t chk = 1;
+static uint32_t polymod_continue(uint32_t chk, const uint8_t* values, size_t len) {
     for (size_t i = 0; i < len; i++) {
         uint32_t top = chk >> 25;
         chk = ((chk & 0x1ffffff) << 5) ^ values[i];
@@ -23,6 +22,10 @@ uint32_t bech32_polymod(const uint8_t* values, size_t len) {
     return chk;
 }
 
+uint32_t bech32_polymod(const uint8_t* values, size_t len) {
+    return polymod_continue(1, values, len);
+}
+
 int bech32_hrp_expand(const char* hrp, uint8_t* ret, size_t ret_size) {
     size_t hrp_len = strlen(hrp);
     if (hrp_len > (SIZE_MAX - 1) / 2) return -1;
@@ -44,16 +47,9 @@ int bech32_verify_checksum(const char* hrp, const uint8_t* data, size_t data_len
     int hrp_len = bech32_hrp_expand(hrp, hrp_expanded, sizeof(hrp_expanded));
     if (hrp_len < 0) return 0;
 
-    if ((size_t)hrp_len > SIZE_MAX - data_len) return 0;
-    uint8_t* combined = malloc((size_t)hrp_len + data_len);
-    if (!combined) return 0;
-
-    memcpy(combined, hrp_expanded, hrp_len);
-    memcpy(combined + hrp_len, data, data_len);
-
-    int result = bech32_polymod(combined, (size_t)hrp_len + data_len) == 1;
-    free(combined);
-    return result;
+    /* no allocation: running out of memory must not look like a bad checksum */
+    uint32_t chk = polymod_continue(1, hrp_expanded, (size_t)hrp_len);
+    return polymod_continue(chk, data, data_len) == 1;
 }
 
 int bech32_create_checksum(const char* hrp, const uint8_t* data, size_t data_len, uint8_t* checksum) {
diff --git a/src/nip18.c b/src/nip18.c
index 4e34a28..1558662 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -212,6 +212,9 @@ nostr_error_t nostr_quote_tags_from_content(nostr_event* event)
         nostr_error_t err = nostr_uri_parse(uri, &parsed);
         free(uri);
 
+        if (err == NOSTR_ERR_MEMORY)
+            return err;
+
         if (err != NOSTR_OK) {
             pos++;
             continue;
diff --git a/src/nip21.c b/src/nip21.c
index 411e5c0..a339813 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -120,6 +120,7 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                                uint8_t* author, int* has_author,
                                uint32_t* kind, int* has_kind) {
     size_t pos = 0;
+    nostr_error_t err = NOSTR_ERR_ENCODING;
     *relay_count = 0;
     if (has_author) *has_author = 0;
     if (has_kind) *has_kind = 0;
@@ -144,7 +145,10 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                         break;
                     }
                     relays[*relay_count] = malloc(len + 1);
-                    if (!relays[*relay_count]) goto cleanup_error;
+                    if (!relays[*relay_count]) {
+                        err = NOSTR_ERR_MEMORY;
+                        goto cleanup_error;
+                    }
                     memcpy(relays[*relay_count], data + pos, len);
                     relays[*relay_count][len] = '\0';
                     (*relay_count)++;
@@ -179,7 +183,7 @@ cleanup_error:
         }
         *relay_count = 0;
     }
-    return NOSTR_ERR_ENCODING;
+    return err;
 }
 
 static size_t build_tlv(uint8_t* out, size_t out_size,
-- 
2.43.0


From 432f02f62fdb59f3e71dffdddc937cb36e873fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:50 +0000
Subject: [PATCH 059/104] fix: NIP-44 plaintexts of more than 256 bytes are
 padded to the lengths of NIP-44

---
 src/nip44.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 40ff0d3..b26eca7 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -41,14 +41,14 @@ static uint32_t calc_padded_len(uint32_t unpadded_len)
         return 32;
     }
     
+    /* the first power of two that is not less than the length */
     next_power = 1;
-    while (next_power <= unpadded_len) {
+    while (next_power < unpadded_len) {
         if (next_power > (UINT32_MAX >> 1)) {
             return 0;
         }
         next_power <<= 1;
     }
-    next_power >>= 1;
     
     if (next_power <= 256) {
         chunk = 32;
-- 
2.43.0


From bc4c9c7f0039a4fe50546af4488804c125122d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:50 +0000
Subject: [PATCH 060/104] fix: NIP-44 messages of the greatest length can be
 opened

---
 src/nip44.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip44.c b/src/nip44.c
index b26eca7..2460ef7 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -397,7 +397,7 @@ nostr_error_t nostr_nip44_decrypt(const nostr_privkey* recipient_privkey, const
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (payload_len < 97 || payload_len > 65600) {
+    if (payload_len < 97 || payload_len > 1 + NIP44_NONCE_SIZE + 2 + 65536 + NC_ENCRYPTION_MAC_SIZE) {
         free(payload);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From 1827fe41fac0f7a81334054ca7b19a6c25f1cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:50 +0000
Subject: [PATCH 061/104] fix: text that is not base64 is refused and its
 buffer freed once

---
 src/nip44.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 2460ef7..18fe805 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -140,6 +140,7 @@ static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 
     if (mbedtls_base64_encode((unsigned char*)*output, olen + 1, &olen, input, input_len) != 0) {
         free(*output);
+        *output = NULL;
         return -1;
     }
 
@@ -161,6 +162,7 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
 
     if (mbedtls_base64_decode(*output, olen, output_len, (const unsigned char*)input, input_len) != 0) {
         free(*output);
+        *output = NULL;
         return -1;
     }
 
@@ -211,6 +213,7 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
 
     if (mbedtls_base64_decode(*output, olen, output_len, (const unsigned char*)input, input_len) != 0) {
         free(*output);
+        *output = NULL;
         return -1;
     }
 
@@ -233,13 +236,15 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
     bmem = BIO_push(b64, bmem);
     BIO_set_flags(bmem, BIO_FLAGS_BASE64_NO_NL);
 
-    *output_len = BIO_read(bmem, *output, input_len);
+    int decoded_len = BIO_read(bmem, *output, input_len);
     BIO_free_all(bmem);
 
-    if (*output_len <= 0) {
+    if (decoded_len <= 0) {
         free(*output);
+        *output = NULL;
         return -1;
     }
+    *output_len = (size_t)decoded_len;
 
     return 0;
 }
-- 
2.43.0


From a20904b1dd1d4a09ccd9d88e0a9e3325f819f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:50 +0000
Subject: [PATCH 062/104] fix: base64 is not skipped when its filter cannot be
 allocated

---
 src/nip44.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 18fe805..df24cfb 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -177,11 +177,18 @@ static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 
     b64 = BIO_new(BIO_f_base64());
     bmem = BIO_new(BIO_s_mem());
+    if (!b64 || !bmem) {
+        BIO_free_all(b64);
+        BIO_free_all(bmem);
+        return -1;
+    }
     b64 = BIO_push(b64, bmem);
     BIO_set_flags(b64, BIO_FLAGS_BASE64_NO_NL);
 
-    BIO_write(b64, input, input_len);
-    BIO_flush(b64);
+    if (BIO_write(b64, input, input_len) != (int)input_len || BIO_flush(b64) != 1) {
+        BIO_free_all(b64);
+        return -1;
+    }
     BIO_get_mem_ptr(b64, &bptr);
 
     *output = malloc(bptr->length + 1);
@@ -233,6 +240,13 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
 
     bmem = BIO_new_mem_buf(input, input_len);
     b64 = BIO_new(BIO_f_base64());
+    if (!b64 || !bmem) {
+        BIO_free_all(b64);
+        BIO_free_all(bmem);
+        free(*output);
+        *output = NULL;
+        return -1;
+    }
     bmem = BIO_push(b64, bmem);
     BIO_set_flags(bmem, BIO_FLAGS_BASE64_NO_NL);
 
-- 
2.43.0


From c3d286459030d474c336f65562e596717a24483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:08 +0000
Subject: [PATCH 063/104] fix: a failed start of noscrypt is not taken for a
 started one

---
 src/key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/key.c b/src/key.c
index e213155..f802fa8 100644
--- a/src/key.c
+++ b/src/key.c
@@ -226,11 +226,13 @@ nostr_error_t nostr_init(void)
 
     uint8_t entropy[NC_CONTEXT_ENTROPY_SIZE];
     if (nostr_random_bytes(entropy, NC_CONTEXT_ENTROPY_SIZE) != 1) {
+        nc_ctx = NULL;
         unlock_ctx_init();
         return NOSTR_ERR_MEMORY;
     }
 
     if (NCInitContext(nc_ctx, entropy) != NC_SUCCESS) {
+        nc_ctx = NULL;
         unlock_ctx_init();
         return NOSTR_ERR_MEMORY;
     }
-- 
2.43.0


From d2fd05341f94a0154db9533687cd31a8f8b2f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:25 +0000
Subject: [PATCH 064/104] fix: an amount that wraps around does not pass a
 session's budget

---
 src/nip47_session.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 074faad..de58af4 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -276,7 +276,8 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
         perm->reset_time = now + perm->reset_interval_secs;
     }
     
-    if (perm->limit_msats > 0 && perm->used_msats + amount_msats > perm->limit_msats) {
+    if (perm->limit_msats > 0 &&
+        (amount_msats > perm->limit_msats || perm->used_msats > perm->limit_msats - amount_msats)) {
         pthread_mutex_unlock(&session->lock);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From ad3d898de7a44959de9ad25f629b3951902c2802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:26 +0000
Subject: [PATCH 065/104] fix: a session is found by its whole id only

Shorter texts were read beyond their end, longer ones were taken for the id they start with.
---
 src/nip47_session.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index de58af4..e144a54 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -38,6 +38,10 @@ static int rate_limit_count = 0;
 
 static nwc_session_t* find_session(const char* session_id)
 {
+    if (strnlen(session_id, 65) != 64) {
+        return NULL;
+    }
+
     for (size_t i = 0; i < max_sessions; i++) {
         if (sessions[i].active && nostr_constant_time_memcmp(sessions[i].session_id, session_id, 64) == 0) {
             return &sessions[i];
-- 
2.43.0


From 714e04e00f30426d6d41a5ee57c2677b6bdd5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:26 +0000
Subject: [PATCH 066/104] fix: a session's permissions have room when
 max_permissions grows

The list was sized once by the limit at that time and overflowed under a greater one; a name that could not be copied was compared as NULL.
---
 src/nip47_session.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index e144a54..471aeed 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -214,16 +214,20 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
         return NOSTR_ERR_MEMORY;
     }
     
-    if (session->permissions == NULL) {
-        session->permissions = calloc(max_perms, sizeof(permission_t));
-        if (!session->permissions) {
-            pthread_mutex_unlock(&session->lock);
-            return NOSTR_ERR_MEMORY;
-        }
+    permission_t* permissions = realloc(session->permissions,
+                                        (session->permission_count + 1) * sizeof(permission_t));
+    if (!permissions) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_MEMORY;
     }
+    session->permissions = permissions;
     
     permission_t* perm = &session->permissions[session->permission_count];
     perm->name = strdup(permission);
+    if (!perm->name) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_MEMORY;
+    }
     perm->limit_msats = limit_msats;
     perm->reset_interval_secs = reset_interval_secs;
     perm->reset_time = time(NULL) + reset_interval_secs;
-- 
2.43.0


From 659efa2563fb60beb7ed369429c8bca779b950ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:26 +0000
Subject: [PATCH 067/104] fix: a session that cannot be allocated is refused

A failed table allocation crashed, a failed copy of the id left a session nobody could name.
---
 src/nip47_session.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 471aeed..7af33f8 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -93,13 +93,14 @@ nostr_error_t nostr_nip47_session_init()
     
     if (!sessions_initialized) {
         const nostr_config* config = nostr_config_get_current();
-        max_sessions = config ? config->max_sessions : 100;
+        size_t count = config ? config->max_sessions : 100;
         
-        sessions = calloc(max_sessions, sizeof(nwc_session_t));
+        sessions = calloc(count, sizeof(nwc_session_t));
         if (!sessions) {
             pthread_mutex_unlock(&sessions_lock);
             return NOSTR_ERR_MEMORY;
         }
+        max_sessions = count;
         
         for (size_t i = 0; i < max_sessions; i++) {
             sessions[i].active = 0;
@@ -122,12 +123,13 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!sessions_initialized) {
-        nostr_nip47_session_init();
+    nostr_error_t err = nostr_nip47_session_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
     
     struct nwc_connection* conn = NULL;
-    nostr_error_t err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
+    err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
     if (err != NOSTR_OK) {
         return err;
     }
@@ -171,6 +173,15 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
         nostr_nip47_free_connection(conn);
         return NOSTR_ERR_MEMORY;
     }
+
+    char* id_copy = strdup(session->session_id);
+    if (!id_copy) {
+        pthread_mutex_unlock(&session->lock);
+        pthread_mutex_unlock(&sessions_lock);
+        nostr_nip47_free_connection(conn);
+        return NOSTR_ERR_MEMORY;
+    }
+
     session->connection = conn;
     session->created_at = time(NULL);
     session->last_used = session->created_at;
@@ -180,7 +191,7 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
     session->active = 1;
     session->permission_count = 0;
     
-    *session_id = strdup(session->session_id);
+    *session_id = id_copy;
     
     pthread_mutex_unlock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
-- 
2.43.0


From 622728171a38f1be91f3dd6e25374120803560db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:26 +0000
Subject: [PATCH 068/104] fix: a session being destroyed is not found by other
 threads

A call that found it before waited for its lock and then worked on the freed session, or on another one created in its place.
---
 src/nip47_session.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 7af33f8..6d5c032 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -374,10 +374,11 @@ nostr_error_t nostr_nip47_session_destroy(const char* session_id)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
+    /* no longer to be found once the table is unlocked */
     pthread_mutex_lock(&session->lock);
+    session->active = 0;
     pthread_mutex_unlock(&sessions_lock);
     
-    session->active = 0;
     if (session->connection) {
         nostr_nip47_free_connection(session->connection);
         session->connection = NULL;
-- 
2.43.0


From d22471c6ca402b98ea8ceaeb5f047880eba5eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:26 +0000
Subject: [PATCH 069/104] fix: an expired session is not revived by extending
 it

---
 src/nip47_session.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 6d5c032..5f41c2b 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -354,6 +354,11 @@ nostr_error_t nostr_nip47_session_extend(const char* session_id, uint32_t additi
     pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
 
+    if (session->expires_at < time(NULL)) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
     session->expires_at += additional_secs;
 
     pthread_mutex_unlock(&session->lock);
-- 
2.43.0


From 01424c29c81f82f05e5a2e2d8db91a9fa4662d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:24 +0000
Subject: [PATCH 070/104] fix: a gift wrap without randomness is refused, not
 dated now

---
 src/nip59.c | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/nip59.c b/src/nip59.c
index b78e3fc..ebf9105 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -6,6 +6,7 @@
 #include <string.h>
 #include <time.h>
 #include <openssl/rand.h>
+#include <openssl/err.h>
 
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
 #include <noscrypt.h>
@@ -22,16 +23,20 @@ extern secp256k1_context* secp256k1_ctx;
 
 extern nostr_error_t nostr_init(void);
 
-static int64_t randomize_timestamp(int64_t base_time)
+/* Fails closed as NIP-17 does: without randomness no event is made rather than
+ * one that carries the time it was sent. */
+static nostr_error_t randomize_timestamp(int64_t base_time, int64_t* out)
 {
     uint32_t random_offset;
     
     if (RAND_bytes((unsigned char*)&random_offset, sizeof(random_offset)) != 1) {
-        return base_time;
+        ERR_clear_error();
+        return NOSTR_ERR_MEMORY;
     }
     
     random_offset %= TWO_DAYS_SECONDS;
-    return base_time - random_offset;
+    *out = base_time - random_offset;
+    return NOSTR_OK;
 }
 
 nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event* event_to_wrap,
@@ -66,7 +71,12 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     seal->kind = KIND_SEAL;
-    seal->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &seal->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(seal);
+        free(event_json);
+        return err;
+    }
     
     /* Derive author's pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -168,7 +178,14 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        *gift_wrap = NULL;
+        free(encrypted_seal);
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
@@ -357,7 +374,13 @@ nostr_error_t nostr_nip59_create_seal(nostr_event** seal, const nostr_event* rum
     }
     
     (*seal)->kind = KIND_SEAL;
-    (*seal)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*seal)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*seal);
+        free(encrypted_rumor);
+        *seal = NULL;
+        return err;
+    }
     
     /* Derive author pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -473,7 +496,14 @@ nostr_error_t nostr_nip59_create_gift_wrap(nostr_event** gift_wrap, const nostr_
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        *gift_wrap = NULL;
+        free(encrypted_seal);
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
-- 
2.43.0


From 64611c82e97dacb8e92910cbdca09ce74b0a28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:24 +0000
Subject: [PATCH 071/104] fix: an unsigned event is unwrapped only for the
 author who sealed it

Anybody could seal a rumor under another's name.
---
 src/nip59.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/nip59.c b/src/nip59.c
index ebf9105..0db3431 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -296,9 +296,23 @@ nostr_error_t nostr_nip59_unwrap_event(const nostr_event* gift_wrap, const nostr
     err = nostr_event_from_json(decrypted_event_json, unwrapped_event);
     secure_wipe(decrypted_event_json, decrypted_event_len);
     free(decrypted_event_json);
-    nostr_event_destroy(seal);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(seal);
+        return err;
+    }
     
-    return err;
+    /* The seal vouches for its author only: what somebody else is said to have
+     * written must carry that author's own signature. */
+    if (memcmp(&(*unwrapped_event)->pubkey, &seal->pubkey, sizeof(nostr_key)) != 0 &&
+        nostr_event_verify(*unwrapped_event) != NOSTR_OK) {
+        nostr_event_destroy(*unwrapped_event);
+        *unwrapped_event = NULL;
+        nostr_event_destroy(seal);
+        return NOSTR_ERR_INVALID_EVENT;
+    }
+    
+    nostr_event_destroy(seal);
+    return NOSTR_OK;
 }
 
 nostr_error_t nostr_nip59_create_rumor(nostr_event** rumor, uint16_t kind, const nostr_key* pubkey,
-- 
2.43.0


From 91772191ef8e35e9c29c7d4fd707a58b22f3c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:24 +0000
Subject: [PATCH 072/104] fix: the id of a direct message covers its tags

---
 src/nip17.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nip17.c b/src/nip17.c
index f6c9d75..076c331 100644
--- a/src/nip17.c
+++ b/src/nip17.c
@@ -379,6 +379,13 @@ nostr_error_t nostr_nip17_send_dm(nostr_event** dm, const char* content,
         }
     }
     
+    /* the tags are part of what the id stands for */
+    err = nostr_event_compute_id(rumor);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(rumor);
+        return err;
+    }
+    
     err = nostr_nip17_create_seal(&seal, rumor, sender_privkey, recipient_pubkey);
     nostr_event_destroy(rumor);
     if (err != NOSTR_OK) {
-- 
2.43.0


From c5e55ec9a26aa3a7a8bad882793a05e62d0dba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:24 +0000
Subject: [PATCH 073/104] fix: the first direct message of a process starts the
 library

---
 src/nip17.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nip17.c b/src/nip17.c
index 076c331..bf1c5f5 100644
--- a/src/nip17.c
+++ b/src/nip17.c
@@ -310,6 +310,13 @@ nostr_error_t nostr_nip17_send_dm(nostr_event** dm, const char* content,
     NCSecretKey nc_secret;
     NCPublicKey nc_public;
     
+    if (!nc_ctx) {
+        err = nostr_init();
+        if (err != NOSTR_OK) {
+            return err;
+        }
+    }
+    
     memcpy(nc_secret.key, sender_privkey->data, NC_SEC_KEY_SIZE);
     
     if (NCGetPublicKey(nc_ctx, &nc_secret, &nc_public) != NC_SUCCESS) {
-- 
2.43.0


From 0f732aefab2937021eb4a83d8433bd1ad452da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 074/104] fix: the first gift wrap of a process starts the
 library

---
 src/nip59.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nip59.c b/src/nip59.c
index 0db3431..8297cd7 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -83,6 +83,15 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     NCSecretKey nc_secret;
     NCPublicKey nc_public;
     
+    if (!nc_ctx) {
+        err = nostr_init();
+        if (err != NOSTR_OK) {
+            nostr_event_destroy(seal);
+            free(event_json);
+            return err;
+        }
+    }
+    
     memcpy(nc_secret.key, author_privkey->data, NC_SEC_KEY_SIZE);
     
     if (NCGetPublicKey(nc_ctx, &nc_secret, &nc_public) != NC_SUCCESS) {
-- 
2.43.0


From cb054902718d421c26345c05ab4618244c2daff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 075/104] fix: a remote-signing result is sent as the string it
 is

NIP-46 results are strings. A result that happened to start like JSON was
sent as that JSON value instead: the public key 79be66... became the
number 79.
---
 src/nip46.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index b9005d4..96547ad 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -89,12 +89,7 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
     if (response->error) {
         cJSON_AddStringToObject(content_obj, "error", response->error);
     } else if (response->result) {
-        cJSON* result_json = cJSON_Parse(response->result);
-        if (result_json) {
-            cJSON_AddItemToObject(content_obj, "result", result_json);
-        } else {
-            cJSON_AddStringToObject(content_obj, "result", response->result);
-        }
+        cJSON_AddStringToObject(content_obj, "result", response->result);
     }
 
     char* content_str = cJSON_PrintUnformatted(content_obj);
-- 
2.43.0


From 3b83001ae85f03359e88e9df8ca189ed94908316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 076/104] fix: a remote-signing response that cannot be
 completed is refused

Without memory the result, the error or the p tag was left out of a
response that was signed all the same.
---
 src/nip46.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 96547ad..079f0e2 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -84,15 +84,15 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
         return NOSTR_ERR_MEMORY;
     }
 
-    cJSON_AddStringToObject(content_obj, "id", response->id);
+    int complete = cJSON_AddStringToObject(content_obj, "id", response->id) != NULL;
 
     if (response->error) {
-        cJSON_AddStringToObject(content_obj, "error", response->error);
+        complete = cJSON_AddStringToObject(content_obj, "error", response->error) && complete;
     } else if (response->result) {
-        cJSON_AddStringToObject(content_obj, "result", response->result);
+        complete = cJSON_AddStringToObject(content_obj, "result", response->result) && complete;
     }
 
-    char* content_str = cJSON_PrintUnformatted(content_obj);
+    char* content_str = complete ? cJSON_PrintUnformatted(content_obj) : NULL;
     cJSON_Delete(content_obj);
     if (!content_str) {
         return NOSTR_ERR_MEMORY;
@@ -124,9 +124,10 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
     char pubkey_hex[65];
     nostr_key_to_hex(recipient_pubkey, pubkey_hex, sizeof(pubkey_hex));
     const char* p_tag[] = {"p", pubkey_hex};
-    nostr_event_add_tag(*event_out, p_tag, 2);
-
-    err = nostr_event_compute_id(*event_out);
+    err = nostr_event_add_tag(*event_out, p_tag, 2);
+    if (err == NOSTR_OK) {
+        err = nostr_event_compute_id(*event_out);
+    }
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event_out);
         *event_out = NULL;
-- 
2.43.0


From d7f3da85502fec570dec27a71b0a8bcfc1261f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 077/104] fix: a remote-signing request whose id or method does
 not fit is refused

Both were cut to the size of the struct: the answer then carried an id
the client never sent, and a cut method could be another method.
---
 src/nip46.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nip46.c b/src/nip46.c
index 079f0e2..6f2ac55 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -42,11 +42,20 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
 
     cJSON* id = cJSON_GetObjectItemCaseSensitive(root, "id");
     if (id && cJSON_IsString(id)) {
+        if (strlen(id->valuestring) >= sizeof(request->id)) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
         strncpy(request->id, id->valuestring, sizeof(request->id) - 1);
     }
 
     cJSON* method = cJSON_GetObjectItemCaseSensitive(root, "method");
     if (method && cJSON_IsString(method)) {
+        if (strlen(method->valuestring) >= sizeof(request->method)) {
+            memset(request->id, 0, sizeof(request->id));
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
         strncpy(request->method, method->valuestring, sizeof(request->method) - 1);
     }
 
-- 
2.43.0


From 17b8754fe3bb7b51be74708eceec5662ee105898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 078/104] fix: a remote-signing request is not handed out
 without its params

---
 src/nip46.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 6f2ac55..1a221a8 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -62,10 +62,12 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
     cJSON* params = cJSON_GetObjectItemCaseSensitive(root, "params");
     if (params) {
         char* params_str = cJSON_PrintUnformatted(params);
-        if (params_str) {
-            request->params = params_str;
-            request->params_len = strlen(params_str);
+        if (!params_str) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_MEMORY;
         }
+        request->params = params_str;
+        request->params_len = strlen(params_str);
     }
 
     cJSON_Delete(root);
-- 
2.43.0


From e7699d3b151a89e5e48eb35e9b7c3049609097dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 079/104] fix: a remote-signing request is a JSON object

---
 src/nip46.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nip46.c b/src/nip46.c
index 1a221a8..d30ef82 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -36,7 +36,8 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
 #ifdef HAVE_CJSON
     cJSON* root = cJSON_Parse(decrypted);
     free(decrypted);
-    if (!root) {
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         return NOSTR_ERR_JSON_PARSE;
     }
 
-- 
2.43.0


From d013c179d486e3dddfbd5a8bfddc5cd91bf1c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 080/104] fix: keys in a wallet connection are hexadecimal
 digits

strtol also takes a blank or a sign in front of a digit.
---
 src/nip47.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index e8dd0cb..0c47c1d 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -116,10 +116,8 @@ static int hex_decode(const char* hex, uint8_t* out, size_t out_len)
     
     for (size_t i = 0; i < out_len; i++) {
         char byte[3] = {hex[i*2], hex[i*2+1], 0};
-        char* end;
-        long val = strtol(byte, &end, 16);
-        if (end != byte + 2) return -1;
-        out[i] = (uint8_t)val;
+        if (!isxdigit((unsigned char)byte[0]) || !isxdigit((unsigned char)byte[1])) return -1;
+        out[i] = (uint8_t)strtol(byte, NULL, 16);
     }
     
     return 0;
@@ -137,10 +135,8 @@ static char* url_decode(const char* src)
     for (size_t i = 0; i < len; i++) {
         if (src[i] == '%' && i + 2 < len) {
             char hex[3] = {src[i+1], src[i+2], 0};
-            char* end;
-            long val = strtol(hex, &end, 16);
-            if (end == hex + 2) {
-                dst[j++] = (char)val;
+            if (isxdigit((unsigned char)hex[0]) && isxdigit((unsigned char)hex[1])) {
+                dst[j++] = (char)strtol(hex, NULL, 16);
                 i += 2;
                 continue;
             }
-- 
2.43.0


From 91ef73151ba841a996864b5f1bc9b629ea061f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 081/104] fix: a repeated lud16 in a wallet connection is not
 leaked

---
 src/nip47.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nip47.c b/src/nip47.c
index 0c47c1d..e26a646 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -236,6 +236,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                 has_secret = 1;
             }
             else if (strcmp(param, "lud16") == 0) {
+                free(conn->lud16);
                 conn->lud16 = url_decode(value);
                 if (!conn->lud16) {
                     free(params);
-- 
2.43.0


From 7c8fce42941643654ac99fe00b775dc96fbc34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 082/104] fix: the first wallet request of a process starts the
 library

---
 src/nip47.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nip47.c b/src/nip47.c
index e26a646..af14397 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -417,7 +417,12 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    nostr_error_t err = nostr_event_create(event);
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
+    }
+    
+    err = nostr_event_create(event);
     if (err != NOSTR_OK) {
         return err;
     }
-- 
2.43.0


From 28408e81bf3cf5baee7b72f21569d3175d97621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 083/104] fix: a wallet request carries its method and
 parameters whole

Parameters beyond 8 kB were cut, so that the wallet received text that is
not JSON (or, for a long method, a different method), signed and encrypted
as if nothing had happened.
---
 src/nip47.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index af14397..845aee3 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -497,9 +497,6 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
         }
     }
     
-    char escaped_method[256];
-    nip47_json_escape(escaped_method, sizeof(escaped_method), method);
-
 #ifdef HAVE_CJSON
     {
         cJSON* params_parsed = cJSON_Parse(params_json);
@@ -518,8 +515,20 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     }
 #endif
 
-    char payload[8192];
-    snprintf(payload, sizeof(payload), "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    size_t escaped_size = strlen(method) * 6 + 1;
+    size_t payload_size = escaped_size + strlen(params_json) + sizeof("{\"method\":\"\",\"params\":}");
+    char* escaped_method = malloc(escaped_size);
+    char* payload = malloc(payload_size);
+    if (!escaped_method || !payload) {
+        free(escaped_method);
+        free(payload);
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_MEMORY;
+    }
+    nip47_json_escape(escaped_method, escaped_size, method);
+    snprintf(payload, payload_size, "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    free(escaped_method);
     
     char* encrypted = NULL;
     if (use_nip44) {
@@ -531,6 +540,7 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     } else {
         err = NOSTR_ERR_NOT_SUPPORTED;
     }
+    free(payload);
     
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
-- 
2.43.0


From 5014122365a73dd6956ea6785ad8a15f409a7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 084/104] fix: wallet request parameters with something behind
 them are refused

Only the start had to be JSON, but the whole text went into the request:
parameters {},"method":"pay_invoice" added a second method to it.
---
 src/nip47.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip47.c b/src/nip47.c
index 845aee3..b1edf89 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -499,7 +499,7 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     
 #ifdef HAVE_CJSON
     {
-        cJSON* params_parsed = cJSON_Parse(params_json);
+        cJSON* params_parsed = cJSON_ParseWithOpts(params_json, NULL, 1);
         if (!params_parsed) {
             nostr_event_destroy(*event);
             *event = NULL;
-- 
2.43.0


From 535ada740a97a2452a9538231bb97af0fd942e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 085/104] fix: a wallet response is opened with the key of its
 author

The p tag of a response names the client (NIP-47), so a response made by
the book could not be opened, and anyone could name whose words they are.
---
 src/nip47.c | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index b1edf89..139427f 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -573,21 +573,9 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    nostr_key service_pubkey = {0};
-    int found_p_tag = 0;
-    
-    for (size_t i = 0; i < event->tags_count; i++) {
-        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], "p") == 0) {
-            if (hex_decode(event->tags[i].values[1], service_pubkey.data, 32) == 0) {
-                found_p_tag = 1;
-                break;
-            }
-        }
-    }
-    
-    if (!found_p_tag) {
-        memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
-    }
+    /* the wallet service wrote the response; its p tag names the client */
+    nostr_key service_pubkey;
+    memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
     
     char* decrypted = NULL;
     nostr_error_t err;
-- 
2.43.0


From 72c5aa2ae79ca8352aede0b936972bb2096f8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 086/104] fix: a wallet response needs no encryption tag

---
 src/nip47.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 139427f..a1eaa38 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -580,12 +580,12 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     char* decrypted = NULL;
     nostr_error_t err;
     
-    int is_nip44 = 0;
+    /* without an encryption tag, which NIP-47 does not ask of a response,
+       NIP-04 text is told by its initialisation vector */
+    int is_nip44 = event->content && strstr(event->content, "?iv=") == NULL;
     for (size_t i = 0; i < event->tags_count; i++) {
         if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], "encryption") == 0) {
-            if (strstr(event->tags[i].values[1], "nip44") != NULL) {
-                is_nip44 = 1;
-            }
+            is_nip44 = strstr(event->tags[i].values[1], "nip44") != NULL;
             break;
         }
     }
-- 
2.43.0


From 01d774abe2f63942b7a40629204b454e7c3b669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:28 +0000
Subject: [PATCH 087/104] fix: a wallet's info event is read whole or not at
 all

Without memory the lists read so far were leaked and the caller kept
pointers to freed ones; without content the reader dereferenced NULL.
---
 src/nip47.c | 196 ++++++++++++++++++----------------------------------
 1 file changed, 69 insertions(+), 127 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index a1eaa38..0918435 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -260,6 +260,48 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
     return NOSTR_OK;
 }
 
+static void free_words(char** words, size_t count)
+{
+    for (size_t i = 0; i < count; i++) {
+        free(words[i]);
+    }
+    free(words);
+}
+
+/* the words of a blank-separated list; nothing is left behind on failure */
+static int split_words(const char* text, char*** words, size_t* count)
+{
+    size_t n = 1;
+    for (const char* p = text; *p; p++) {
+        if (*p == ' ') n++;
+    }
+    
+    char* copy = strdup(text);
+    char** list = malloc(n * sizeof(char*));
+    if (!copy || !list) {
+        free(copy);
+        free(list);
+        return -1;
+    }
+    
+    n = 0;
+    char* saveptr;
+    for (char* word = strtok_r(copy, " ", &saveptr); word; word = strtok_r(NULL, " ", &saveptr)) {
+        list[n] = strdup(word);
+        if (!list[n]) {
+            free_words(list, n);
+            free(copy);
+            return -1;
+        }
+        n++;
+    }
+    free(copy);
+    
+    *words = list;
+    *count = n;
+    return 0;
+}
+
 nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** capabilities, 
                                            size_t* cap_count, char*** notifications, 
                                            size_t* notif_count, char*** encryptions,
@@ -269,141 +311,41 @@ nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** cap
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (capabilities && cap_count) {
-        char* content = strdup(event->content);
-        if (!content) {
-            return NOSTR_ERR_MEMORY;
-        }
-        
-        *cap_count = 0;
-        for (char* p = content; *p; p++) {
-            if (*p == ' ') (*cap_count)++;
-        }
-        (*cap_count)++;
-        
-        *capabilities = malloc(*cap_count * sizeof(char*));
-        if (!*capabilities) {
-            free(content);
-            return NOSTR_ERR_MEMORY;
+    char** lists[3] = {NULL, NULL, NULL};
+    size_t counts[3] = {0, 0, 0};
+    const char* texts[3] = {event->content ? event->content : "", NULL, NULL};
+    int wanted[3] = {capabilities && cap_count, notifications && notif_count, encryptions && enc_count};
+    
+    for (size_t i = 0; i < event->tags_count; i++) {
+        if (event->tags[i].count < 2) continue;
+        if (!texts[1] && strcmp(event->tags[i].values[0], "notifications") == 0) {
+            texts[1] = event->tags[i].values[1];
         }
-        
-        size_t i = 0;
-        char* saveptr;
-        char* cap = strtok_r(content, " ", &saveptr);
-        while (cap && i < *cap_count) {
-            (*capabilities)[i] = strdup(cap);
-            if (!(*capabilities)[i]) {
-                for (size_t j = 0; j < i; j++) {
-                    free((*capabilities)[j]);
-                }
-                free(*capabilities);
-                free(content);
-                return NOSTR_ERR_MEMORY;
-            }
-            i++;
-            cap = strtok_r(NULL, " ", &saveptr);
+        if (!texts[2] && strcmp(event->tags[i].values[0], "encryption") == 0) {
+            texts[2] = event->tags[i].values[1];
         }
-        *cap_count = i;
-        
-        free(content);
     }
     
-    if (notifications && notif_count) {
-        *notifications = NULL;
-        *notif_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "notifications") == 0) {
-                
-                char* notif_str = strdup(event->tags[i].values[1]);
-                if (!notif_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *notif_count = 0;
-                for (char* p = notif_str; *p; p++) {
-                    if (*p == ' ') (*notif_count)++;
-                }
-                (*notif_count)++;
-                
-                *notifications = malloc(*notif_count * sizeof(char*));
-                if (!*notifications) {
-                    free(notif_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* notif = strtok_r(notif_str, " ", &saveptr);
-                while (notif && j < *notif_count) {
-                    (*notifications)[j] = strdup(notif);
-                    if (!(*notifications)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*notifications)[k]);
-                        }
-                        free(*notifications);
-                        free(notif_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    notif = strtok_r(NULL, " ", &saveptr);
-                }
-                *notif_count = j;
-                
-                free(notif_str);
-                break;
+    for (int i = 0; i < 3; i++) {
+        if (wanted[i] && texts[i] && split_words(texts[i], &lists[i], &counts[i]) != 0) {
+            while (i-- > 0) {
+                free_words(lists[i], counts[i]);
             }
+            return NOSTR_ERR_MEMORY;
         }
     }
     
-    if (encryptions && enc_count) {
-        *encryptions = NULL;
-        *enc_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "encryption") == 0) {
-                
-                char* enc_str = strdup(event->tags[i].values[1]);
-                if (!enc_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *enc_count = 0;
-                for (char* p = enc_str; *p; p++) {
-                    if (*p == ' ') (*enc_count)++;
-                }
-                (*enc_count)++;
-                
-                *encryptions = malloc(*enc_count * sizeof(char*));
-                if (!*encryptions) {
-                    free(enc_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* enc = strtok_r(enc_str, " ", &saveptr);
-                while (enc && j < *enc_count) {
-                    (*encryptions)[j] = strdup(enc);
-                    if (!(*encryptions)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*encryptions)[k]);
-                        }
-                        free(*encryptions);
-                        free(enc_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    enc = strtok_r(NULL, " ", &saveptr);
-                }
-                *enc_count = j;
-                
-                free(enc_str);
-                break;
-            }
-        }
+    if (wanted[0]) {
+        *capabilities = lists[0];
+        *cap_count = counts[0];
+    }
+    if (wanted[1]) {
+        *notifications = lists[1];
+        *notif_count = counts[1];
+    }
+    if (wanted[2]) {
+        *encryptions = lists[2];
+        *enc_count = counts[2];
     }
     
     return NOSTR_OK;
-- 
2.43.0


From 3206c1ec6f74c2c953cb3ffd7cce33400b0326d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:07 +0000
Subject: [PATCH 088/104] fix: a wallet's message is read whole or not at all

Fields the message does not have were left uninitialised for the caller to
free, and fields there was no memory for were reported as absent.
---
 src/nip47.c | 92 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 54 insertions(+), 38 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 0918435..e32725d 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -507,6 +507,19 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     return NOSTR_OK;
 }
 
+#ifdef HAVE_CJSON
+/* a copy of a text of the object, if it is asked for and there; 0 without memory */
+static int copy_text(const cJSON* obj, const char* name, char** text)
+{
+    const cJSON* item = cJSON_GetObjectItemCaseSensitive(obj, name);
+    if (!text || !cJSON_IsString(item)) {
+        return 1;
+    }
+    *text = strdup(item->valuestring);
+    return *text != NULL;
+}
+#endif
+
 nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const nostr_privkey* client_secret,
                                                char** result_type, char** result_json, 
                                                char** error_code, char** error_message)
@@ -554,36 +567,34 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (result_type) {
-        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "result_type");
-        if (type_obj && cJSON_IsString(type_obj)) {
-            *result_type = strdup(type_obj->valuestring);
-        }
-    }
+    char* type = NULL;
+    char* result = NULL;
+    char* code = NULL;
+    char* message = NULL;
+    cJSON* result_obj = cJSON_GetObjectItemCaseSensitive(root, "result");
+    cJSON* error_obj = cJSON_GetObjectItemCaseSensitive(root, "error");
     
-    if (result_json) {
-        cJSON* result_obj = cJSON_GetObjectItemCaseSensitive(root, "result");
-        if (result_obj) {
-            *result_json = cJSON_PrintUnformatted(result_obj);
-        }
+    int complete = copy_text(root, "result_type", result_type ? &type : NULL) &&
+                   copy_text(error_obj, "code", error_code ? &code : NULL) &&
+                   copy_text(error_obj, "message", error_message ? &message : NULL);
+    if (complete && result_json && result_obj) {
+        result = cJSON_PrintUnformatted(result_obj);
+        complete = result != NULL;
+    }
+    if (!complete) {
+        free(type);
+        free(result);
+        free(code);
+        free(message);
+        cJSON_Delete(root);
+        free(decrypted);
+        return NOSTR_ERR_MEMORY;
     }
     
-    cJSON* error_obj = cJSON_GetObjectItemCaseSensitive(root, "error");
-    if (error_obj) {
-        if (error_code) {
-            cJSON* code_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "code");
-            if (code_obj && cJSON_IsString(code_obj)) {
-                *error_code = strdup(code_obj->valuestring);
-            }
-        }
-        
-        if (error_message) {
-            cJSON* msg_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "message");
-            if (msg_obj && cJSON_IsString(msg_obj)) {
-                *error_message = strdup(msg_obj->valuestring);
-            }
-        }
-    }
+    if (result_type) *result_type = type;
+    if (result_json) *result_json = result;
+    if (error_code) *error_code = code;
+    if (error_message) *error_message = message;
     
     cJSON_Delete(root);
 #else
@@ -761,20 +772,25 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (notification_type) {
-        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "notification_type");
-        if (type_obj && cJSON_IsString(type_obj)) {
-            *notification_type = strdup(type_obj->valuestring);
-        }
-    }
+    char* type = NULL;
+    char* notification = NULL;
+    cJSON* notif_obj = cJSON_GetObjectItemCaseSensitive(root, "notification");
     
-    if (notification_json) {
-        cJSON* notif_obj = cJSON_GetObjectItemCaseSensitive(root, "notification");
-        if (notif_obj) {
-            *notification_json = cJSON_PrintUnformatted(notif_obj);
-        }
+    int complete = copy_text(root, "notification_type", notification_type ? &type : NULL);
+    if (complete && notification_json && notif_obj) {
+        notification = cJSON_PrintUnformatted(notif_obj);
+        complete = notification != NULL;
+    }
+    if (!complete) {
+        free(type);
+        cJSON_Delete(root);
+        free(decrypted);
+        return NOSTR_ERR_MEMORY;
     }
     
+    if (notification_type) *notification_type = type;
+    if (notification_json) *notification_json = notification;
+    
     cJSON_Delete(root);
 #else
     if (notification_type) *notification_type = strdup("unknown");
-- 
2.43.0


From d3a3bbff2a9c99508ea8eae7cbfda0f184795c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:07 +0000
Subject: [PATCH 089/104] fix: wallet amounts are written exactly

They went through a double: an amount beyond 2^53 millisatoshi was another
amount in the request.
---
 src/nip47.c          | 15 +++++++++++++--
 src/nip47_commands.c | 26 ++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index e32725d..6c7e466 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <inttypes.h>
 #include <time.h>
 #include <ctype.h>
 #include <openssl/rand.h>
@@ -608,6 +609,16 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     return NOSTR_OK;
 }
 
+#ifdef HAVE_CJSON
+/* a whole number, exactly: a double holds only 53 bits of it */
+static int add_whole(cJSON* obj, const char* name, uint64_t value)
+{
+    char text[24];
+    snprintf(text, sizeof(text), "%" PRIu64, value);
+    return cJSON_AddRawToObject(obj, name, text) != NULL;
+}
+#endif
+
 nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const char* invoice, 
                                                     uint64_t* amount_msats)
 {
@@ -624,7 +635,7 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
     cJSON_AddStringToObject(params, "invoice", invoice);
     
     if (amount_msats) {
-        cJSON_AddNumberToObject(params, "amount", *amount_msats);
+        add_whole(params, "amount", *amount_msats);
     }
     
     *params_json = cJSON_PrintUnformatted(params);
@@ -681,7 +692,7 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
+    add_whole(params, "amount", amount_msats);
     
     if (description) {
         cJSON_AddStringToObject(params, "description", description);
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 57a4357..d7768bb 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -2,12 +2,30 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <inttypes.h>
 #include "../include/nostr.h"
 
 #ifdef HAVE_CJSON
 #include <cjson/cJSON.h>
 #endif
 
+#ifdef HAVE_CJSON
+/* a whole number, exactly: a double holds only 53 bits of it */
+static int add_whole(cJSON* obj, const char* name, uint64_t value)
+{
+    char text[24];
+    snprintf(text, sizeof(text), "%" PRIu64, value);
+    return cJSON_AddRawToObject(obj, name, text) != NULL;
+}
+
+static int add_time(cJSON* obj, const char* name, time_t value)
+{
+    char text[24];
+    snprintf(text, sizeof(text), "%" PRId64, (int64_t)value);
+    return cJSON_AddRawToObject(obj, name, text) != NULL;
+}
+#endif
+
 nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, time_t* from, time_t* until,
                                                          uint32_t* limit, uint32_t* offset, 
                                                          int* unpaid, const char* type)
@@ -23,11 +41,11 @@ nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, ti
     }
     
     if (from) {
-        cJSON_AddNumberToObject(params, "from", *from);
+        add_time(params, "from", *from);
     }
     
     if (until) {
-        cJSON_AddNumberToObject(params, "until", *until);
+        add_time(params, "until", *until);
     }
     
     if (limit) {
@@ -168,7 +186,7 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
+    add_whole(params, "amount", amount_msats);
     cJSON_AddStringToObject(params, "pubkey", pubkey);
     
     if (preimage) {
@@ -282,7 +300,7 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         cJSON_AddStringToObject(inv, "invoice", invoices[i]);
         
         if (amounts && amounts[i] > 0) {
-            cJSON_AddNumberToObject(inv, "amount", amounts[i]);
+            add_whole(inv, "amount", amounts[i]);
         }
         
         cJSON_AddItemToArray(inv_array, inv);
-- 
2.43.0


From 41c758cc6c129f5e477d68e8b332a320827bc37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:07 +0000
Subject: [PATCH 090/104] fix: a keysend with a record that is not one is
 refused

A type that is not a number became 0 (or the number it starts with), a
type beyond 2^53 another type, and a last record without a value was
left out of a payment that was then made all the same.
---
 src/nip47_commands.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index d7768bb..4b03ae7 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <errno.h>
 #include <inttypes.h>
 #include "../include/nostr.h"
 
@@ -180,6 +181,24 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (tlv_records) {
+        /* pairs of a decimal type and a value */
+        if (tlv_count % 2 != 0) {
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+        for (size_t i = 0; i < tlv_count; i += 2) {
+            if (!tlv_records[i] || !tlv_records[i + 1] || !tlv_records[i][0] ||
+                tlv_records[i][strspn(tlv_records[i], "0123456789")] != '\0') {
+                return NOSTR_ERR_INVALID_PARAM;
+            }
+            errno = 0;
+            strtoull(tlv_records[i], NULL, 10);
+            if (errno == ERANGE) {
+                return NOSTR_ERR_INVALID_PARAM;
+            }
+        }
+    }
+    
 #ifdef HAVE_CJSON
     cJSON* params = cJSON_CreateObject();
     if (!params) {
@@ -208,9 +227,7 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
                     return NOSTR_ERR_MEMORY;
                 }
                 
-                char* end;
-                long type_val = strtol(tlv_records[i], &end, 10);
-                cJSON_AddNumberToObject(tlv, "type", type_val);
+                add_whole(tlv, "type", strtoull(tlv_records[i], NULL, 10));
                 cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
                 cJSON_AddItemToArray(tlv_array, tlv);
             }
-- 
2.43.0


From 002179fb217e941422af694ad5fd6c039ec34840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:07 +0000
Subject: [PATCH 091/104] fix: a missing invoice among several is refused

It became an entry without an invoice.
---
 src/nip47_commands.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 4b03ae7..5b770fc 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -290,6 +290,11 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
     if (!params_json || !invoices || count == 0) {
         return NOSTR_ERR_INVALID_PARAM;
     }
+    for (size_t i = 0; i < count; i++) {
+        if (!invoices[i]) {
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+    }
     
 #ifdef HAVE_CJSON
     cJSON* params = cJSON_CreateObject();
-- 
2.43.0


From d966cd86080bc85b42ee0be92d0ebb0bc6e32372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:35 +0000
Subject: [PATCH 092/104] fix: wallet parameters that cannot be completed are
 refused

Without memory a field was left out: an invoice was to be paid without its
amount, a list came without its limit. Entries under way were leaked.
---
 src/nip47.c          | 18 ++++++++-------
 src/nip47_commands.c | 52 ++++++++++++++++++++++----------------------
 2 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 6c7e466..08d712e 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -627,18 +627,19 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
     }
     
 #ifdef HAVE_CJSON
+    int complete = 1;
     cJSON* params = cJSON_CreateObject();
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddStringToObject(params, "invoice", invoice);
+    complete = cJSON_AddStringToObject(params, "invoice", invoice) && complete;
     
     if (amount_msats) {
-        add_whole(params, "amount", *amount_msats);
+        complete = add_whole(params, "amount", *amount_msats) && complete;
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -687,26 +688,27 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
     }
     
 #ifdef HAVE_CJSON
+    int complete = 1;
     cJSON* params = cJSON_CreateObject();
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
     
-    add_whole(params, "amount", amount_msats);
+    complete = add_whole(params, "amount", amount_msats) && complete;
     
     if (description) {
-        cJSON_AddStringToObject(params, "description", description);
+        complete = cJSON_AddStringToObject(params, "description", description) && complete;
     }
     
     if (description_hash) {
-        cJSON_AddStringToObject(params, "description_hash", description_hash);
+        complete = cJSON_AddStringToObject(params, "description_hash", description_hash) && complete;
     }
     
     if (expiry_secs) {
-        cJSON_AddNumberToObject(params, "expiry", *expiry_secs);
+        complete = cJSON_AddNumberToObject(params, "expiry", *expiry_secs) && complete;
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 5b770fc..8b4f886 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -36,36 +36,37 @@ nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, ti
     }
     
 #ifdef HAVE_CJSON
+    int complete = 1;
     cJSON* params = cJSON_CreateObject();
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
     
     if (from) {
-        add_time(params, "from", *from);
+        complete = add_time(params, "from", *from) && complete;
     }
     
     if (until) {
-        add_time(params, "until", *until);
+        complete = add_time(params, "until", *until) && complete;
     }
     
     if (limit) {
-        cJSON_AddNumberToObject(params, "limit", *limit);
+        complete = cJSON_AddNumberToObject(params, "limit", *limit) && complete;
     }
     
     if (offset) {
-        cJSON_AddNumberToObject(params, "offset", *offset);
+        complete = cJSON_AddNumberToObject(params, "offset", *offset) && complete;
     }
     
     if (unpaid) {
-        cJSON_AddBoolToObject(params, "unpaid", *unpaid);
+        complete = cJSON_AddBoolToObject(params, "unpaid", *unpaid) && complete;
     }
     
     if (type) {
-        cJSON_AddStringToObject(params, "type", type);
+        complete = cJSON_AddStringToObject(params, "type", type) && complete;
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -130,20 +131,21 @@ nostr_error_t nostr_nip47_create_lookup_invoice_params(char** params_json, const
     }
     
 #ifdef HAVE_CJSON
+    int complete = 1;
     cJSON* params = cJSON_CreateObject();
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
     
     if (payment_hash) {
-        cJSON_AddStringToObject(params, "payment_hash", payment_hash);
+        complete = cJSON_AddStringToObject(params, "payment_hash", payment_hash) && complete;
     }
     
     if (invoice) {
-        cJSON_AddStringToObject(params, "invoice", invoice);
+        complete = cJSON_AddStringToObject(params, "invoice", invoice) && complete;
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -200,20 +202,21 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
     }
     
 #ifdef HAVE_CJSON
+    int complete = 1;
     cJSON* params = cJSON_CreateObject();
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
     
-    add_whole(params, "amount", amount_msats);
-    cJSON_AddStringToObject(params, "pubkey", pubkey);
+    complete = add_whole(params, "amount", amount_msats) && complete;
+    complete = cJSON_AddStringToObject(params, "pubkey", pubkey) && complete;
     
     if (preimage) {
-        cJSON_AddStringToObject(params, "preimage", preimage);
+        complete = cJSON_AddStringToObject(params, "preimage", preimage) && complete;
     }
     
     if (tlv_records && tlv_count > 0) {
-        cJSON* tlv_array = cJSON_CreateArray();
+        cJSON* tlv_array = cJSON_AddArrayToObject(params, "tlv_records");
         if (!tlv_array) {
             cJSON_Delete(params);
             return NOSTR_ERR_MEMORY;
@@ -227,16 +230,14 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
                     return NOSTR_ERR_MEMORY;
                 }
                 
-                add_whole(tlv, "type", strtoull(tlv_records[i], NULL, 10));
-                cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
+                complete = add_whole(tlv, "type", strtoull(tlv_records[i], NULL, 10)) && complete;
+                complete = cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]) && complete;
                 cJSON_AddItemToArray(tlv_array, tlv);
             }
         }
-        
-        cJSON_AddItemToObject(params, "tlv_records", tlv_array);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -297,12 +298,13 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
     }
     
 #ifdef HAVE_CJSON
+    int complete = 1;
     cJSON* params = cJSON_CreateObject();
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON* inv_array = cJSON_CreateArray();
+    cJSON* inv_array = cJSON_AddArrayToObject(params, "invoices");
     if (!inv_array) {
         cJSON_Delete(params);
         return NOSTR_ERR_MEMORY;
@@ -316,21 +318,19 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         }
         
         if (invoice_ids && invoice_ids[i]) {
-            cJSON_AddStringToObject(inv, "id", invoice_ids[i]);
+            complete = cJSON_AddStringToObject(inv, "id", invoice_ids[i]) && complete;
         }
         
-        cJSON_AddStringToObject(inv, "invoice", invoices[i]);
+        complete = cJSON_AddStringToObject(inv, "invoice", invoices[i]) && complete;
         
         if (amounts && amounts[i] > 0) {
-            add_whole(inv, "amount", amounts[i]);
+            complete = add_whole(inv, "amount", amounts[i]) && complete;
         }
         
         cJSON_AddItemToArray(inv_array, inv);
     }
     
-    cJSON_AddItemToObject(params, "invoices", inv_array);
-    
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
-- 
2.43.0


From 63a537adc0d670e1734fcfff391816fe757b777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:35 +0000
Subject: [PATCH 093/104] fix: numbers from a wallet are whole numbers in range

Converting any other double is undefined: a balance of -1 was read as
18446744073709551615 millisatoshi.
---
 src/nip47_commands.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 8b4f886..8a2dd14 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -388,6 +388,17 @@ nostr_error_t nostr_nip47_create_get_info_params(char** params_json)
     return NOSTR_OK;
 }
 
+#ifdef HAVE_CJSON
+/* a whole number from 0 up to, but not including, the limit */
+static int is_whole(const cJSON* item, double limit)
+{
+    double v;
+    if (!cJSON_IsNumber(item)) return 0;
+    v = item->valuedouble;
+    return v >= 0 && v < limit && v == (double)(uint64_t)v;
+}
+#endif
+
 nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64_t* balance_msats)
 {
     if (!result_json || !balance_msats) {
@@ -406,6 +417,10 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (!is_whole(balance, 18446744073709551616.0)) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
     *balance_msats = (uint64_t)balance->valuedouble;
     
     cJSON_Delete(root);
@@ -445,7 +460,7 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     
     if (fees_paid) {
         cJSON* fees = cJSON_GetObjectItemCaseSensitive(root, "fees_paid");
-        if (fees && cJSON_IsNumber(fees)) {
+        if (fees && is_whole(fees, 18446744073709551616.0)) {
             *fees_paid = (uint64_t)fees->valuedouble;
         }
     }
@@ -525,7 +540,7 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     
     if (block_height) {
         cJSON* height = cJSON_GetObjectItemCaseSensitive(root, "block_height");
-        if (height && cJSON_IsNumber(height)) {
+        if (height && is_whole(height, 4294967296.0)) {
             *block_height = (uint32_t)height->valuedouble;
         }
     }
-- 
2.43.0


From b53c16f94dac50af73160ec63bd6642ad0851c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:35 +0000
Subject: [PATCH 094/104] fix: a wallet's answer is read whole or not at all

Fields the answer does not have were left uninitialised for the caller,
methods that are not texts were wild pointers in the list, and fields there
was no memory for were reported as absent.
---
 src/nip47_commands.c | 93 +++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 39 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 8a2dd14..66eeac2 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -438,6 +438,19 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
     return NOSTR_OK;
 }
 
+#ifdef HAVE_CJSON
+/* a copy of a text of the object, if it is asked for and there; 0 without memory */
+static int copy_text(const cJSON* obj, const char* name, char** text)
+{
+    const cJSON* item = cJSON_GetObjectItemCaseSensitive(obj, name);
+    if (!text || !cJSON_IsString(item)) {
+        return 1;
+    }
+    *text = strdup(item->valuestring);
+    return *text != NULL;
+}
+#endif
+
 nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, char** preimage,
                                                      uint64_t* fees_paid)
 {
@@ -451,13 +464,14 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (preimage) {
-        cJSON* preim = cJSON_GetObjectItemCaseSensitive(root, "preimage");
-        if (preim && cJSON_IsString(preim)) {
-            *preimage = strdup(preim->valuestring);
-        }
+    char* text = NULL;
+    if (!copy_text(root, "preimage", preimage ? &text : NULL)) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_MEMORY;
     }
+    if (preimage) *preimage = text;
     
+    if (fees_paid) *fees_paid = 0;
     if (fees_paid) {
         cJSON* fees = cJSON_GetObjectItemCaseSensitive(root, "fees_paid");
         if (fees && is_whole(fees, 18446744073709551616.0)) {
@@ -510,33 +524,50 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (alias) {
-        cJSON* al = cJSON_GetObjectItemCaseSensitive(root, "alias");
-        if (al && cJSON_IsString(al)) {
-            *alias = strdup(al->valuestring);
-        }
+    char* texts[4] = {NULL, NULL, NULL, NULL};
+    char** outs[4] = {alias, color, pubkey, network};
+    const char* names[4] = {"alias", "color", "pubkey", "network"};
+    char** list = NULL;
+    size_t list_count = 0;
+    int complete = 1;
+    
+    for (int i = 0; i < 4; i++) {
+        complete = complete && copy_text(root, names[i], outs[i] ? &texts[i] : NULL);
     }
     
-    if (color) {
-        cJSON* col = cJSON_GetObjectItemCaseSensitive(root, "color");
-        if (col && cJSON_IsString(col)) {
-            *color = strdup(col->valuestring);
+    cJSON* meth = cJSON_GetObjectItemCaseSensitive(root, "methods");
+    if (complete && methods && method_count && cJSON_IsArray(meth) && cJSON_GetArraySize(meth) > 0) {
+        list = malloc((size_t)cJSON_GetArraySize(meth) * sizeof(char*));
+        complete = list != NULL;
+        for (cJSON* item = meth->child; complete && item; item = item->next) {
+            if (cJSON_IsString(item)) {
+                list[list_count] = strdup(item->valuestring);
+                complete = list[list_count] != NULL;
+                list_count += complete ? 1 : 0;
+            }
         }
     }
     
-    if (pubkey) {
-        cJSON* pk = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
-        if (pk && cJSON_IsString(pk)) {
-            *pubkey = strdup(pk->valuestring);
+    if (!complete) {
+        for (int i = 0; i < 4; i++) {
+            free(texts[i]);
+        }
+        for (size_t i = 0; i < list_count; i++) {
+            free(list[i]);
         }
+        free(list);
+        cJSON_Delete(root);
+        return NOSTR_ERR_MEMORY;
     }
     
-    if (network) {
-        cJSON* net = cJSON_GetObjectItemCaseSensitive(root, "network");
-        if (net && cJSON_IsString(net)) {
-            *network = strdup(net->valuestring);
-        }
+    for (int i = 0; i < 4; i++) {
+        if (outs[i]) *outs[i] = texts[i];
+    }
+    if (methods && method_count) {
+        *methods = list;
+        *method_count = list_count;
     }
+    if (block_height) *block_height = 0;
     
     if (block_height) {
         cJSON* height = cJSON_GetObjectItemCaseSensitive(root, "block_height");
@@ -545,22 +576,6 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
         }
     }
     
-    if (methods && method_count) {
-        cJSON* meth = cJSON_GetObjectItemCaseSensitive(root, "methods");
-        if (meth && cJSON_IsArray(meth)) {
-            *method_count = cJSON_GetArraySize(meth);
-            *methods = malloc(*method_count * sizeof(char*));
-            if (*methods) {
-                for (size_t i = 0; i < *method_count; i++) {
-                    cJSON* item = cJSON_GetArrayItem(meth, i);
-                    if (item && cJSON_IsString(item)) {
-                        (*methods)[i] = strdup(item->valuestring);
-                    }
-                }
-            }
-        }
-    }
-    
     cJSON_Delete(root);
 #else
     if (alias) *alias = strdup("wallet");
-- 
2.43.0


From 8626982b2a408eab6ef13dffbc9287fc02ff7f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 095/104] fix: a wallet's message is a JSON object

---
 src/nip47.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 08d712e..a3e925e 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -563,7 +563,8 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     
 #ifdef HAVE_CJSON
     cJSON* root = cJSON_Parse(decrypted);
-    if (!root) {
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -780,7 +781,8 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
     
 #ifdef HAVE_CJSON
     cJSON* root = cJSON_Parse(decrypted);
-    if (!root) {
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From 06877d60b61d681061e596aa9dee279dd634d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:14 +0000
Subject: [PATCH 096/104] fix: read escapes in private list items as JSON
 defines them

Lists written by other clients may use \b and \f, which were read as the
letters b and f, and a quote escaped in an element past the fourth ended
that element early, so the rest of the list was misread or refused.
---
 src/nip51.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nip51.c b/src/nip51.c
index d06e83d..89f2503 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -658,7 +658,10 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
             case 2:  dest = relay_hint; max_len = sizeof(relay_hint) - 1; break;
             case 3:  dest = petname;    max_len = sizeof(petname) - 1;    break;
             default:
-                while (*p && *p != '"') p++;
+                while (*p && *p != '"') {
+                    if (*p == '\\' && *(p+1)) p++;
+                    p++;
+                }
                 if (*p == '"') p++;
                 field++;
                 continue;
@@ -681,6 +684,8 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
                     case 'n':  dest[len++] = '\n'; break;
                     case 'r':  dest[len++] = '\r'; break;
                     case 't':  dest[len++] = '\t'; break;
+                    case 'b':  dest[len++] = '\b'; break;
+                    case 'f':  dest[len++] = '\f'; break;
                     case '"':  dest[len++] = '"';  break;
                     case '\\': dest[len++] = '\\'; break;
                     case 'u': {
-- 
2.43.0


From c55de61bf352b7debcd36ac1117d0181d6638ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:14 +0000
Subject: [PATCH 097/104] fix: a private list item of any length reads back

nostr_list_to_event seals items of any length, but reading a list with a
private value over 1023 bytes (type 63, relay 511, petname 255) was refused,
so its owner could no longer read the list at all.
---
 src/nip51.c | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/nip51.c b/src/nip51.c
index 89f2503..8447003 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -608,12 +608,9 @@ static size_t encode_utf8(char* dest, size_t max_len, size_t len, unsigned int c
     return len;
 }
 
-static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+static nostr_error_t parse_private_items(const char* json, nostr_list* list,
+                                         char* fields, size_t field_size)
 {
-    if (!json || strlen(json) < 2) {
-        return NOSTR_OK;
-    }
-
     const char* p = json;
     while (*p && *p != '[') {
         p++;
@@ -633,10 +630,12 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
         }
         p++;
 
-        char tag_type[64] = {0};
-        char value[1024] = {0};
-        char relay_hint[512] = {0};
-        char petname[256] = {0};
+        char* tag_type = fields;
+        char* value = fields + field_size;
+        char* relay_hint = fields + 2 * field_size;
+        char* petname = fields + 3 * field_size;
+        tag_type[0] = value[0] = relay_hint[0] = petname[0] = '\0';
+        const size_t max_len = field_size - 1;
         int field = 0;
 
         while (*p && *p != ']') {
@@ -651,12 +650,11 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
             p++;
 
             char* dest;
-            size_t max_len;
             switch (field) {
-            case 0:  dest = tag_type;   max_len = sizeof(tag_type) - 1;   break;
-            case 1:  dest = value;      max_len = sizeof(value) - 1;      break;
-            case 2:  dest = relay_hint; max_len = sizeof(relay_hint) - 1; break;
-            case 3:  dest = petname;    max_len = sizeof(petname) - 1;    break;
+            case 0:  dest = tag_type;   break;
+            case 1:  dest = value;      break;
+            case 2:  dest = relay_hint; break;
+            case 3:  dest = petname;    break;
             default:
                 while (*p && *p != '"') {
                     if (*p == '\\' && *(p+1)) p++;
@@ -755,6 +753,27 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
     return NOSTR_OK;
 }
 
+static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+{
+    if (!json || strlen(json) < 2) {
+        return NOSTR_OK;
+    }
+
+    /* No field is longer than the JSON it is read from. */
+    size_t field_size = strlen(json) + 1;
+    if (field_size > SIZE_MAX / 4) {
+        return NOSTR_ERR_MEMORY;
+    }
+    char* fields = malloc(4 * field_size);
+    if (!fields) {
+        return NOSTR_ERR_MEMORY;
+    }
+
+    nostr_error_t err = parse_private_items(json, list, fields, field_size);
+    free(fields);
+    return err;
+}
+
 nostr_error_t nostr_list_from_event(const nostr_event* event, const nostr_keypair* keypair,
                                     nostr_list** list)
 {
-- 
2.43.0


From 8b3d542100698c5e1776384d06bf3cf657b312cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:24 +0000
Subject: [PATCH 098/104] fix: report NIP-18 and NIP-26 as supported when they
 are built in

nostr_feature_nip_supported(18) and (26) said no, and the feature list left
them out, in builds that contain both.
---
 src/features.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/features.c b/src/features.c
index 1113c2c..651bee2 100644
--- a/src/features.c
+++ b/src/features.c
@@ -25,10 +25,18 @@ int nostr_feature_nip_supported(int nip_number)
         case 17:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        case 18:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         case 25:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        case 26:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         case 44:
             return 1;
@@ -135,9 +143,15 @@ const char* nostr_feature_list_enabled(void)
 #ifdef NOSTR_FEATURE_NIP17
         APPEND_FEATURE(",nip17");
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        APPEND_FEATURE(",nip18");
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         APPEND_FEATURE(",nip25");
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        APPEND_FEATURE(",nip26");
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         APPEND_FEATURE(",nip44");
 #endif
-- 
2.43.0


From 75d2469f166c92e2445c9e4eea8c33ffe330d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:24 +0000
Subject: [PATCH 099/104] fix: name NOSTR_ERR_NOT_SUPPORTED in
 nostr_error_string

It was described as an unknown error.
---
 src/key.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/key.c b/src/key.c
index f802fa8..98fd251 100644
--- a/src/key.c
+++ b/src/key.c
@@ -742,6 +742,7 @@ const char* nostr_error_string(nostr_error_t error)
         case NOSTR_ERR_NOT_FOUND: return "Not found";
         case NOSTR_ERR_TIMEOUT: return "Timeout";
         case NOSTR_ERR_INVALID_PARAM: return "Invalid parameter";
+        case NOSTR_ERR_NOT_SUPPORTED: return "Not supported";
         default: return "Unknown error";
     }
 }
\ No newline at end of file
-- 
2.43.0


From 84a607bd3e5687592e38f379abf54753ec3641ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:24 +0000
Subject: [PATCH 100/104] fix: name NOSTR_RELAY_ERR_STORAGE in
 nostr_relay_error_string

It was described as an unknown error.
---
 src/relay_protocol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 7ad9574..062e8fc 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -35,6 +35,7 @@ const char* nostr_relay_error_string(nostr_relay_error_t error)
         case NOSTR_RELAY_ERR_BUFFER_TOO_SMALL: return "buffer too small";
         case NOSTR_RELAY_ERR_MEMORY: return "memory allocation failed";
         case NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE: return "unknown message type";
+        case NOSTR_RELAY_ERR_STORAGE: return "storage error";
         default: return "unknown error";
     }
 }
-- 
2.43.0


From 2466f4290abf17bb48f3c1a5eedda1e18e9fd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:24 +0000
Subject: [PATCH 101/104] fix: do not build the feature list anew in racing
 threads

Threads that asked for the list at the same time for the first time put it
together in one static buffer without a lock, and could be given the beginning
of it. The list is known when the library is compiled.
---
 src/features.c | 66 +++++++++++++++++++-------------------------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/src/features.c b/src/features.c
index 651bee2..46af245 100644
--- a/src/features.c
+++ b/src/features.c
@@ -112,91 +112,75 @@ int nostr_feature_relay_protocol_available(void)
 
 const char* nostr_feature_list_enabled(void)
 {
-    static char feature_list[512];
-    static int initialized = 0;
-
-    if (!initialized) {
-        size_t pos = 0;
-        size_t remaining = sizeof(feature_list);
-
-#define APPEND_FEATURE(str) do { \
-    int n = snprintf(feature_list + pos, remaining, str); \
-    if (n > 0 && (size_t)n < remaining) { pos += n; remaining -= n; } \
-} while(0)
-
-        APPEND_FEATURE("std,events,keys");
+    static const char feature_list[] =
+        "std,events,keys"
 #ifdef NOSTR_FEATURE_ENCODING
-        APPEND_FEATURE(",encoding");
+        ",encoding"
 #endif
 #ifdef NOSTR_FEATURE_NIP04
-        APPEND_FEATURE(",nip04");
+        ",nip04"
 #endif
 #ifdef NOSTR_FEATURE_NIP05
-        APPEND_FEATURE(",nip05");
+        ",nip05"
 #endif
 #ifdef NOSTR_FEATURE_NIP10
-        APPEND_FEATURE(",nip10");
+        ",nip10"
 #endif
 #ifdef NOSTR_FEATURE_NIP13
-        APPEND_FEATURE(",nip13");
+        ",nip13"
 #endif
 #ifdef NOSTR_FEATURE_NIP17
-        APPEND_FEATURE(",nip17");
+        ",nip17"
 #endif
 #ifdef NOSTR_FEATURE_NIP18
-        APPEND_FEATURE(",nip18");
+        ",nip18"
 #endif
 #ifdef NOSTR_FEATURE_NIP25
-        APPEND_FEATURE(",nip25");
+        ",nip25"
 #endif
 #ifdef NOSTR_FEATURE_NIP26
-        APPEND_FEATURE(",nip26");
+        ",nip26"
 #endif
 #ifdef NOSTR_FEATURE_NIP44
-        APPEND_FEATURE(",nip44");
+        ",nip44"
 #endif
 #ifdef NOSTR_FEATURE_NIP46
-        APPEND_FEATURE(",nip46");
+        ",nip46"
 #endif
 #ifdef NOSTR_FEATURE_NIP47
-        APPEND_FEATURE(",nip47");
+        ",nip47"
 #endif
 #ifdef NOSTR_FEATURE_NIP49
-        APPEND_FEATURE(",nip49");
+        ",nip49"
 #endif
 #ifdef NOSTR_FEATURE_NIP51
-        APPEND_FEATURE(",nip51");
+        ",nip51"
 #endif
 #ifdef NOSTR_FEATURE_NIP57
-        APPEND_FEATURE(",nip57");
+        ",nip57"
 #endif
 #ifdef NOSTR_FEATURE_NIP59
-        APPEND_FEATURE(",nip59");
+        ",nip59"
 #endif
 #ifdef NOSTR_FEATURE_NIP65
-        APPEND_FEATURE(",nip65");
+        ",nip65"
 #endif
 #ifdef NOSTR_FEATURE_RELAY
-        APPEND_FEATURE(",relay");
+        ",relay"
 #endif
 #ifdef NOSTR_FEATURE_RELAY_PROTOCOL
-        APPEND_FEATURE(",relay-protocol");
+        ",relay-protocol"
 #endif
 #ifdef NOSTR_FEATURE_HD_KEYS
-        APPEND_FEATURE(",hd-keys");
+        ",hd-keys"
 #endif
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-        APPEND_FEATURE(",json-enhanced");
+        ",json-enhanced"
 #endif
 #ifdef NOSTR_FEATURE_THREADING
-        APPEND_FEATURE(",threading");
+        ",threading"
 #endif
-#undef APPEND_FEATURE
-
-        (void)pos;
-        (void)remaining;
-        initialized = 1;
-    }
+        ;
 
     return feature_list;
 }
-- 
2.43.0


From 11ba4e86190491a9dbea9f2c3c183b12c13ac82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:56 +0000
Subject: [PATCH 102/104] fix: report a lack of memory when an id is computed
 without cJSON

In builds without NOSTR_FEATURE_JSON_ENHANCED the escaped content was
used without a check, so computing an id (or signing) crashed when the
allocation failed.
---
 src/event.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 98f7ae3..301e97a 100644
--- a/src/event.c
+++ b/src/event.c
@@ -337,7 +337,10 @@ static char* serialize_for_id(const nostr_event* event)
 #else
     char pubkey_hex[65];
     char* content_escaped = escape_json_string(event->content ? event->content : "");
-    
+    if (!content_escaped) {
+        return NULL;
+    }
+
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
         sprintf(pubkey_hex + i * 2, "%02x", event->pubkey.data[i]);
     }
-- 
2.43.0


From e60ac0cb21b7b2c030d647efba5bbd10cf1c2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:11 +0000
Subject: [PATCH 103/104] fix: leave room for the brackets of the tags in an
 id's text

In builds without NOSTR_FEATURE_JSON_ENHANCED the buffer had no room for
the brackets and comma of each tag, so an event with a few hundred short
tags was written beyond it.
---
 src/event.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/event.c b/src/event.c
index 301e97a..f4e6fa0 100644
--- a/src/event.c
+++ b/src/event.c
@@ -348,6 +348,7 @@ static char* serialize_for_id(const nostr_event* event)
 
     size_t json_size = 512 + strlen(content_escaped);
     for (size_t i = 0; i < event->tags_count; i++) {
+        json_size += 3;
         for (size_t j = 0; j < event->tags[i].count; j++) {
             json_size += strlen(event->tags[i].values[j]) * 6 + 4;
         }
-- 
2.43.0


From 889e3b5b4888845a899559cc36935982083ef7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:04 +0000
Subject: [PATCH 104/104] fix: do not announce NIP-04 where mbedTLS builds
 refuse it

With the mbedTLS back end every NIP-04 call answers NOT_SUPPORTED, while
the feature list and nostr_feature_nip_supported(4) said it was there.
---
 src/features.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features.c b/src/features.c
index 46af245..b9b642b 100644
--- a/src/features.c
+++ b/src/features.c
@@ -5,7 +5,7 @@
 int nostr_feature_nip_supported(int nip_number)
 {
     switch (nip_number) {
-#ifdef NOSTR_FEATURE_NIP04
+#if defined(NOSTR_FEATURE_NIP04) && !defined(HAVE_MBEDTLS)
         case 4:
             return 1;
 #endif
@@ -117,7 +117,7 @@ const char* nostr_feature_list_enabled(void)
 #ifdef NOSTR_FEATURE_ENCODING
         ",encoding"
 #endif
-#ifdef NOSTR_FEATURE_NIP04
+#if defined(NOSTR_FEATURE_NIP04) && !defined(HAVE_MBEDTLS)
         ",nip04"
 #endif
 #ifdef NOSTR_FEATURE_NIP05
-- 
2.43.0

