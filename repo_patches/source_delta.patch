From 66af277e72737b7cbcc287e079e4133edb551300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 01/47] fix: report failed growth of arrays and maps instead of
 writing out of bounds

adjust_array_size()/adjust_map_size() now return a status that every handler
checks, and mark the value as allocated as soon as it is, so that an error on
a later element neither leaks nor corrupts it.
---
 includes/argus/internal/utils.h               |  4 +--
 .../callbacks/handlers/array_float_handler.c  | 26 +++++++++++++------
 source/callbacks/handlers/array_int_handler.c | 11 +++++---
 .../callbacks/handlers/array_string_handler.c | 17 +++++-------
 source/callbacks/handlers/map_bool_handler.c  |  7 ++++-
 source/callbacks/handlers/map_float_handler.c |  7 ++++-
 source/callbacks/handlers/map_int_handler.c   |  7 ++++-
 .../callbacks/handlers/map_string_handler.c   |  8 +++++-
 .../handlers/variadic_float_handler.c         |  7 +++--
 .../callbacks/handlers/variadic_int_handler.c |  7 +++--
 .../handlers/variadic_string_handler.c        | 15 +++++------
 source/utils/multi_values.c                   | 17 +++++++-----
 12 files changed, 87 insertions(+), 46 deletions(-)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index c84d768..4cab60c 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -62,8 +62,8 @@ int    putnchar(char c, size_t n);
  * Multi_value utility functions
  */
 #define MULTI_VALUE_INITIAL_CAPACITY 8
-void adjust_array_size(argus_option_t *option);
-void adjust_map_size(argus_option_t *option);
+int  adjust_array_size(argus_option_t *option);
+int  adjust_map_size(argus_option_t *option);
 int  map_find_key(argus_option_t *option, const char *key);
 void apply_array_flags(argus_option_t *option);
 void apply_map_flags(argus_option_t *option);
diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 4e8d4a0..5da4075 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -15,28 +15,38 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static void set_value(argus_option_t *option, char *value)
+static int set_value(argus_t *argus, argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
+    if (adjust_array_size(option) != ARGUS_SUCCESS) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
+        return ARGUS_ERROR_MEMORY;
+    }
     option->value.as_array[option->value_count].as_float = strtof(value, NULL);
     option->value_count++;
+    return (ARGUS_SUCCESS);
 }
 
 int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-
     if (strchr(value, ',') != NULL) {
         char **splited_values = split(value, ",");
         if (splited_values == NULL) {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to split string '%s'", value);
             return ARGUS_ERROR_MEMORY;
         }
-        for (size_t i = 0; splited_values[i] != NULL; ++i)
-            set_value(option, splited_values[i]);
+        for (size_t i = 0; splited_values[i] != NULL; ++i) {
+            int status = set_value(argus, option, splited_values[i]);
+            if (status != ARGUS_SUCCESS) {
+                free_split(splited_values);
+                return status;
+            }
+        }
         free_split(splited_values);
-    } else
-        set_value(option, value);
+    } else {
+        int status = set_value(argus, option, value);
+        if (status != ARGUS_SUCCESS)
+            return status;
+    }
 
     apply_array_flags(option);
     option->is_allocated = true;
diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 6853cff..2e62d06 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -85,13 +85,15 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
 /**
  * Add a range of integers to the option's value array
  */
-static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
+static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
     for (int i = range->start; i <= range->end; i++) {
-        adjust_array_size(option);
+        if (adjust_array_size(option) != ARGUS_SUCCESS)
+            return ARGUS_ERROR_MEMORY;
         option->value.as_array[option->value_count].as_int = i;
         option->value_count++;
     }
+    return ARGUS_SUCCESS;
 }
 
 /**
@@ -106,7 +108,10 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
                             "Invalid integer or range format: '%s'", value);
         return ARGUS_ERROR_INVALID_FORMAT;
     }
-    add_range_values(option, &range);
+    if (add_range_values(option, &range) != ARGUS_SUCCESS) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
+        return ARGUS_ERROR_MEMORY;
+    }
     return (ARGUS_SUCCESS);
 }
 
diff --git a/source/callbacks/handlers/array_string_handler.c b/source/callbacks/handlers/array_string_handler.c
index 02b7222..ee1494a 100644
--- a/source/callbacks/handlers/array_string_handler.c
+++ b/source/callbacks/handlers/array_string_handler.c
@@ -18,15 +18,14 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static int set_value(argus_option_t *option, char *value)
+static int set_value(argus_t *argus, argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)  // adjust_array_size failed
-        return ARGUS_ERROR_MEMORY;
-
     char *dup_value = safe_strdup(value);
-    if (dup_value == NULL)
+    if (dup_value == NULL || adjust_array_size(option) != ARGUS_SUCCESS) {
+        free(dup_value);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
         return ARGUS_ERROR_MEMORY;
+    }
 
     option->value.as_array[option->value_count].as_string = dup_value;
     option->value_count++;
@@ -35,8 +34,6 @@ static int set_value(argus_option_t *option, char *value)
 
 int array_string_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-
     if (strchr(value, ',') != NULL) {
         char **splited_values = split(value, ",");
         if (splited_values == NULL) {
@@ -44,7 +41,7 @@ int array_string_handler(argus_t *argus, argus_option_t *option, char *value)
             return ARGUS_ERROR_MEMORY;
         }
         for (size_t i = 0; splited_values[i] != NULL; ++i) {
-            int status = set_value(option, splited_values[i]);
+            int status = set_value(argus, option, splited_values[i]);
             if (status != ARGUS_SUCCESS) {
                 free_split(splited_values);
                 return status;
@@ -52,7 +49,7 @@ int array_string_handler(argus_t *argus, argus_option_t *option, char *value)
         }
         free_split(splited_values);
     } else {
-        int status = set_value(option, value);
+        int status = set_value(argus, option, value);
         if (status != ARGUS_SUCCESS)
             return status;
     }
diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 1a2548a..6336469 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -96,7 +96,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
+                                key);
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key           = key;
         option->value.as_map[option->value_count].value.as_bool = (bool)bool_value;
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 2a1bfd8..59e759e 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -59,7 +59,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_float = float_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
+                                key);
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_float = float_value;
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 23cd668..0cd7f26 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -60,7 +60,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_int64 = int_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
+                                key);
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_int64 = int_value;
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index cd504ce..bdc3921 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -56,7 +56,13 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     } else {
         // Key doesn't exist, add new entry
 
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
+                                key);
+            free(key);
+            free(value);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key             = key;
         option->value.as_map[option->value_count].value.as_string = value;
diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index b054858..f683f08 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -18,8 +18,7 @@
 
 static int set_float_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char  *endptr;
@@ -36,6 +35,10 @@ static int set_float_value(argus_option_t *option, char *value)
 int variadic_float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
     int status = set_float_value(option, value);
+    if (status == ARGUS_ERROR_MEMORY) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
+        return status;
+    }
     if (status != ARGUS_SUCCESS) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value '%s' for positional argument '%s'", value,
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 4b675a5..430981e 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -19,8 +19,7 @@
 
 static int set_int_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char     *endptr;
@@ -37,6 +36,10 @@ static int set_int_value(argus_option_t *option, char *value)
 int variadic_int_handler(argus_t *argus, argus_option_t *option, char *value)
 {
     int status = set_int_value(option, value);
+    if (status == ARGUS_ERROR_MEMORY) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
+        return status;
+    }
     if (status != ARGUS_SUCCESS) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value '%s' for positional argument '%s'", value,
diff --git a/source/callbacks/handlers/variadic_string_handler.c b/source/callbacks/handlers/variadic_string_handler.c
index e13b314..e2f5c9f 100644
--- a/source/callbacks/handlers/variadic_string_handler.c
+++ b/source/callbacks/handlers/variadic_string_handler.c
@@ -18,15 +18,14 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static int set_string_value(argus_option_t *option, char *value)
+static int set_string_value(argus_t *argus, argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
-        return ARGUS_ERROR_MEMORY;
-
     char *dup_value = safe_strdup(value);
-    if (dup_value == NULL)
+    if (dup_value == NULL || adjust_array_size(option) != ARGUS_SUCCESS) {
+        free(dup_value);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
         return ARGUS_ERROR_MEMORY;
+    }
 
     option->value.as_array[option->value_count].as_string = dup_value;
     option->value_count++;
@@ -35,9 +34,7 @@ static int set_string_value(argus_option_t *option, char *value)
 
 int variadic_string_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-
-    int status = set_string_value(option, value);
+    int status = set_string_value(argus, option, value);
     if (status != ARGUS_SUCCESS)
         return status;
 
diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 0fe8b65..dc3c591 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -7,6 +7,7 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include "argus/errors.h"
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 #include <math.h>
@@ -444,46 +445,50 @@ void apply_map_flags(argus_option_t *option)
     }
 }
 
-void adjust_array_size(argus_option_t *option)
+int adjust_array_size(argus_option_t *option)
 {
     if (option->value.as_array == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_array = malloc(option->value_capacity * sizeof(argus_value_t));
         if (option->value.as_array == NULL) {
             option->value_capacity = 0;
-            return;
+            return (ARGUS_ERROR_MEMORY);
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
         void *new = realloc(option->value.as_array, option->value_capacity * sizeof(argus_value_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return (ARGUS_ERROR_MEMORY);
         }
         option->value.as_array = new;
     }
+    return (ARGUS_SUCCESS);
 }
 
-void adjust_map_size(argus_option_t *option)
+int adjust_map_size(argus_option_t *option)
 {
     if (option->value.as_map == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_map   = malloc(option->value_capacity * sizeof(argus_pair_t));
         if (option->value.as_map == NULL) {
             option->value_capacity = 0;
-            return;
+            return (ARGUS_ERROR_MEMORY);
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
         void *new = realloc(option->value.as_map, option->value_capacity * sizeof(argus_pair_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return (ARGUS_ERROR_MEMORY);
         }
         option->value.as_map = new;
     }
+    return (ARGUS_SUCCESS);
 }
 
 int map_find_key(argus_option_t *option, const char *key)
-- 
2.43.0


From 61a540dd70e948bdeb6829f1a9a243ec479ad155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 02/47] fix: release map keys on rejected values and repeated
 keys

The key copy leaked whenever a key was repeated or its value was rejected, and
the out-of-memory messages printed the pointer that had just failed.
---
 source/callbacks/handlers/map_bool_handler.c   | 6 ++++--
 source/callbacks/handlers/map_float_handler.c  | 6 ++++--
 source/callbacks/handlers/map_int_handler.c    | 6 ++++--
 source/callbacks/handlers/map_string_handler.c | 7 ++++---
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 6336469..890204c 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -72,8 +72,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -85,6 +85,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
                             "Invalid boolean value for key '%s': '%s' (expected true/false, "
                             "yes/no, 1/0, on/off, y/n)",
                             key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -94,6 +95,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         if (adjust_map_size(option) != ARGUS_SUCCESS) {
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 59e759e..8ebf0c8 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -34,8 +34,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -48,6 +48,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -57,6 +58,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_float = float_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         if (adjust_map_size(option) != ARGUS_SUCCESS) {
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 0cd7f26..002156f 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -35,8 +35,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -49,6 +49,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -58,6 +59,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_int64 = int_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         if (adjust_map_size(option) != ARGUS_SUCCESS) {
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index bdc3921..0843a85 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -34,15 +34,15 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = safe_strdup(separator + 1);
     if (value == NULL) {
         free(key);
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for value '%s'",
-                            value);
+                            separator + 1);
         return ARGUS_ERROR_MEMORY;
     }
 
@@ -53,6 +53,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         // Key exists, update value
         free(option->value.as_map[key_index].value.as_string);
         option->value.as_map[key_index].value.as_string = value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
 
-- 
2.43.0


From 3b78eb848145c980d5ea0005fb608681dfd8a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 03/47] fix: do not count an element in a collection that
 received none

A value made only of separators (--tags=,) stores no element, but the option
was given an element count of one with no storage behind it, so reading or
freeing it dereferenced NULL.
---
 source/core/parsing/execute_callbacks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/execute_callbacks.c b/source/core/parsing/execute_callbacks.c
index 234e0a6..48d5c60 100644
--- a/source/core/parsing/execute_callbacks.c
+++ b/source/core/parsing/execute_callbacks.c
@@ -38,7 +38,8 @@ int execute_callbacks(argus_t *argus, argus_option_t *option, char *value)
         return (status);
 
     option->is_set = true;
-    if (option->value_count == 0)
+    if (option->value_count == 0 &&
+        !(option->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)))
         option->value_count = 1;
 
     if (option->flags & FLAG_EXIT)
-- 
2.43.0


From 7bc49c14cb767cbd198b56202a0f86b3afcd59d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 04/47] fix: forget element counts when a value is released

After a failed parse or argus_free() the released collections kept their
element count, so argus_count(), the indexed reads and the iterators went on
reading through the NULL or stale storage.
---
 source/utils/value_utils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 917a0da..120b63e 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -23,8 +23,11 @@ void free_option_value(argus_option_t *option)
         option->free_handler(option);
     else
         free(option->value.as_ptr);
-    option->is_allocated = false;
-    option->value.as_ptr = NULL;
+    option->is_allocated   = false;
+    option->is_set         = false;
+    option->value.as_ptr   = NULL;
+    option->value_count    = 0;
+    option->value_capacity = 0;
 }
 
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
-- 
2.43.0


From e145b917d423e32ebf6c48b247457aeb31d5c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 05/47] fix: start every parse from the declared state of the
 options

Values, set flags, element counts and the command stack of an earlier parse
leaked into the next one on the same table or context; stale counts made the
collections read uninitialised storage and the command stack could overflow.
---
 source/api/argus_parse.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index 35da575..6df7153 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -14,12 +14,35 @@
 #include "argus/errors.h"
 #include "argus/internal/display.h"
 #include "argus/internal/parsing.h"
+#include "argus/internal/utils.h"
 #include "argus/types.h"
 
 void argus_free(argus_t *argus);
 
+/**
+ * reset_options - Bring options back to their declared state before a parse
+ *
+ * Only commands that an earlier parse activated can hold values.
+ */
+static void reset_options(argus_option_t *options)
+{
+    for (argus_option_t *option = options; option->type != TYPE_NONE; ++option) {
+        bool was_active = option->type == TYPE_SUBCOMMAND && option->is_set;
+
+        free_option_value(option);
+        option->is_set      = option->have_default;
+        option->value       = option->default_value;
+        option->value_count = 0;
+        if (was_active && option->sub_options != NULL)
+            reset_options(option->sub_options);
+    }
+}
+
 int argus_parse(argus_t *argus, int argc, char **argv)
 {
+    reset_options(argus->options);
+    argus->subcommand_depth = 0;
+
     int status        = parse_args(argus, argus->options, argc - 1, &argv[1]);
     argus->error_code = status;
     if (status == ARGUS_SHOULD_EXIT) {
-- 
2.43.0


From 50d5e504dbe436a4c33ed3e81d7c910160633b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 06/47] fix: let environment variables take precedence over
 default values

An option with a default counted as set, so its environment variable was
ignored although the documented order is command line, environment, default.
---
 source/core/parsing/load_env_vars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index e03c241..1cc62f6 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -73,7 +73,9 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (option->type == TYPE_GROUP || option->type == TYPE_SUBCOMMAND)
             continue;
 
-        if (option->is_set && !(option->flags & FLAG_ENV_OVERRIDE))
+        // A default value (set, but no value counted) yields to the environment
+        bool only_default = option->have_default && option->value_count == 0;
+        if (option->is_set && !only_default && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
         const char *env_name = get_env_var_name(argus, option);
-- 
2.43.0


From 3688131a645944ccc2268b9516be3993b80fbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 07/47] fix: replace, not extend, an overridden value and never
 restore freed storage

With FLAG_ENV_OVERRIDE a collection from the command line was extended by the
environment, and when the variable was rejected the old pointer was put back
although the handler may have reallocated it, freeing it twice.
---
 source/core/parsing/load_env_vars.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 1cc62f6..21501fc 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -14,6 +14,7 @@
 
 #include "argus/errors.h"
 #include "argus/internal/parsing.h"
+#include "argus/internal/utils.h"
 #include "argus/types.h"
 
 /**
@@ -86,18 +87,12 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (!env_value)
             continue;
 
-        bool          was_set   = option->is_set;
-        argus_value_t old_value = option->value;
+        // The variable replaces a value from the command line, it does not extend it
+        free_option_value(option);
 
-        //! possible leak here
         int status = execute_callbacks(argus, option, env_value);
-        if (status != ARGUS_SUCCESS) {
-            if (was_set) {
-                option->is_set = was_set;
-                option->value  = old_value;
-            }
+        if (status != ARGUS_SUCCESS)
             return (status);
-        }
     }
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From a4ccdb84af702e760e9f17e91453a390a09469a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 08/47] fix: honour exit options and report the error code
 after the argument stage

An option that ends the program made argus_parse() return a bare 1 when it came
from the environment, and failures of environment values and post-parse
validators did not reach argus->error_code.
---
 source/api/argus_parse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index 6df7153..49acdf0 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -61,12 +61,18 @@ int argus_parse(argus_t *argus, int argc, char **argv)
     }
 
     status = load_env_vars(argus);
+    if (status == ARGUS_SHOULD_EXIT) {
+        argus_free(argus);
+        exit(ARGUS_SUCCESS);
+    }
     if (status != ARGUS_SUCCESS) {
+        argus->error_code = status;
         argus_free(argus);
         return (status);
     }
 
-    status = post_parse_validation(argus);
+    status            = post_parse_validation(argus);
+    argus->error_code = status;
     if (status != ARGUS_SUCCESS)
         argus_free(argus);
     return (status);
-- 
2.43.0


From e98b238bf18d4cdb7a6c306ef3a17a751ac73c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 09/47] fix: refuse commands nested deeper than the command
 stack

The ninth nested command was written past the end of subcommand_stack.
---
 source/core/parsing/option_handle_subcommand.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/parsing/option_handle_subcommand.c b/source/core/parsing/option_handle_subcommand.c
index 630cd08..c7b67d2 100644
--- a/source/core/parsing/option_handle_subcommand.c
+++ b/source/core/parsing/option_handle_subcommand.c
@@ -7,11 +7,19 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include "argus/errors.h"
 #include "argus/internal/parsing.h"
 #include "argus/types.h"
 
 int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **argv)
 {
+    if (argus->subcommand_depth >= MAX_SUBCOMMAND_DEPTH) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_STACK_OVERFLOW,
+                            "Too many nested subcommands at '%s' (maximum is %d)", option->name,
+                            MAX_SUBCOMMAND_DEPTH);
+        return ARGUS_ERROR_STACK_OVERFLOW;
+    }
+
     option->is_set                                   = true;
     argus->subcommand_stack[argus->subcommand_depth] = option;
     argus->subcommand_depth++;
-- 
2.43.0


From 26eff53d4bec089aeeecbb2985a59ba94ebed757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 10/47] fix: an exact command name is never ambiguous

With a longer command listed first ('remove-all' before 'remove'), the exact
name 'remove' was reported as ambiguous.
---
 source/core/parsing/parse_args.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index e730c0d..e881099 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -20,6 +20,14 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
 {
     argus_option_t *subcommand = NULL;
 
+    // An exact name always wins, wherever it stands in the table
+    for (int i = 0; options[i].type != TYPE_NONE; ++i) {
+        if (options[i].type == TYPE_SUBCOMMAND && strcmp(name, options[i].name) == 0) {
+            *result = &options[i];
+            return ARGUS_SUCCESS;
+        }
+    }
+
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         if (options[i].type == TYPE_SUBCOMMAND && starts_with(name, options[i].name) != NULL) {
             if (subcommand != NULL) {
@@ -31,10 +39,6 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
                                     options[i].help);
                 return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND;
             }
-            if (subcommand == NULL && strcmp(name, options[i].name) == 0) {
-                *result = &options[i];
-                return ARGUS_SUCCESS;
-            }
             subcommand = &options[i];
         }
     }
-- 
2.43.0


From e675c2b2f08d5d0d76fe8a8c40ccfe0badd05670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 11/47] fix: survive a failed group allocation while organizing
 help

---
 source/display/help/help_organizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 2f34084..f474984 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -93,7 +93,8 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 if (current_group != NULL) {
                     if (group == NULL)
                         group = find_or_create_group(data, current_group);
-                    add_option_to_list(&group->options, option);
+                    if (group != NULL)
+                        add_option_to_list(&group->options, option);
                 } else
                     add_option_to_list(&data->ungrouped, option);
                 break;
-- 
2.43.0


From a2ba71149bb0fc868a9d8f53ef69880118d45afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 12/47] fix: terminate help wrapping when the line width leaves
 no room for text

With max_line_width equal to description_column + 2 the wrapping loop printed
empty lines forever.
---
 source/display/help/help_formatter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 3762515..9f33f89 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -171,9 +171,11 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
     size_t current_pos = 0;
     size_t last_space  = 0;
 
+    // Without room next to the "- " prefix, break only at newlines
+    size_t width = line_width > indent + 2 ? line_width - indent - 2 : text_len + 1;
+
     while (current_pos < text_len) {
-        while (current_pos < text_len &&
-               current_pos - line_start < line_width - indent - 2 &&  // Consider "- " prefix
+        while (current_pos < text_len && current_pos - line_start < width &&
                text[current_pos] != '\n') {
             if (text[current_pos] == ' ')
                 last_space = current_pos;
@@ -187,7 +189,7 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 
             if (current_pos < text_len)
                 putnchar(' ', indent + 2);
-        } else if (current_pos - line_start >= line_width - indent - 2) {
+        } else if (current_pos - line_start >= width) {
             if (last_space > line_start) {
                 printf("%.*s\n", (int)(last_space - line_start), text + line_start);
                 line_start = last_space + 1;
-- 
2.43.0


From 8472dc8bfcba7148a4ad63e37cc7629477dbf6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 13/47] fix: build environment and hint names in caller
 storage, not shared statics

---
 includes/argus/internal/help.h       |  6 ++++--
 source/core/parsing/load_env_vars.c  | 19 ++++++++++--------
 source/display/help/help_formatter.c | 30 ++++++++++++++++------------
 3 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/includes/argus/internal/help.h b/includes/argus/internal/help.h
index e44b47a..bd1b3e9 100644
--- a/includes/argus/internal/help.h
+++ b/includes/argus/internal/help.h
@@ -127,9 +127,11 @@ const char *get_collection_format(argus_valtype_t type);
  *
  * @param format     Format pattern
  * @param type_name  Base type name
- * @return           Formatted hint string (static buffer)
+ * @param buffer     Buffer for the hint
+ * @param size       Size of the buffer
+ * @return           Formatted hint string (buffer)
  */
-char *format_collection_hint(const char *format, const char *type_name);
+char *format_collection_hint(const char *format, const char *type_name, char *buffer, size_t size);
 
 /**
  * Print wrapped text with proper indentation
diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 21501fc..46b7dce 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -22,12 +22,14 @@
  *
  * @param argus  Argus context
  * @param option Option to get env var name for
+ * @param full_name Buffer for a composed name
+ * @param size Size of the buffer
  *
  * @return Environment variable name or NULL if none
  */
-static const char *get_env_var_name(argus_t *argus, argus_option_t *option)
+static const char *get_env_var_name(argus_t *argus, argus_option_t *option, char *full_name,
+                                    size_t size)
 {
-    static char full_name[128];
     const char *prefix           = argus->env_prefix ? argus->env_prefix : "";
     size_t      prefix_len       = strlen(prefix);
     bool        needs_underscore = prefix_len > 0 && prefix[prefix_len - 1] != '_';
@@ -40,9 +42,9 @@ static const char *get_env_var_name(argus_t *argus, argus_option_t *option)
             return (option->env_name);
 
         if (needs_underscore) {
-            snprintf(full_name, sizeof(full_name), "%s_%s", prefix, option->env_name);
+            snprintf(full_name, size, "%s_%s", prefix, option->env_name);
         } else {
-            snprintf(full_name, sizeof(full_name), "%s%s", prefix, option->env_name);
+            snprintf(full_name, size, "%s%s", prefix, option->env_name);
         }
         return (full_name);
     }
@@ -51,11 +53,11 @@ static const char *get_env_var_name(argus_t *argus, argus_option_t *option)
         const char *name = option->name ? option->name : (option->lname ? option->lname : "");
 
         if (option->flags & FLAG_NO_ENV_PREFIX) {
-            snprintf(full_name, sizeof(full_name), "%s", name);
+            snprintf(full_name, size, "%s", name);
         } else if (needs_underscore) {
-            snprintf(full_name, sizeof(full_name), "%s_%s", prefix, name);
+            snprintf(full_name, size, "%s_%s", prefix, name);
         } else {
-            snprintf(full_name, sizeof(full_name), "%s%s", prefix, name);
+            snprintf(full_name, size, "%s%s", prefix, name);
         }
 
         for (char *p = full_name; *p; ++p)
@@ -79,7 +81,8 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (option->is_set && !only_default && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
-        const char *env_name = get_env_var_name(argus, option);
+        char        full_name[128];
+        const char *env_name = get_env_var_name(argus, option, full_name, sizeof(full_name));
         if (!env_name)
             continue;
 
diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 9f33f89..8b6fec8 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -61,11 +61,9 @@ const char *get_collection_format(argus_valtype_t type)
     return NULL;
 }
 
-char *format_collection_hint(const char *format, const char *type_name)
+char *format_collection_hint(const char *format, const char *type_name, char *buffer, size_t size)
 {
-    static char buffer[64];
-
-    snprintf(buffer, sizeof(buffer), format, type_name);
+    snprintf(buffer, size, format, type_name);
     return buffer;
 }
 
@@ -116,12 +114,14 @@ char *get_smart_hint(argus_t *argus, const argus_option_t *option)
  *
  * @param argus  Argus context
  * @param option Option to get env var name for
+ * @param full_name Buffer for a composed name
+ * @param size Size of the buffer
  *
  * @return Environment variable name or NULL if none
  */
-static const char *get_env_var_name_for_display(argus_t *argus, const argus_option_t *option)
+static const char *get_env_var_name_for_display(argus_t *argus, const argus_option_t *option,
+                                                char *full_name, size_t size)
 {
-    static char full_name[128];
     const char *prefix           = argus->env_prefix ? argus->env_prefix : "";
     size_t      prefix_len       = strlen(prefix);
     bool        needs_underscore = prefix_len > 0 && prefix[prefix_len - 1] != '_';
@@ -134,9 +134,9 @@ static const char *get_env_var_name_for_display(argus_t *argus, const argus_opti
             return option->env_name;
 
         if (needs_underscore) {
-            snprintf(full_name, sizeof(full_name), "%s_%s", prefix, option->env_name);
+            snprintf(full_name, size, "%s_%s", prefix, option->env_name);
         } else {
-            snprintf(full_name, sizeof(full_name), "%s%s", prefix, option->env_name);
+            snprintf(full_name, size, "%s%s", prefix, option->env_name);
         }
         return full_name;
     }
@@ -145,11 +145,11 @@ static const char *get_env_var_name_for_display(argus_t *argus, const argus_opti
         const char *name = option->name ? option->name : (option->lname ? option->lname : "");
 
         if (option->flags & FLAG_NO_ENV_PREFIX) {
-            snprintf(full_name, sizeof(full_name), "%s", name);
+            snprintf(full_name, size, "%s", name);
         } else if (needs_underscore) {
-            snprintf(full_name, sizeof(full_name), "%s_%s", prefix, name);
+            snprintf(full_name, size, "%s_%s", prefix, name);
         } else {
-            snprintf(full_name, sizeof(full_name), "%s%s", prefix, name);
+            snprintf(full_name, size, "%s%s", prefix, name);
         }
 
         for (char *p = full_name; *p; ++p)
@@ -229,7 +229,9 @@ size_t print_option_name(argus_t *argus, const argus_option_t *option, size_t in
             const char *collection_format = get_collection_format(option->value_type);
 
             if (collection_format) {
-                const char *format_str = format_collection_hint(collection_format, smart_hint);
+                char        buffer[64];
+                const char *format_str = format_collection_hint(collection_format, smart_hint,
+                                                                buffer, sizeof(buffer));
                 name_len += printf(" <%s>", format_str);
             } else
                 name_len += printf(" <%s>", smart_hint);
@@ -352,7 +354,9 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
 // Helper function to append environment variable information
 static char *append_env_info(char *description, argus_t *argus, const argus_option_t *option)
 {
-    const char *env_name = get_env_var_name_for_display(argus, option);
+    char        full_name[128];
+    const char *env_name =
+        get_env_var_name_for_display(argus, option, full_name, sizeof(full_name));
     if (!env_name)
         return description;
 
-- 
2.43.0


From 747d2ed688376eac5c432bdafda8b8d9df88c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 14/47] fix: keep the structure check's nesting depth per call
 and bounded

---
 source/core/validation/validate_structure.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index acb8db8..f555d59 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -186,10 +186,9 @@ static int validate_type_format(argus_t *argus, argus_option_t *options)
     return (status);
 }
 
-int validate_structure(argus_t *argus, argus_option_t *options)
+static int validate_options_at(argus_t *argus, argus_option_t *options, int subcommand_depth)
 {
-    int        status           = ARGUS_SUCCESS;
-    static int subcommand_depth = 0;
+    int status = ARGUS_SUCCESS;
 
     if (validate_placement(options) != ARGUS_SUCCESS)
         status = ARGUS_ERROR_MALFORMED_OPTION;
@@ -201,16 +200,21 @@ int validate_structure(argus_t *argus, argus_option_t *options)
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         argus_option_t *option = &options[i];
         if (option->type == TYPE_SUBCOMMAND && option->sub_options != NULL) {
-            subcommand_depth++;
-            if (subcommand_depth > MAX_SUBCOMMAND_DEPTH) {
+            if (subcommand_depth >= MAX_SUBCOMMAND_DEPTH) {
                 ARGUS_STRUCT_ERROR(option, "Subcommand depth exceeds maximum allowed (%d)",
                                    MAX_SUBCOMMAND_DEPTH);
                 status = ARGUS_ERROR_MALFORMED_OPTION;
+                continue;
             }
-            if (validate_structure(argus, option->sub_options) != ARGUS_SUCCESS)
+            if (validate_options_at(argus, option->sub_options, subcommand_depth + 1) !=
+                ARGUS_SUCCESS)
                 status = ARGUS_ERROR_MALFORMED_OPTION;
-            subcommand_depth--;
         }
     }
     return (status);
 }
+
+int validate_structure(argus_t *argus, argus_option_t *options)
+{
+    return (validate_options_at(argus, options, 0));
+}
-- 
2.43.0


From e04e93717ee22562c35cc293e836540c2b34c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 15/47] fix: drop repeated map values without needing memory

---
 source/utils/multi_values.c | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index dc3c591..6e8a672 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -267,24 +267,13 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
     if (count <= 1)
         return count;
 
-    // Allocate array to track duplicates
-    bool *duplicates = calloc(count, sizeof(bool));
-    if (!duplicates)
-        return count;  // Failed to allocate, return unchanged
-
-    size_t unique_count = 0;
-
-    // Mark duplicates
-    for (size_t i = 0; i < count; i++) {
-        if (duplicates[i])
-            continue;
-
-        for (size_t j = i + 1; j < count; j++) {
-            if (duplicates[j])
-                continue;
+    size_t unique_count = 1;
 
-            bool is_duplicate = false;
+    // Keep the first pair of each value, in place
+    for (size_t i = 1; i < count; i++) {
+        bool is_duplicate = false;
 
+        for (size_t j = 0; j < unique_count && !is_duplicate; j++) {
             switch (type) {
                 case VALUE_TYPE_INT:
                 case VALUE_TYPE_MAP_INT:
@@ -313,18 +302,10 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
                 default:
                     break;
             }
-
-            if (is_duplicate)
-                duplicates[j] = true;
         }
-    }
 
-    // Rebuild the array without duplicates
-    for (size_t i = 0; i < count; i++) {
-        if (!duplicates[i]) {
-            if (i != unique_count)
-                map[unique_count] = map[i];
-            unique_count++;
+        if (!is_duplicate) {
+            map[unique_count++] = map[i];
         } else {
             // Free duplicate string keys
             free((void *)map[i].key);
@@ -336,7 +317,6 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
         }
     }
 
-    free(duplicates);
     return unique_count;
 }
 
-- 
2.43.0


From fcd0744f83b874f2382c11b64390cbcd1167738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 16/47] fix: check float values against their range as floats

---
 source/callbacks/validators/range_validator.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index b521b20..12c46f3 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -25,6 +25,17 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
         return ARGUS_ERROR_INVALID_RANGE;
     }
 
+    if (option->value_type == VALUE_TYPE_FLOAT) {
+        double value = option->value.as_float;
+        if (!(value >= (double)data.range.min && value <= (double)data.range.max)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
+                                "Value %g is out of range %" PRId64 "-%" PRId64, value,
+                                data.range.min, data.range.max);
+            return ARGUS_ERROR_INVALID_RANGE;
+        }
+        return (ARGUS_SUCCESS);
+    }
+
     if (option->value.as_int < data.range.min || option->value.as_int > data.range.max) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
                             "Value %d is out of range %" PRId64 "-%" PRId64, option->value.as_int,
-- 
2.43.0


From 42b39e73584ae49736e44191520ee91e74f05fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 17/47] fix: terminate integer ranges that end at the largest
 integer

---
 source/callbacks/handlers/array_int_handler.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 2e62d06..9080ab3 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -8,6 +8,7 @@
  */
 
 #include <ctype.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -87,10 +88,10 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
  */
 static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
-    for (int i = range->start; i <= range->end; i++) {
+    for (int64_t i = range->start; i <= range->end; i++) {
         if (adjust_array_size(option) != ARGUS_SUCCESS)
             return ARGUS_ERROR_MEMORY;
-        option->value.as_array[option->value_count].as_int = i;
+        option->value.as_array[option->value_count].as_int64 = i;
         option->value_count++;
     }
     return ARGUS_SUCCESS;
-- 
2.43.0


From 9cb19ac39439419c1c36a96c6430d02a4ce81f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 18/47] fix: enforce FLAG_REQUIRED on options, not only on
 positionals

---
 source/core/parsing/post_parse_validation.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/core/parsing/post_parse_validation.c b/source/core/parsing/post_parse_validation.c
index 5793dab..1ff4a14 100644
--- a/source/core/parsing/post_parse_validation.c
+++ b/source/core/parsing/post_parse_validation.c
@@ -77,9 +77,12 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
             continue;
         }
 
-        if (option->type == TYPE_POSITIONAL && (option->flags & FLAG_REQUIRED) && !option->is_set) {
-            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_REQUIRED,
-                                "Required positional argument missing: '%s'", option->name);
+        if ((option->type == TYPE_OPTION || option->type == TYPE_POSITIONAL) &&
+            (option->flags & FLAG_REQUIRED) && !option->is_set) {
+            const char *kind =
+                option->type == TYPE_POSITIONAL ? "positional argument" : "option";
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_REQUIRED, "Required %s missing: '%s'",
+                                kind, option->name);
             return (ARGUS_ERROR_MISSING_REQUIRED);
         }
 
-- 
2.43.0


From 6bc3b8f6d9ff5d5d67fece8d99b9e06c296f435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 19/47] fix: let an environment variable disable a flag

---
 source/callbacks/handlers/flag_handler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/handlers/flag_handler.c b/source/callbacks/handlers/flag_handler.c
index 0f1c029..96c5f12 100644
--- a/source/callbacks/handlers/flag_handler.c
+++ b/source/callbacks/handlers/flag_handler.c
@@ -9,12 +9,14 @@
 
 #include "argus/errors.h"
 #include "argus/internal/utils.h"
+#include "argus/options.h"
 #include "argus/types.h"
 
 int flag_handler(argus_t *argus, argus_option_t *option, char *arg)
 {
-    UNUSED(argus);
-    UNUSED(arg);
+    // Only an environment variable gives a flag a value, which may disable it
+    if (arg != NULL)
+        return (bool_handler(argus, option, arg));
     option->value.as_bool = true;
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From a5a07984a30d7c7a556151b95df6dbeca19b7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 20/47] fix: keep floating-point default values

---
 includes/argus/options.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/includes/argus/options.h b/includes/argus/options.h
index af3565c..1544348 100644
--- a/includes/argus/options.h
+++ b/includes/argus/options.h
@@ -72,8 +72,14 @@ ARGUS_API char *format_choices_validator(validator_data_t data);
 # define ARGUS_DEBUG_INFO            .line = 0, .file = NULL
 #endif /* ARGUS_DEBUG */
 #define DEFINE_NAME(lname, sname) ((lname) ? (lname) : CHAR_TO_STRING(sname))
-#define DEFAULT(val)            .value = (argus_value_t){ .raw = (uintptr_t)(val) },         \
-                                .default_value = (argus_value_t){ .raw = (uintptr_t)(val) }, \
+#define _DEFAULT_FLOAT_(val)    ((argus_value_t){ \
+                                    .as_float = _Generic((val), float: (val), double: (val), default: 0.0) })
+#define _DEFAULT_VALUE_(val)    _Generic((val), \
+                                    float: _DEFAULT_FLOAT_(val), \
+                                    double: _DEFAULT_FLOAT_(val), \
+                                    default: (argus_value_t){ .raw = (uintptr_t)(val) })
+#define DEFAULT(val)            .value = _DEFAULT_VALUE_(val), \
+                                .default_value = _DEFAULT_VALUE_(val), \
                                 .is_set = true, \
                                 .have_default = true
 #define HANDLER(fn)             .handler = (argus_handler_t)(fn)
-- 
2.43.0


From bb786110df7efeb5573679894c5e806a2ff6c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 21/47] fix: never block on or lose the captured standard error

---
 source/utils/stream.c | 59 +++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/source/utils/stream.c b/source/utils/stream.c
index cc22e04..04262a9 100644
--- a/source/utils/stream.c
+++ b/source/utils/stream.c
@@ -50,6 +50,39 @@ static int is_valid_fd(int fd)
     return (fd == STDOUT_FILENO || fd == STDERR_FILENO || fd == STDIN_FILENO);
 }
 
+/**
+ * Put a pipe end in non-blocking mode: neither a full nor an empty pipe may
+ * suspend the program, which holds both ends
+ */
+static int set_nonblocking(int fd)
+{
+    int flags = fcntl(fd, F_GETFL);
+
+    if (flags == -1)
+        return -1;
+    return fcntl(fd, F_SETFL, flags | O_NONBLOCK);
+}
+
+static int duplicate_to(int old_fd, int new_fd)
+{
+    int result;
+
+    do {
+        result = dup2(old_fd, new_fd);
+    } while (result == -1 && (errno == EINTR || errno == EBUSY));
+    return result;
+}
+
+static int read_pipe(int fd, char *buffer, size_t size)
+{
+    int result;
+
+    do {
+        result = (int)read(fd, buffer, size);
+    } while (result == -1 && errno == EINTR);
+    return result;
+}
+
 int stream_redirect(int fd)
 {
     if (!is_valid_fd(fd))
@@ -63,6 +96,12 @@ int stream_redirect(int fd)
     if (pipe(info->pipe_fds) != 0)
         return STREAM_ERROR_PIPE_FAILED;
 
+    if (set_nonblocking(info->pipe_fds[0]) == -1 || set_nonblocking(info->pipe_fds[1]) == -1) {
+        close(info->pipe_fds[0]);
+        close(info->pipe_fds[1]);
+        return STREAM_ERROR_PIPE_FAILED;
+    }
+
     info->backup_fd = dup(fd);
     if (info->backup_fd == -1) {
         close(info->pipe_fds[0]);
@@ -70,7 +109,7 @@ int stream_redirect(int fd)
         return STREAM_ERROR_DUP_FAILED;
     }
 
-    if (dup2(info->pipe_fds[1], fd) == -1) {
+    if (duplicate_to(info->pipe_fds[1], fd) == -1) {
         close(info->backup_fd);
         close(info->pipe_fds[0]);
         close(info->pipe_fds[1]);
@@ -80,9 +119,6 @@ int stream_redirect(int fd)
     close(info->pipe_fds[1]);
     info->pipe_fds[1] = -1;
 
-    int flags = fcntl(info->pipe_fds[0], F_GETFL);
-    fcntl(info->pipe_fds[0], F_SETFL, flags | O_NONBLOCK);
-
     info->fd        = fd;
     info->is_active = 1;
 
@@ -109,7 +145,7 @@ char *stream_read(int fd)
     char   buffer[BUFFER_SIZE];
 
     int bytes_read;
-    while ((bytes_read = read(info->pipe_fds[0], buffer, sizeof(buffer))) > 0) {
+    while ((bytes_read = read_pipe(info->pipe_fds[0], buffer, sizeof(buffer))) > 0) {
         if (total_size + bytes_read + 1 > result_capacity) {
             result_capacity = (result_capacity == 0) ? BUFFER_SIZE : result_capacity * 2;
             while (total_size + bytes_read + 1 > result_capacity)
@@ -163,11 +199,11 @@ void stream_restore(int fd)
         fflush(stderr);
 
     char buffer[BUFFER_SIZE];
-    while (read(info->pipe_fds[0], buffer, sizeof(buffer)) > 0) {
+    while (read_pipe(info->pipe_fds[0], buffer, sizeof(buffer)) > 0) {
         // Just read until the pipe is empty
     }
 
-    dup2(info->backup_fd, fd);
+    duplicate_to(info->backup_fd, fd);
     close(info->backup_fd);
     close(info->pipe_fds[0]);
 
@@ -187,11 +223,6 @@ int stream_is_active(int fd)
 
 void stream_cleanup_all(void)
 {
-    for (int i = 0; i < MAX_STREAMS; i++) {
-        stream_info_t *info = &streams[i];
-        if (info->is_active) {
-            int fd = (i == 0) ? STDOUT_FILENO : STDERR_FILENO;
-            stream_restore(fd);
-        }
-    }
+    for (int fd = 0; fd < MAX_STREAMS; fd++)
+        stream_restore(fd);
 }
-- 
2.43.0


From 541e22c10304a59e6f32e06c16a883b7311d7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 22/47] fix: report each failing default on its own, with or
 without a redirection

---
 source/core/validation/validate_arguments.c | 35 +++++++++++----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 5f9b03c..42d3171 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -24,25 +24,28 @@ static int validate_default_value(argus_t *argus, argus_option_t *option)
         status = ARGUS_ERROR_INVALID_DEFAULT;
     } else if (option->have_default && option->validators != NULL) {
         for (size_t i = 0; option->validators[i] != NULL; ++i) {
-            redirect_stderr();
-            validator_entry_t *validator = option->validators[i];
-            if (validator->order == ORDER_PRE && option->value_type == VALUE_TYPE_STRING) {
-                if (validator->func(argus, option->default_value.as_string, validator->data) !=
-                    ARGUS_SUCCESS)
-                    status = ARGUS_ERROR_INVALID_DEFAULT;
-            } else if (validator->order == ORDER_POST) {
-                if (validator->func(argus, (void *)option, validator->data) != ARGUS_SUCCESS)
-                    status = ARGUS_ERROR_INVALID_DEFAULT;
-            }
-            if (status != ARGUS_SUCCESS) {
-                char *error_message = read_stderr();
+            // Without a redirection of its own, the message goes to stderr directly
+            bool               redirected = (redirect_stderr() == STREAM_SUCCESS);
+            int                result     = ARGUS_SUCCESS;
+            validator_entry_t *validator  = option->validators[i];
+
+            if (validator->order == ORDER_PRE && option->value_type == VALUE_TYPE_STRING)
+                result = validator->func(argus, option->default_value.as_string, validator->data);
+            else if (validator->order == ORDER_POST)
+                result = validator->func(argus, (void *)option, validator->data);
+
+            char *error_message = NULL;
+            if (redirected) {
+                if (result != ARGUS_SUCCESS)
+                    error_message = read_stderr();
                 restore_stderr();
+            }
+            if (result != ARGUS_SUCCESS) {
                 ARGUS_STRUCT_ERROR(option, "Default value does not pass validations: \n\t    %s",
-                                   error_message);
-                free(error_message);
+                                   error_message ? error_message : "");
                 status = ARGUS_ERROR_INVALID_DEFAULT;
-            } else
-                restore_stderr();
+            }
+            free(error_message);
         }
     }
     return (status);
-- 
2.43.0


From 91d60e555203c4ec655287360a625159382db557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 23/47] fix: bound the command list by the supported nesting
 depth

---
 source/display/command_display.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/display/command_display.c b/source/display/command_display.c
index 4c4e5a7..b9242f6 100644
--- a/source/display/command_display.c
+++ b/source/display/command_display.c
@@ -40,7 +40,7 @@ static void print_command_line(const char *command_path, const char *description
 }
 
 static void print_subcommand_paths(const argus_option_t *options, const char *base_path,
-                                   argus_t *argus, bool *first_in_group)
+                                   argus_t *argus, bool *first_in_group, size_t depth)
 {
     char path_buffer[COMMAND_BUFFER_SIZE];
     bool current_group_started = false;
@@ -59,11 +59,13 @@ static void print_subcommand_paths(const argus_option_t *options, const char *ba
         snprintf(path_buffer, sizeof(path_buffer), "%s %s", base_path, option->name);
         print_command_line(path_buffer, option->help, argus);
 
-        if (option->sub_options != NULL) {
+        // Deeper commands cannot be called, and a table may contain itself
+        if (option->sub_options != NULL && depth + 1 < MAX_SUBCOMMAND_DEPTH) {
             char sub_path_buffer[COMMAND_BUFFER_SIZE];
             snprintf(sub_path_buffer, sizeof(sub_path_buffer), "%s %s", base_path, option->name);
             bool nested_first = true;
-            print_subcommand_paths(option->sub_options, sub_path_buffer, argus, &nested_first);
+            print_subcommand_paths(option->sub_options, sub_path_buffer, argus, &nested_first,
+                                   depth + 1);
         }
     }
 }
@@ -75,7 +77,8 @@ void display_available_subcommands(argus_t *argus, const argus_option_t *command
 
     bool first_group = true;
     if (command->sub_options != NULL)
-        print_subcommand_paths(command->sub_options, command->name, argus, &first_group);
+        print_subcommand_paths(command->sub_options, command->name, argus, &first_group,
+                               argus->subcommand_depth);
 
     printf("\nRun '");
     printf("%s", argus->program_name);
-- 
2.43.0


From 5d940c058fc8fbf4de0bec02ea3be993209388ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 24/47] fix: order and compare 64-bit collection integers over
 their whole range

---
 source/utils/multi_values.c | 56 +++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 6e8a672..ed18f29 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -30,6 +30,18 @@ static int compare_int_values(const void *a, const void *b)
     return 0;
 }
 
+static int compare_int64_values(const void *a, const void *b)
+{
+    const argus_value_t *va = (const argus_value_t *)a;
+    const argus_value_t *vb = (const argus_value_t *)b;
+
+    if (va->as_int64 < vb->as_int64)
+        return -1;
+    if (va->as_int64 > vb->as_int64)
+        return 1;
+    return 0;
+}
+
 static int compare_string_values(const void *a, const void *b)
 {
     const argus_value_t *va = (const argus_value_t *)a;
@@ -73,9 +85,9 @@ static int compare_map_int_values(const void *a, const void *b)
     const argus_pair_t *pa = (const argus_pair_t *)a;
     const argus_pair_t *pb = (const argus_pair_t *)b;
 
-    if (pa->value.as_int < pb->value.as_int)
+    if (pa->value.as_int64 < pb->value.as_int64)
         return -1;
-    if (pa->value.as_int > pb->value.as_int)
+    if (pa->value.as_int64 > pb->value.as_int64)
         return 1;
     return 0;
 }
@@ -124,6 +136,14 @@ void sort_int_array(argus_value_t *array, size_t count)
     qsort(array, count, sizeof(argus_value_t), compare_int_values);
 }
 
+// Variadic integers use the whole 64 bits, unlike the elements of integer ranges
+static void sort_int64_array(argus_value_t *array, size_t count)
+{
+    if (count <= 1)
+        return;
+    qsort(array, count, sizeof(argus_value_t), compare_int64_values);
+}
+
 void sort_string_array(argus_value_t *array, size_t count)
 {
     if (count <= 1)
@@ -166,6 +186,26 @@ size_t make_int_array_unique(argus_value_t *array, size_t count)
     return unique_count;
 }
 
+static size_t make_int64_array_unique(argus_value_t *array, size_t count)
+{
+    if (count <= 1)
+        return count;
+
+    size_t unique_count = 1;
+
+    for (size_t i = 1; i < count; i++) {
+        bool is_duplicate = false;
+
+        for (size_t j = 0; j < unique_count && !is_duplicate; j++)
+            is_duplicate = (array[i].as_int64 == array[j].as_int64);
+
+        if (!is_duplicate)
+            array[unique_count++] = array[i];
+    }
+
+    return unique_count;
+}
+
 size_t make_string_array_unique(argus_value_t *array, size_t count)
 {
     if (count <= 1)
@@ -277,7 +317,7 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
             switch (type) {
                 case VALUE_TYPE_INT:
                 case VALUE_TYPE_MAP_INT:
-                    is_duplicate = (map[i].value.as_int == map[j].value.as_int);
+                    is_duplicate = (map[i].value.as_int64 == map[j].value.as_int64);
                     break;
 
                 case VALUE_TYPE_STRING:
@@ -333,10 +373,13 @@ void apply_array_flags(argus_option_t *option)
     if (option->flags & FLAG_SORTED) {
         switch (option->value_type) {
             case VALUE_TYPE_ARRAY_INT:
-            case VALUE_TYPE_VARIADIC_INT:
                 sort_int_array(option->value.as_array, option->value_count);
                 break;
 
+            case VALUE_TYPE_VARIADIC_INT:
+                sort_int64_array(option->value.as_array, option->value_count);
+                break;
+
             case VALUE_TYPE_ARRAY_STRING:
             case VALUE_TYPE_VARIADIC_STRING:
                 sort_string_array(option->value.as_array, option->value_count);
@@ -358,10 +401,13 @@ void apply_array_flags(argus_option_t *option)
 
         switch (option->value_type) {
             case VALUE_TYPE_ARRAY_INT:
-            case VALUE_TYPE_VARIADIC_INT:
                 new_count = make_int_array_unique(option->value.as_array, option->value_count);
                 break;
 
+            case VALUE_TYPE_VARIADIC_INT:
+                new_count = make_int64_array_unique(option->value.as_array, option->value_count);
+                break;
+
             case VALUE_TYPE_ARRAY_STRING:
             case VALUE_TYPE_VARIADIC_STRING:
                 new_count = make_string_array_unique(option->value.as_array, option->value_count);
-- 
2.43.0


From 0dd31a8e772b5d6a8f6be15aef732727e5ac3898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 25/47] fix: check integer options against ranges and choices
 as 64-bit values

---
 source/callbacks/validators/choices_validator.c | 12 ++++++++----
 source/callbacks/validators/range_validator.c   |  8 ++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index a276015..7fa2f38 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -45,19 +45,23 @@ int choices_int_validator(argus_t *argus, void *option_ptr, validator_data_t dat
     argus_option_t *option  = (argus_option_t *)option_ptr;
     choices_data_t *choices = &data.choices;
 
+    // An integer option holds 64 bits
+    int64_t value =
+        option->value_type == VALUE_TYPE_INT ? option->value.as_int64 : option->value.as_int;
+
     for (size_t i = 0; i < choices->count; i++) {
-        if (option->value.as_int == choices->as_ints[i])
+        if (value == choices->as_ints[i])
             return ARGUS_SUCCESS;
     }
 
     char *choices_formatted = format_choices_validator(data);
     if (choices_formatted) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%d' is not one of [%s]",
-                            option->value.as_int, choices_formatted);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE,
+                            "Value '%" PRId64 "' is not one of [%s]", value, choices_formatted);
         free(choices_formatted);
     } else {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE,
-                            "Value '%d' is not one of the choices", option->value.as_int);
+                            "Value '%" PRId64 "' is not one of the choices", value);
     }
     return ARGUS_ERROR_INVALID_CHOICE;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index 12c46f3..08a51d7 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -36,9 +36,13 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
         return (ARGUS_SUCCESS);
     }
 
-    if (option->value.as_int < data.range.min || option->value.as_int > data.range.max) {
+    // An integer option holds 64 bits
+    int64_t value =
+        option->value_type == VALUE_TYPE_INT ? option->value.as_int64 : option->value.as_int;
+
+    if (value < data.range.min || value > data.range.max) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
-                            "Value %d is out of range %" PRId64 "-%" PRId64, option->value.as_int,
+                            "Value %" PRId64 " is out of range %" PRId64 "-%" PRId64, value,
                             data.range.min, data.range.max);
         return ARGUS_ERROR_INVALID_RANGE;
     }
-- 
2.43.0


From bdb3feb7124a38082de64d62e7518b79eb7633c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 26/47] fix: refuse texts that are not integers for integer
 options

---
 source/callbacks/handlers/int_handler.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/handlers/int_handler.c b/source/callbacks/handlers/int_handler.c
index 168c266..4da29c7 100644
--- a/source/callbacks/handlers/int_handler.c
+++ b/source/callbacks/handlers/int_handler.c
@@ -11,11 +11,25 @@
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 
+#include <errno.h>
 #include <stdlib.h>
 
 int int_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value = (argus_value_t){.as_int64 = strtoll(value, NULL, 10)};
+    char *endptr;
+
+    errno            = 0;
+    long long parsed = strtoll(value, &endptr, 10);
+
+    if (endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT,
+                            "Invalid value '%s': expected number", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+    if (errno == ERANGE) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE, "Value %s is out of range", value);
+        return ARGUS_ERROR_INVALID_RANGE;
+    }
+    option->value = (argus_value_t){.as_int64 = parsed};
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 44007e996a16046920a3b457d6517699f1f51cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 27/47] fix: convert decimal options in full precision and
 refuse other texts

---
 source/callbacks/handlers/array_float_handler.c | 10 +++++++++-
 source/callbacks/handlers/float_handler.c       | 11 +++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 5da4075..f70b845 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -17,11 +17,19 @@
 
 static int set_value(argus_t *argus, argus_option_t *option, char *value)
 {
+    char  *endptr;
+    double parsed = strtod(value, &endptr);
+
+    if (endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT,
+                            "Invalid value '%s': expected number", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
     if (adjust_array_size(option) != ARGUS_SUCCESS) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for '%s'", value);
         return ARGUS_ERROR_MEMORY;
     }
-    option->value.as_array[option->value_count].as_float = strtof(value, NULL);
+    option->value.as_array[option->value_count].as_float = parsed;
     option->value_count++;
     return (ARGUS_SUCCESS);
 }
diff --git a/source/callbacks/handlers/float_handler.c b/source/callbacks/handlers/float_handler.c
index d216444..548d4b7 100644
--- a/source/callbacks/handlers/float_handler.c
+++ b/source/callbacks/handlers/float_handler.c
@@ -16,7 +16,14 @@
 
 int float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value.as_float = strtof(value, NULL);
+    char  *endptr;
+    double parsed = strtod(value, &endptr);
+
+    if (endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT,
+                            "Invalid value '%s': expected number", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+    option->value.as_float = parsed;
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 2d949358a2d4c683117a747cfa00accf7c4550a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 28/47] fix: refuse integers and ranges that collections cannot
 represent

---
 source/callbacks/handlers/array_int_handler.c | 32 +++++++++++++++----
 source/callbacks/handlers/map_int_handler.c   |  6 ++--
 .../callbacks/handlers/variadic_int_handler.c |  6 ++--
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 9080ab3..e4805f4 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -8,6 +8,8 @@
  */
 
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -49,6 +51,24 @@ const char *search_range_separator(const char *value, const char *separators)
     return NULL;
 }
 
+/**
+ * Parse the text up to `end` (or its terminator) as an int
+ */
+static int parse_int(int *result, const char *value, const char *end)
+{
+    char *endptr = NULL;
+
+    errno            = 0;
+    long long parsed = strtoll(value, &endptr, 10);
+
+    if (endptr == value || (end ? endptr != end : *endptr != '\0'))
+        return -1;
+    if (errno == ERANGE || parsed < INT_MIN || parsed > INT_MAX)
+        return -1;
+    *result = (int)parsed;
+    return 0;
+}
+
 /**
  * Parse a string into an integer range
  * Formats supported: "42", "-42", "1-5", "-5-5", "-10--5"
@@ -63,19 +83,17 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
     if (range_separator != NULL) {
         // Successfully parsed as a range
         // Normalize range using MIN/MAX
-        int start    = strtol(value, NULL, 10);
-        int end      = strtol(range_separator + 1, NULL, 10);
+        int start, end;
+        if (parse_int(&start, value, range_separator) != 0 ||
+            parse_int(&end, range_separator + 1, NULL) != 0)
+            return -1;
         range->start = MIN(start, end);
         range->end   = MAX(start, end);
         return 0;
     }
 
     // Not a range, try as a single value
-    char *endptr = NULL;
-    range->start = strtol(value, &endptr, 10);
-
-    // Check if the entire string was a valid integer
-    if (*endptr != '\0')
+    if (parse_int(&range->start, value, NULL) != 0)
         return -1;  // Invalid integer format
 
     // Single value case (start = end)
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 002156f..b55a239 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -9,6 +9,7 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -42,11 +43,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     char *value = separator + 1;
 
     // Convert the string value to integer
-    char   *endptr;
+    char *endptr;
+    errno             = 0;
     int64_t int_value = strtoll(value, &endptr, 10);
 
     // Check if conversion was successful
-    if (*value == '\0' || *endptr != '\0') {
+    if (*value == '\0' || *endptr != '\0' || errno == ERANGE) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
         free(key);
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 430981e..82fc4ff 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -10,6 +10,7 @@
 #include <stdint.h>
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "argus/errors.h"
@@ -22,10 +23,11 @@ static int set_int_value(argus_option_t *option, char *value)
     if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
-    char     *endptr;
+    char *endptr;
+    errno                  = 0;
     long long parsed_value = strtoll(value, &endptr, 10);
 
-    if (*endptr != '\0' || endptr == value)
+    if (*endptr != '\0' || endptr == value || errno == ERANGE)
         return ARGUS_ERROR_INVALID_VALUE;
 
     option->value.as_array[option->value_count].as_int64 = parsed_value;
-- 
2.43.0


From ea2f5c1e2cfb72ab6972acea2601a22c4b32be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 29/47] fix: a path component must be the whole name of the
 command

"ru.option" was accepted as "run.option".
---
 source/utils/option_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index f213dad..5816536 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -123,7 +123,8 @@ argus_option_t *find_option_by_active_path(argus_t argus, const char *option_pat
 
         const char *command          = argus.subcommand_stack[i]->name;
         size_t      component_lenght = next_dot - component;
-        if (strncmp(component, command, component_lenght) != 0)
+        if (strncmp(component, command, component_lenght) != 0 ||
+            command[component_lenght] != '\0')
             return (NULL);
 
         component = next_dot + 1;
-- 
2.43.0


From fbd650deb298a127fb5b0c59a5c1f13c261a98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 30/47] fix: match long options by their whole name

Names were cut at 63 characters: longer options could not be given, and an
unknown option whose first 63 characters name another was taken for it.
---
 source/core/parsing/option_handle_long.c | 28 +++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index b2fe6fc..986da03 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -16,20 +16,28 @@
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 
+// The name is not terminated and may have any length
+static argus_option_t *find_long_option(argus_option_t *options, const char *name, size_t name_len)
+{
+    for (int i = 0; options[i].type != TYPE_NONE; ++i) {
+        const char *lname = options[i].lname;
+        if (options[i].type == TYPE_OPTION && lname != NULL && strlen(lname) == name_len &&
+            strncmp(lname, name, name_len) == 0)
+            return (&options[i]);
+    }
+    return (NULL);
+}
+
 int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char **argv, int argc,
                        int *current_index)
 {
-    char  option_name[64] = {0};
-    char *equal_pos       = strchr(arg, '=');
-    if (equal_pos != NULL) {
-        safe_strncpy(option_name, sizeof(option_name), arg, equal_pos - arg);
-    } else
-        safe_strncpy(option_name, sizeof(option_name), arg, sizeof(option_name) - 1);
+    char  *equal_pos = strchr(arg, '=');
+    size_t name_len  = equal_pos != NULL ? (size_t)(equal_pos - arg) : strlen(arg);
 
-    argus_option_t *option = find_option_by_lname(options, option_name);
+    argus_option_t *option = find_long_option(options, arg, name_len);
     if (option == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%s'",
-                            option_name);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%.*s'",
+                            (int)name_len, arg);
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
@@ -42,7 +50,7 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
             value = argv[*current_index];
         } else {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_VALUE,
-                                "Missing value for option: '--%s'", option_name);
+                                "Missing value for option: '--%s'", option->lname);
             return ARGUS_ERROR_MISSING_VALUE;
         }
     }
-- 
2.43.0


From a7a4c1fdde440daff5b411424f70d45944b1e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 31/47] fix: take negative numbers for variadic numeric
 positionals

They were read as short options, unlike for single numeric positionals.
---
 source/core/parsing/parse_args.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index e881099..9960b4f 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -81,7 +81,9 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
 
-                if (pos_opt && (pos_opt->value_type & VALUE_TYPE_ANY_NUMERIC)) {
+                if (pos_opt &&
+                    (pos_opt->value_type & (VALUE_TYPE_ANY_NUMERIC | VALUE_TYPE_VARIADIC_INT |
+                                            VALUE_TYPE_VARIADIC_FLOAT))) {
                     status = handle_positional(argus, options, arg, positional_index++);
                     if (status != ARGUS_SUCCESS)
                         return (status);
-- 
2.43.0


From e55c6613fbfa821d95b7c9ab076bd14db24fd962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 32/47] fix: do not list hidden commands

A command may be declared hidden, but help and the command lists showed it.
---
 source/display/command_display.c     | 15 +++++++++------
 source/display/help/help_organizer.c |  2 ++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/display/command_display.c b/source/display/command_display.c
index b9242f6..447743e 100644
--- a/source/display/command_display.c
+++ b/source/display/command_display.c
@@ -48,7 +48,7 @@ static void print_subcommand_paths(const argus_option_t *options, const char *ba
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &options[i];
 
-        if (option->type != TYPE_SUBCOMMAND)
+        if (option->type != TYPE_SUBCOMMAND || (option->flags & FLAG_HIDDEN))
             continue;
 
         if (!current_group_started && !*first_in_group)
@@ -97,7 +97,8 @@ static bool has_executable_subcommands(const argus_option_t *option)
     for (int i = 0; option->sub_options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *sub_option = &option->sub_options[i];
 
-        if (sub_option->type == TYPE_SUBCOMMAND && sub_option->action != NULL)
+        if (sub_option->type == TYPE_SUBCOMMAND && !(sub_option->flags & FLAG_HIDDEN) &&
+            sub_option->action != NULL)
             return true;
     }
 
@@ -106,8 +107,8 @@ static bool has_executable_subcommands(const argus_option_t *option)
 
 static bool is_effectively_simple_command(const argus_option_t *option)
 {
-    return (option->type == TYPE_SUBCOMMAND && option->action != NULL &&
-            !has_executable_subcommands(option));
+    return (option->type == TYPE_SUBCOMMAND && !(option->flags & FLAG_HIDDEN) &&
+            option->action != NULL && !has_executable_subcommands(option));
 }
 
 static bool print_simple_commands_group(argus_t *argus)
@@ -136,7 +137,8 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
     for (int i = 0; argus->options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &argus->options[i];
 
-        if (option->type != TYPE_SUBCOMMAND || !has_executable_subcommands(option))
+        if (option->type != TYPE_SUBCOMMAND || (option->flags & FLAG_HIDDEN) ||
+            !has_executable_subcommands(option))
             continue;
 
         if (printed_simple_commands || !first_family)
@@ -154,7 +156,8 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
         for (int j = 0; option->sub_options[j].type != TYPE_NONE; ++j) {
             const argus_option_t *sub_option = &option->sub_options[j];
 
-            if (sub_option->type != TYPE_SUBCOMMAND || sub_option->action == NULL)
+            if (sub_option->type != TYPE_SUBCOMMAND || (sub_option->flags & FLAG_HIDDEN) ||
+                sub_option->action == NULL)
                 continue;
 
             char full_command_path[FULL_PATH_BUFFER_SIZE];
diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index f474984..49e8512 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -104,6 +104,8 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 break;
 
             case TYPE_SUBCOMMAND:
+                if (option->flags & FLAG_HIDDEN)
+                    continue;
                 add_option_to_list(&data->subcommands, option);
                 break;
 
-- 
2.43.0


From 673141aba9fdb79564193e465e2a4119a07378c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 33/47] fix: take a "--" behind the first one as a positional

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 9960b4f..92822a1 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -55,7 +55,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
     for (int i = 0; i < argc; ++i) {
         char *arg = argv[i];
 
-        if (strcmp(arg, "--") == 0) {
+        if (!only_positional && strcmp(arg, "--") == 0) {
             only_positional = true;
             continue;
         }
-- 
2.43.0


From 1805a07c2748d518ca8ea8002effb61511a84c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 34/47] fix: do not drop a lone "-"

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 92822a1..cd0fbd3 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -76,7 +76,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
         }
 
         char *short_arg = starts_with("-", arg);
-        if (short_arg != NULL) {
+        if (short_arg != NULL && short_arg[0] != '\0') {
             // Checking if this is a negative number or an option
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
-- 
2.43.0


From bf080fecdd979f60f0f965a7c490dd3c8b0bdbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 35/47] fix: an empty argument abbreviates no command

---
 source/core/parsing/parse_args.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index cd0fbd3..a75cca7 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -28,6 +28,12 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
         }
     }
 
+    // An empty text abbreviates nothing
+    if (name[0] == '\0') {
+        *result = NULL;
+        return ARGUS_SUCCESS;
+    }
+
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         if (options[i].type == TYPE_SUBCOMMAND && starts_with(name, options[i].name) != NULL) {
             if (subcommand != NULL) {
-- 
2.43.0


From d06e7929f9fa13ee06aa6f0d076822a1934e321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 36/47] fix: show integer defaults in their whole range

---
 source/display/help/help_formatter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 8b6fec8..1a6435b 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -9,6 +9,7 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <inttypes.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -273,8 +274,8 @@ static char *append_default_info(char *description, const argus_option_t *option
 
     switch (option->value_type) {
         case VALUE_TYPE_INT:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%d)",
-                     option->default_value.as_int);
+            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%" PRId64 ")",
+                     option->default_value.as_int64);
             break;
         case VALUE_TYPE_STRING:
             if (option->default_value.as_string) {
-- 
2.43.0


From 01297b77b4851480045830698bb5bd3884a6e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 37/47] fix: keep a description that ends with a parenthesis as
 it is

---
 source/display/help/help_formatter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 1a6435b..5922a78 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -364,7 +364,9 @@ static char *append_env_info(char *description, argus_t *argus, const argus_opti
     char   env_buf[256] = {0};
     size_t desc_len     = strlen(description);
 
-    if (desc_len > 0 && description[desc_len - 1] == ')') {
+    // Join the parentheses of the library, not those of the text itself
+    size_t help_len = option->help ? strlen(option->help) : 0;
+    if (desc_len > help_len && description[desc_len - 1] == ')') {
         snprintf(env_buf, sizeof(env_buf), ", env: %s)", env_name);
         if (desc_len > 0)
             description[desc_len - 1] = '\0';
-- 
2.43.0


From b9b1965ae57ed5e7622ef0cfa823f40ac0de801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 38/47] fix: refuse a value given to a flag

---
 source/core/parsing/option_handle_long.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index 986da03..4a94467 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -41,6 +41,12 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
+    if (option->value_type == VALUE_TYPE_FLAG && equal_pos != NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT,
+                            "Option '--%s' takes no value: '%s'", option->lname, equal_pos + 1);
+        return ARGUS_ERROR_INVALID_ARGUMENT;
+    }
+
     char *value = NULL;
     if (option->value_type != VALUE_TYPE_FLAG) {
         if (equal_pos != NULL) {  // Format "--option=value"
-- 
2.43.0


From 7b499f782d563049d54bdc6c5773e5aa3ecda0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 39/47] fix: accept sorted and unique variadic positionals in
 the structure check

---
 source/core/validation/validate_arguments.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 42d3171..b54e977 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -146,9 +146,7 @@ int validate_positional(argus_t *argus, argus_option_t *option)
             ARGUS_STRUCT_ERROR(option, "Invalid flags for POSITIONAL_MANY argument");
             status = ARGUS_ERROR_INVALID_FLAG;
         }
-    }
-
-    if (option->flags & ~POSITIONAL_FLAG_MASK) {
+    } else if (option->flags & ~POSITIONAL_FLAG_MASK) {
         ARGUS_STRUCT_ERROR(option, "Invalid flags for positional");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From a24f06e1564522c2c6d31f77839ca99f6a72d50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 40/47] fix: show ranges in their whole length

---
 source/callbacks/validators/count_validator.c  | 4 ++--
 source/callbacks/validators/length_validator.c | 4 ++--
 source/callbacks/validators/range_validator.c  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/count_validator.c b/source/callbacks/validators/count_validator.c
index fc44cc1..ca01fbc 100644
--- a/source/callbacks/validators/count_validator.c
+++ b/source/callbacks/validators/count_validator.c
@@ -43,10 +43,10 @@ int count_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_count_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(48);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 48, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/length_validator.c b/source/callbacks/validators/length_validator.c
index bea096a..6de5e87 100644
--- a/source/callbacks/validators/length_validator.c
+++ b/source/callbacks/validators/length_validator.c
@@ -48,10 +48,10 @@ int length_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_length_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(48);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
+    snprintf(result, 48, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index 08a51d7..cc55dd9 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -51,10 +51,10 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_range_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(48);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 48, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
-- 
2.43.0


From 846b98b036252f5acc3956dc6ba35ccb02d8f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 41/47] fix: show defaults, choices, flags and hints of any
 length in the help text

---
 includes/argus/internal/help.h       | 11 ----
 source/display/help/help_formatter.c | 94 ++++++++++++++--------------
 2 files changed, 46 insertions(+), 59 deletions(-)

diff --git a/includes/argus/internal/help.h b/includes/argus/internal/help.h
index bd1b3e9..45bbe60 100644
--- a/includes/argus/internal/help.h
+++ b/includes/argus/internal/help.h
@@ -122,17 +122,6 @@ const char *get_base_type_name(argus_valtype_t type);
  */
 const char *get_collection_format(argus_valtype_t type);
 
-/**
- * Format a collection hint
- *
- * @param format     Format pattern
- * @param type_name  Base type name
- * @param buffer     Buffer for the hint
- * @param size       Size of the buffer
- * @return           Formatted hint string (buffer)
- */
-char *format_collection_hint(const char *format, const char *type_name, char *buffer, size_t size);
-
 /**
  * Print wrapped text with proper indentation
  *
diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 5922a78..8a0cb1c 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -10,6 +10,7 @@
 #define _GNU_SOURCE  // NOLINT
 
 #include <inttypes.h>
+#include <stdarg.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -62,12 +63,6 @@ const char *get_collection_format(argus_valtype_t type)
     return NULL;
 }
 
-char *format_collection_hint(const char *format, const char *type_name, char *buffer, size_t size)
-{
-    snprintf(buffer, size, format, type_name);
-    return buffer;
-}
-
 bool is_short_hint(argus_t *argus, const char *hint)
 {
     if (!hint)
@@ -230,10 +225,10 @@ size_t print_option_name(argus_t *argus, const argus_option_t *option, size_t in
             const char *collection_format = get_collection_format(option->value_type);
 
             if (collection_format) {
-                char        buffer[64];
-                const char *format_str = format_collection_hint(collection_format, smart_hint,
-                                                                buffer, sizeof(buffer));
-                name_len += printf(" <%s>", format_str);
+                // A hint may have any length
+                name_len += printf(" <");
+                name_len += printf(collection_format, smart_hint);
+                name_len += printf(">");
             } else
                 name_len += printf(" <%s>", smart_hint);
             free(smart_hint);
@@ -262,42 +257,53 @@ static char *append_to_description(char *description, const char *suffix)
     return description;
 }
 
+// Helper function to append formatted text of any length to description
+static char *append_format(char *description, const char *format, ...)
+{
+    va_list args;
+
+    va_start(args, format);
+    int suffix_len = vsnprintf(NULL, 0, format, args);
+    va_end(args);
+    if (suffix_len < 0)
+        return description;
+
+    char *suffix = malloc((size_t)suffix_len + 1);
+    if (!suffix)
+        return description;
+
+    va_start(args, format);
+    vsnprintf(suffix, (size_t)suffix_len + 1, format, args);
+    va_end(args);
+
+    description = append_to_description(description, suffix);
+    free(suffix);
+    return description;
+}
+
 // Helper function to append default value information
 static char *append_default_info(char *description, const argus_option_t *option)
 {
     if (!option->have_default || option->value_type == VALUE_TYPE_FLAG)
         return description;
 
-    char default_buf[128] = {0};
-    snprintf(default_buf, sizeof(default_buf), " (default: ");
-    size_t default_len = strlen(default_buf);
-
     switch (option->value_type) {
         case VALUE_TYPE_INT:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%" PRId64 ")",
-                     option->default_value.as_int64);
-            break;
+            return append_format(description, " (default: %" PRId64 ")",
+                                 option->default_value.as_int64);
         case VALUE_TYPE_STRING:
-            if (option->default_value.as_string) {
-                snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "\"%s\")",
-                         option->default_value.as_string);
-            } else
-                snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "null)");
-            break;
+            if (option->default_value.as_string)
+                return append_format(description, " (default: \"%s\")",
+                                     option->default_value.as_string);
+            return append_format(description, " (default: null)");
         case VALUE_TYPE_FLOAT:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%.2f)",
-                     option->default_value.as_float);
-            break;
+            return append_format(description, " (default: %.2f)", option->default_value.as_float);
         case VALUE_TYPE_BOOL:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%s)",
-                     option->default_value.as_bool ? "true" : "false");
-            break;
+            return append_format(description, " (default: %s)",
+                                 option->default_value.as_bool ? "true" : "false");
         default:
-            safe_strcat(default_buf, sizeof(default_buf), ")");
-            break;
+            return append_format(description, " (default: )");
     }
-
-    return append_to_description(description, default_buf);
 }
 
 // Helper function to append validator information
@@ -321,27 +327,19 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
             if (validator->formatter) {
                 char *validator_desc = validator->formatter(validator->data);
                 if (validator_desc) {
-                    char validator_info[256] = {0};
-
                     if (validator->func == regex_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (pattern: %s)",
-                                 validator_desc);
+                        description =
+                            append_format(description, " (pattern: %s)", validator_desc);
                     } else if (validator->func == choices_string_validator ||
                                validator->func == choices_int_validator ||
                                validator->func == choices_float_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " [%s]", validator_desc);
+                        description = append_format(description, " [%s]", validator_desc);
                     } else if (validator->func == length_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (%s)", validator_desc);
+                        description = append_format(description, " (%s)", validator_desc);
                     } else if (validator->func == range_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (range: %s)",
-                                 validator_desc);
+                        description = append_format(description, " (range: %s)", validator_desc);
                     } else if (validator->func == count_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (count: %s)",
-                                 validator_desc);
-                    }
-
-                    if (validator_info[0] != '\0') {
-                        description = append_to_description(description, validator_info);
+                        description = append_format(description, " (count: %s)", validator_desc);
                     }
 
                     free(validator_desc);
@@ -382,7 +380,7 @@ static char *append_flag_info(char *description, const argus_option_t *option)
     if (!(option->flags & (FLAG_EXIT | FLAG_REQUIRED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)))
         return description;
 
-    char attrs_buf[32] = {0};
+    char attrs_buf[64] = {0};
 
     if (option->flags & FLAG_EXIT)
         safe_strcat(attrs_buf, sizeof(attrs_buf), " (exit)");
-- 
2.43.0


From 56044993e22b714570abe7a7cedb9330c036df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 42/47] fix: look up and show environment variables whose names
 have any length

---
 source/core/parsing/load_env_vars.c  | 53 +++++++++++++-------------
 source/display/help/help_formatter.c | 56 ++++++++++++++--------------
 2 files changed, 55 insertions(+), 54 deletions(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 46b7dce..d508281 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -22,36 +22,34 @@
  *
  * @param argus  Argus context
  * @param option Option to get env var name for
- * @param full_name Buffer for a composed name
- * @param size Size of the buffer
  *
- * @return Environment variable name or NULL if none
+ * @return Environment variable name (to be freed) or NULL without memory
  */
-static const char *get_env_var_name(argus_t *argus, argus_option_t *option, char *full_name,
-                                    size_t size)
+static char *get_env_var_name(argus_t *argus, argus_option_t *option)
 {
     const char *prefix           = argus->env_prefix ? argus->env_prefix : "";
     size_t      prefix_len       = strlen(prefix);
     bool        needs_underscore = prefix_len > 0 && prefix[prefix_len - 1] != '_';
 
-    if (option->env_name) {
-        if (option->flags & FLAG_NO_ENV_PREFIX)
-            return (option->env_name);
+    const char *name = option->env_name ? option->env_name : option->name;
+    if (name == NULL)
+        name = option->lname ? option->lname : "";
 
-        if (argus->env_prefix && strncmp(option->env_name, argus->env_prefix, prefix_len) == 0)
-            return (option->env_name);
+    size_t size      = prefix_len + strlen(name) + 2;
+    char  *full_name = malloc(size);
+    if (full_name == NULL)
+        return (NULL);
 
-        if (needs_underscore) {
-            snprintf(full_name, size, "%s_%s", prefix, option->env_name);
+    if (option->env_name) {
+        if ((option->flags & FLAG_NO_ENV_PREFIX) ||
+            (argus->env_prefix && strncmp(name, argus->env_prefix, prefix_len) == 0)) {
+            snprintf(full_name, size, "%s", name);
+        } else if (needs_underscore) {
+            snprintf(full_name, size, "%s_%s", prefix, name);
         } else {
-            snprintf(full_name, size, "%s%s", prefix, option->env_name);
+            snprintf(full_name, size, "%s%s", prefix, name);
         }
-        return (full_name);
-    }
-
-    if (option->flags & FLAG_AUTO_ENV) {
-        const char *name = option->name ? option->name : (option->lname ? option->lname : "");
-
+    } else {
         if (option->flags & FLAG_NO_ENV_PREFIX) {
             snprintf(full_name, size, "%s", name);
         } else if (needs_underscore) {
@@ -62,10 +60,8 @@ static const char *get_env_var_name(argus_t *argus, argus_option_t *option, char
 
         for (char *p = full_name; *p; ++p)
             *p = *p == '-' ? '_' : (char)toupper(*p);
-        return (full_name);
     }
-
-    return (NULL);
+    return (full_name);
 }
 
 static int load_env(argus_t *argus, argus_option_t *options)
@@ -81,12 +77,19 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (option->is_set && !only_default && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
-        char        full_name[128];
-        const char *env_name = get_env_var_name(argus, option, full_name, sizeof(full_name));
-        if (!env_name)
+        if (!option->env_name && !(option->flags & FLAG_AUTO_ENV))
             continue;
 
+        char *env_name = get_env_var_name(argus, option);
+        if (!env_name) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                                "Failed to allocate memory for the environment variable of '%s'",
+                                option->name);
+            return (ARGUS_ERROR_MEMORY);
+        }
+
         char *env_value = getenv(env_name);
+        free(env_name);
         if (!env_value)
             continue;
 
diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 8a0cb1c..5eb4b8b 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -115,31 +115,34 @@ char *get_smart_hint(argus_t *argus, const argus_option_t *option)
  *
  * @return Environment variable name or NULL if none
  */
-static const char *get_env_var_name_for_display(argus_t *argus, const argus_option_t *option,
-                                                char *full_name, size_t size)
+static char *get_env_var_name_for_display(argus_t *argus, const argus_option_t *option)
 {
     const char *prefix           = argus->env_prefix ? argus->env_prefix : "";
     size_t      prefix_len       = strlen(prefix);
     bool        needs_underscore = prefix_len > 0 && prefix[prefix_len - 1] != '_';
 
-    if (option->env_name) {
-        if (option->flags & FLAG_NO_ENV_PREFIX)
-            return option->env_name;
+    if (!option->env_name && !(option->flags & FLAG_AUTO_ENV))
+        return NULL;
+
+    const char *name = option->env_name ? option->env_name : option->name;
+    if (name == NULL)
+        name = option->lname ? option->lname : "";
 
-        if (argus->env_prefix && strncmp(option->env_name, argus->env_prefix, prefix_len) == 0)
-            return option->env_name;
+    size_t size      = prefix_len + strlen(name) + 2;
+    char  *full_name = malloc(size);
+    if (full_name == NULL)
+        return NULL;
 
-        if (needs_underscore) {
-            snprintf(full_name, size, "%s_%s", prefix, option->env_name);
+    if (option->env_name) {
+        if ((option->flags & FLAG_NO_ENV_PREFIX) ||
+            (argus->env_prefix && strncmp(name, argus->env_prefix, prefix_len) == 0)) {
+            snprintf(full_name, size, "%s", name);
+        } else if (needs_underscore) {
+            snprintf(full_name, size, "%s_%s", prefix, name);
         } else {
-            snprintf(full_name, size, "%s%s", prefix, option->env_name);
+            snprintf(full_name, size, "%s%s", prefix, name);
         }
-        return full_name;
-    }
-
-    if (option->flags & FLAG_AUTO_ENV) {
-        const char *name = option->name ? option->name : (option->lname ? option->lname : "");
-
+    } else {
         if (option->flags & FLAG_NO_ENV_PREFIX) {
             snprintf(full_name, size, "%s", name);
         } else if (needs_underscore) {
@@ -150,10 +153,8 @@ static const char *get_env_var_name_for_display(argus_t *argus, const argus_opti
 
         for (char *p = full_name; *p; ++p)
             *p = *p == '-' ? '_' : (char)toupper(*p);
-        return full_name;
     }
-
-    return NULL;
+    return full_name;
 }
 
 void print_wrapped_text(const char *text, size_t indent, size_t line_width)
@@ -353,25 +354,22 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
 // Helper function to append environment variable information
 static char *append_env_info(char *description, argus_t *argus, const argus_option_t *option)
 {
-    char        full_name[128];
-    const char *env_name =
-        get_env_var_name_for_display(argus, option, full_name, sizeof(full_name));
+    char *env_name = get_env_var_name_for_display(argus, option);
     if (!env_name)
         return description;
 
-    char   env_buf[256] = {0};
-    size_t desc_len     = strlen(description);
+    size_t desc_len = strlen(description);
 
     // Join the parentheses of the library, not those of the text itself
     size_t help_len = option->help ? strlen(option->help) : 0;
     if (desc_len > help_len && description[desc_len - 1] == ')') {
-        snprintf(env_buf, sizeof(env_buf), ", env: %s)", env_name);
-        if (desc_len > 0)
-            description[desc_len - 1] = '\0';
+        description[desc_len - 1] = '\0';
+        description               = append_format(description, ", env: %s)", env_name);
     } else
-        snprintf(env_buf, sizeof(env_buf), " (env: %s)", env_name);
+        description = append_format(description, " (env: %s)", env_name);
 
-    return append_to_description(description, env_buf);
+    free(env_name);
+    return description;
 }
 
 // Helper function to append flag information
-- 
2.43.0


From 4c4d42635e9fb38b5f82019ef49987b53cb67c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 43/47] fix: show decimal choices with more than two digits

---
 source/callbacks/validators/choices_validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index 7fa2f38..e90dec3 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -129,7 +129,7 @@ char *format_choices_validator(validator_data_t data)
                 safe_strcat(result, total_length + 1, item);
                 break;
             case VALUE_TYPE_FLOAT:
-                snprintf(item, sizeof(item), "%.2g", choices->as_floats[i]);
+                snprintf(item, sizeof(item), "%g", choices->as_floats[i]);
                 safe_strcat(result, total_length + 1, item);
                 break;
             default:
-- 
2.43.0


From 5b3004718cd8ea42e568d7eb80e7b24c350d5dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 44/47] fix: do not let the capture of stderr take the place of
 a closed stream

---
 source/utils/stream.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/source/utils/stream.c b/source/utils/stream.c
index 04262a9..3dc58c8 100644
--- a/source/utils/stream.c
+++ b/source/utils/stream.c
@@ -93,20 +93,21 @@ int stream_redirect(int fd)
     if (info->is_active)
         return STREAM_ERROR_ALREADY_ACTIVE;
 
-    if (pipe(info->pipe_fds) != 0)
-        return STREAM_ERROR_PIPE_FAILED;
+    // Comes first: the pipe must not take the place of a stream that is closed
+    info->backup_fd = dup(fd);
+    if (info->backup_fd == -1)
+        return STREAM_ERROR_DUP_FAILED;
 
-    if (set_nonblocking(info->pipe_fds[0]) == -1 || set_nonblocking(info->pipe_fds[1]) == -1) {
-        close(info->pipe_fds[0]);
-        close(info->pipe_fds[1]);
+    if (pipe(info->pipe_fds) != 0) {
+        close(info->backup_fd);
         return STREAM_ERROR_PIPE_FAILED;
     }
 
-    info->backup_fd = dup(fd);
-    if (info->backup_fd == -1) {
+    if (set_nonblocking(info->pipe_fds[0]) == -1 || set_nonblocking(info->pipe_fds[1]) == -1) {
+        close(info->backup_fd);
         close(info->pipe_fds[0]);
         close(info->pipe_fds[1]);
-        return STREAM_ERROR_DUP_FAILED;
+        return STREAM_ERROR_PIPE_FAILED;
     }
 
     if (duplicate_to(info->pipe_fds[1], fd) == -1) {
-- 
2.43.0


From 8ff5529436ccc46aa33a3292381e0c8d0c119032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 45/47] fix: list commands with paths of any length

---
 source/display/command_display.c | 67 ++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/source/display/command_display.c b/source/display/command_display.c
index 447743e..491fd48 100644
--- a/source/display/command_display.c
+++ b/source/display/command_display.c
@@ -16,15 +16,31 @@
 #include "argus/internal/display.h"
 #include "argus/types.h"
 
-#define COMMAND_BUFFER_SIZE   512
-#define FULL_PATH_BUFFER_SIZE 1024
+// A path has no maximal length
+typedef struct command_path
+{
+    const struct command_path *parent;
+    const char                *name;
+} command_path_t;
+
+static size_t print_command_path(const command_path_t *path)
+{
+    size_t length = 0;
+
+    if (path->parent != NULL) {
+        length = print_command_path(path->parent) + 1;
+        printf(" ");
+    }
+    printf("%s", path->name);
+    return (length + strlen(path->name));
+}
 
-static void print_command_line(const char *command_path, const char *description, argus_t *argus)
+static void print_command_line(const command_path_t *path, const char *description, argus_t *argus)
 {
-    printf("  %s", command_path);
+    printf("  ");
 
     size_t padding  = 0;
-    size_t name_len = strlen(command_path);
+    size_t name_len = print_command_path(path);
     if (argus->helper.config.description_column > name_len + 2)
         padding = argus->helper.config.description_column - name_len - 2;
     else
@@ -39,10 +55,9 @@ static void print_command_line(const char *command_path, const char *description
     printf("\n");
 }
 
-static void print_subcommand_paths(const argus_option_t *options, const char *base_path,
+static void print_subcommand_paths(const argus_option_t *options, const command_path_t *base_path,
                                    argus_t *argus, bool *first_in_group, size_t depth)
 {
-    char path_buffer[COMMAND_BUFFER_SIZE];
     bool current_group_started = false;
 
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
@@ -56,16 +71,13 @@ static void print_subcommand_paths(const argus_option_t *options, const char *ba
         current_group_started = true;
         *first_in_group       = false;
 
-        snprintf(path_buffer, sizeof(path_buffer), "%s %s", base_path, option->name);
-        print_command_line(path_buffer, option->help, argus);
+        command_path_t path = {base_path, option->name};
+        print_command_line(&path, option->help, argus);
 
         // Deeper commands cannot be called, and a table may contain itself
         if (option->sub_options != NULL && depth + 1 < MAX_SUBCOMMAND_DEPTH) {
-            char sub_path_buffer[COMMAND_BUFFER_SIZE];
-            snprintf(sub_path_buffer, sizeof(sub_path_buffer), "%s %s", base_path, option->name);
             bool nested_first = true;
-            print_subcommand_paths(option->sub_options, sub_path_buffer, argus, &nested_first,
-                                   depth + 1);
+            print_subcommand_paths(option->sub_options, &path, argus, &nested_first, depth + 1);
         }
     }
 }
@@ -75,9 +87,10 @@ void display_available_subcommands(argus_t *argus, const argus_option_t *command
     printf("The '%s' command cannot be executed by itself.\n\n", command->name);
     printf("Available commands:\n");
 
-    bool first_group = true;
+    bool           first_group = true;
+    command_path_t path        = {NULL, command->name};
     if (command->sub_options != NULL)
-        print_subcommand_paths(command->sub_options, command->name, argus, &first_group,
+        print_subcommand_paths(command->sub_options, &path, argus, &first_group,
                                argus->subcommand_depth);
 
     printf("\nRun '");
@@ -113,16 +126,15 @@ static bool is_effectively_simple_command(const argus_option_t *option)
 
 static bool print_simple_commands_group(argus_t *argus)
 {
-    bool printed_any = false;
+    bool           printed_any = false;
+    command_path_t program     = {NULL, argus->program_name};
 
     for (int i = 0; argus->options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &argus->options[i];
 
         if (is_effectively_simple_command(option)) {
-            char command_path[COMMAND_BUFFER_SIZE];
-            snprintf(command_path, sizeof(command_path), "%s %s", argus->program_name,
-                     option->name);
-            print_command_line(command_path, option->help, argus);
+            command_path_t path = {&program, option->name};
+            print_command_line(&path, option->help, argus);
             printed_any = true;
         }
     }
@@ -132,7 +144,8 @@ static bool print_simple_commands_group(argus_t *argus)
 
 static void print_command_families(argus_t *argus, bool printed_simple_commands)
 {
-    bool first_family = true;
+    bool           first_family = true;
+    command_path_t program      = {NULL, argus->program_name};
 
     for (int i = 0; argus->options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &argus->options[i];
@@ -146,12 +159,10 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
 
         first_family = false;
 
-        char family_base_path[COMMAND_BUFFER_SIZE];
-        snprintf(family_base_path, sizeof(family_base_path), "%s %s", argus->program_name,
-                 option->name);
+        command_path_t family = {&program, option->name};
 
         if (option->action != NULL)
-            print_command_line(family_base_path, option->help, argus);
+            print_command_line(&family, option->help, argus);
 
         for (int j = 0; option->sub_options[j].type != TYPE_NONE; ++j) {
             const argus_option_t *sub_option = &option->sub_options[j];
@@ -160,10 +171,8 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
                 sub_option->action == NULL)
                 continue;
 
-            char full_command_path[FULL_PATH_BUFFER_SIZE];
-            snprintf(full_command_path, sizeof(full_command_path), "%s %s", family_base_path,
-                     sub_option->name);
-            print_command_line(full_command_path, sub_option->help, argus);
+            command_path_t path = {&family, sub_option->name};
+            print_command_line(&path, sub_option->help, argus);
         }
 
         printed_simple_commands = false;
-- 
2.43.0


From 5ea9096c123c868011da79a2dd952b9df931da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 46/47] fix: give every error code a message of its own

---
 source/core/error.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/core/error.c b/source/core/error.c
index 28921ae..1ce2aad 100644
--- a/source/core/error.c
+++ b/source/core/error.c
@@ -16,6 +16,8 @@ const char *argus_strerror(argus_error_type_t error)
             return "Success";
         case ARGUS_SHOULD_EXIT:
             return "Should exit";
+        case ARGUS_STRUCT_ERROR:
+            return "Invalid option table";
         case ARGUS_ERROR_DUPLICATE_OPTION:
             return "Duplicate option";
         case ARGUS_ERROR_INVALID_HANDLER:
@@ -46,8 +48,24 @@ const char *argus_strerror(argus_error_type_t error)
             return "Invalid choice";
         case ARGUS_ERROR_INVALID_RANGE:
             return "Invalid range";
+        case ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND:
+            return "Ambiguous subcommand";
         case ARGUS_ERROR_NO_COMMAND:
             return "No command";
+        case ARGUS_ERROR_NO_VALUE:
+            return "No value";
+        case ARGUS_ERROR_INVALID_TYPE:
+            return "Invalid type";
+        case ARGUS_ERROR_INVALID_INDEX:
+            return "Invalid index";
+        case ARGUS_ERROR_INVALID_KEY:
+            return "Invalid key";
+        case ARGUS_ERROR_MEMORY:
+            return "Out of memory";
+        case ARGUS_ERROR_INTERNAL:
+            return "Internal error";
+        case ARGUS_ERROR_UNSUPPORTED:
+            return "Unsupported";
         case ARGUS_ERROR_INVALID_VALUE:
             return "Invalid value";
         case ARGUS_ERROR_MALFORMED_OPTION:
-- 
2.43.0


From 9a9800bcc7750ffc6ce939e2396626bbae887123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:46 +0000
Subject: [PATCH 47/47] fix: look options up by name without meeting the titles
 of groups

---
 source/utils/option_lookup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index 5816536..2f33b18 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -51,7 +51,9 @@ argus_option_t *find_positional(argus_option_t *options, int position)
 argus_option_t *find_option_by_name(argus_option_t *options, const char *name)
 {
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
-        if (options[i].name && strcmp(options[i].name, name) == 0) {
+        // The title of a group may be the name of one of its options
+        if (options[i].type != TYPE_GROUP && options[i].name &&
+            strcmp(options[i].name, name) == 0) {
             return (&options[i]);
         }
     }
-- 
2.43.0

