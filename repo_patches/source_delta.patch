From b070b2ca2eea1b97bddcf6d8ae1ab4d2f1bb9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:16 +0000
Subject: [PATCH 01/68] fix: feed plugins, filters and highlighters while
 draining their output

Writing the whole request before reading any output deadlocks as soon as both
sides exceed the pipe capacity, and a program that stops reading killed apex
with SIGPIPE. Feed stdin with poll() while draining stdout, hold SIGPIPE back
meanwhile, retry interrupted waits and close the first pipe when the second
cannot be created.
---
 src/ast_terminal.c                |  31 ++++----
 src/extensions/syntax_highlight.c |  34 +++++----
 src/filters_ast.c                 |  31 ++++----
 src/plugins.h                     |   7 ++
 src/plugins_env.c                 | 115 +++++++++++++++++++++++++-----
 5 files changed, 148 insertions(+), 70 deletions(-)

diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index 012dec6..7c19fc7 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -15,6 +15,7 @@
 #include "apex/ast_terminal.h"
 #include "table.h"          /* For CMARK_NODE_TABLE, CMARK_NODE_TABLE_ROW, CMARK_NODE_TABLE_CELL */
 #include "extensions/emoji.h"
+#include "plugins.h"
 
 #include <stdlib.h>
 #include <string.h>
@@ -2113,8 +2114,8 @@ static void serialize_block(terminal_buffer *buf,
 
                     if (cmd[0]) {
                         /* Reuse run_command-style helper from syntax_highlight.c (local copy) */
-                        int in_pipe[2];
-                        int out_pipe[2];
+                        int in_pipe[2] = {-1, -1};
+                        int out_pipe[2] = {-1, -1};
                         if (pipe(in_pipe) == 0 && pipe(out_pipe) == 0) {
                             pid_t pid = fork();
                             if (pid == 0) {
@@ -2135,22 +2136,18 @@ static void serialize_block(terminal_buffer *buf,
                                 close(in_pipe[0]);
                                 close(out_pipe[1]);
 
-                                /* Write code to child stdin */
-                                size_t input_len = strlen(literal);
-                                ssize_t to_write = (ssize_t)input_len;
-                                const char *p = literal;
-                                while (to_write > 0) {
-                                    ssize_t written = write(in_pipe[1], p, (size_t)to_write);
-                                    if (written <= 0) break;
-                                    p += written;
-                                    to_write -= written;
-                                }
-                                close(in_pipe[1]);
-
                                 /* Read all of child's stdout */
                                 size_t cap = 8192;
                                 size_t size = 0;
                                 char *out = malloc(cap);
+
+                                /* Write code to child stdin */
+                                if (out && !apex_child_feed(in_pipe[1], out_pipe[0], literal, strlen(literal),
+                                                            &out, &size, &cap)) {
+                                    free(out);
+                                    out = NULL;
+                                }
+                                close(in_pipe[1]);
                                 if (out) {
                                     for (;;) {
                                         if (size + 4096 > cap) {
@@ -2177,9 +2174,9 @@ static void serialize_block(terminal_buffer *buf,
                                 close(out_pipe[0]);
 
                                 int status;
-                                waitpid(pid, &status, 0);
+                                bool reaped = apex_child_reap(pid, &status) != -1;
 
-                                if (out && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
+                                if (out && reaped && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                                     out[size] = '\0';
                                     /* Emit highlighted ANSI directly */
                                     buffer_append_str(buf, out);
@@ -2198,6 +2195,8 @@ static void serialize_block(terminal_buffer *buf,
                                 close(in_pipe[0]); close(in_pipe[1]);
                                 close(out_pipe[0]); close(out_pipe[1]);
                             }
+                        } else if (in_pipe[0] != -1) {
+                            close(in_pipe[0]); close(in_pipe[1]);
                         }
                     }
                 }
diff --git a/src/extensions/syntax_highlight.c b/src/extensions/syntax_highlight.c
index bd51a1e..02cbdc0 100644
--- a/src/extensions/syntax_highlight.c
+++ b/src/extensions/syntax_highlight.c
@@ -7,6 +7,7 @@
  */
 
 #include "syntax_highlight.h"
+#include "../plugins.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -91,9 +92,10 @@ static char *unescape_html(const char *html, size_t len) {
 static char *run_command(const char *cmd, const char *input) {
     if (!cmd || !input) return NULL;
 
-    int in_pipe[2];
+    int in_pipe[2] = {-1, -1};
     int out_pipe[2];
     if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
+        if (in_pipe[0] != -1) { close(in_pipe[0]); close(in_pipe[1]); }
         return NULL;
     }
 
@@ -125,26 +127,19 @@ static char *run_command(const char *cmd, const char *input) {
     close(in_pipe[0]);
     close(out_pipe[1]);
 
-    /* Write input to child stdin */
-    size_t input_len = strlen(input);
-    ssize_t to_write = (ssize_t)input_len;
-    const char *p = input;
-    while (to_write > 0) {
-        ssize_t written = write(in_pipe[1], p, (size_t)to_write);
-        if (written <= 0) break;
-        p += written;
-        to_write -= written;
-    }
-    close(in_pipe[1]);
-
     /* Read all of child's stdout */
     size_t cap = 8192;
     size_t size = 0;
     char *buf = malloc(cap);
-    if (!buf) {
+
+    /* Write input to child stdin */
+    bool fed = buf && apex_child_feed(in_pipe[1], out_pipe[0], input, strlen(input), &buf, &size, &cap);
+    close(in_pipe[1]);
+    if (!fed) {
+        free(buf);
         close(out_pipe[0]);
         int status;
-        waitpid(pid, &status, 0);
+        apex_child_reap(pid, &status);
         return NULL;
     }
 
@@ -156,7 +151,7 @@ static char *run_command(const char *cmd, const char *input) {
                 free(buf);
                 close(out_pipe[0]);
                 int status;
-                waitpid(pid, &status, 0);
+                apex_child_reap(pid, &status);
                 return NULL;
             }
             buf = nb;
@@ -167,7 +162,7 @@ static char *run_command(const char *cmd, const char *input) {
             free(buf);
             close(out_pipe[0]);
             int status;
-            waitpid(pid, &status, 0);
+            apex_child_reap(pid, &status);
             return NULL;
         }
         if (n == 0) break;
@@ -177,7 +172,10 @@ static char *run_command(const char *cmd, const char *input) {
 
     /* Reap child */
     int status;
-    waitpid(pid, &status, 0);
+    if (apex_child_reap(pid, &status) == -1) {
+        free(buf);
+        return NULL;
+    }
 
     /* Check if command succeeded */
     if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
diff --git a/src/filters_ast.c b/src/filters_ast.c
index 394b543..3b71413 100644
--- a/src/filters_ast.c
+++ b/src/filters_ast.c
@@ -1,5 +1,6 @@
 #include "filters_ast.h"
 #include "ast_json.h"
+#include "plugins.h"
 
 #include <stdlib.h>
 #include <string.h>
@@ -29,9 +30,10 @@ static char *run_single_ast_filter(const char *cmd,
         setenv("APEX_TARGET_FORMAT", target_format, 1);
     }
 
-    int in_pipe[2];
+    int in_pipe[2] = {-1, -1};
     int out_pipe[2];
     if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
+        if (in_pipe[0] != -1) { close(in_pipe[0]); close(in_pipe[1]); }
         return NULL;
     }
 
@@ -57,26 +59,19 @@ static char *run_single_ast_filter(const char *cmd,
     close(in_pipe[0]);
     close(out_pipe[1]);
 
-    /* Write JSON to child stdin */
-    size_t json_len = strlen(json_input);
-    const char *p = json_input;
-    ssize_t remaining = (ssize_t)json_len;
-    while (remaining > 0) {
-        ssize_t written = write(in_pipe[1], p, (size_t)remaining);
-        if (written <= 0) break;
-        p += written;
-        remaining -= written;
-    }
-    close(in_pipe[1]);
-
     /* Read child's stdout into a growable buffer */
     size_t cap = 8192;
     size_t size = 0;
     char *buf = (char *)malloc(cap);
-    if (!buf) {
+
+    /* Write JSON to child stdin */
+    bool fed = buf && apex_child_feed(in_pipe[1], out_pipe[0], json_input, strlen(json_input), &buf, &size, &cap);
+    close(in_pipe[1]);
+    if (!fed) {
+        free(buf);
         close(out_pipe[0]);
         int status;
-        waitpid(pid, &status, 0);
+        apex_child_reap(pid, &status);
         return NULL;
     }
 
@@ -88,7 +83,7 @@ static char *run_single_ast_filter(const char *cmd,
                 free(buf);
                 close(out_pipe[0]);
                 int status;
-                waitpid(pid, &status, 0);
+                apex_child_reap(pid, &status);
                 return NULL;
             }
             buf = nb;
@@ -99,7 +94,7 @@ static char *run_single_ast_filter(const char *cmd,
             free(buf);
             close(out_pipe[0]);
             int status;
-            waitpid(pid, &status, 0);
+            apex_child_reap(pid, &status);
             return NULL;
         }
         if (n == 0) break;
@@ -108,7 +103,7 @@ static char *run_single_ast_filter(const char *cmd,
     close(out_pipe[0]);
 
     int status;
-    if (waitpid(pid, &status, 0) == -1) {
+    if (apex_child_reap(pid, &status) == -1) {
         free(buf);
         return NULL;
     }
diff --git a/src/plugins.h b/src/plugins.h
index 0f37ab6..3177300 100644
--- a/src/plugins.h
+++ b/src/plugins.h
@@ -2,6 +2,7 @@
 #define APEX_PLUGINS_H
 
 #include "../include/apex/apex.h"
+#include <sys/types.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -32,6 +33,12 @@ char *apex_plugins_run_text_phase(apex_plugin_manager *manager,
                                   const char *text,
                                   const apex_options *options);
 
+/* Exchange data with a child process (from plugins_env.c): feed its stdin while
+ * draining its stdout into *buf, and reap it. */
+bool apex_child_feed(int in_fd, int out_fd, const char *data, size_t len,
+                     char **buf, size_t *size, size_t *cap);
+pid_t apex_child_reap(pid_t pid, int *status);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/plugins_env.c b/src/plugins_env.c
index 8341695..42fe40a 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -1,7 +1,11 @@
 #include "../include/apex/apex.h"
+#include "plugins.h"
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
+#include <fcntl.h>
+#include <poll.h>
+#include <signal.h>
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <errno.h>
@@ -47,6 +51,86 @@ char *apex_json_escape(const char *text) {
     return out;
 }
 
+/**
+ * Write all of `data` to a child's stdin while also draining its stdout into
+ * *buf, so that neither side can block forever on a full pipe. SIGPIPE is held
+ * back for the duration: a child that stops reading simply gets no more input.
+ * Returns false if the output could not be read or stored.
+ */
+bool apex_child_feed(int in_fd, int out_fd, const char *data, size_t len,
+                     char **buf, size_t *size, size_t *cap) {
+    bool ok = true;
+    sigset_t pipe_set, old_set, pending;
+    sigemptyset(&pipe_set);
+    sigaddset(&pipe_set, SIGPIPE);
+    sigpending(&pending);
+    bool was_pending = sigismember(&pending, SIGPIPE) == 1;
+    pthread_sigmask(SIG_BLOCK, &pipe_set, &old_set);
+
+    int flags = fcntl(in_fd, F_GETFL);
+    if (flags != -1) fcntl(in_fd, F_SETFL, flags | O_NONBLOCK);
+
+    while (len > 0) {
+        struct pollfd fds[2];
+        fds[0].fd = in_fd;
+        fds[0].events = POLLOUT;
+        fds[0].revents = 0;
+        fds[1].fd = out_fd;
+        fds[1].events = POLLIN;
+        fds[1].revents = 0;
+        if (poll(fds, 2, -1) < 0) {
+            if (errno == EINTR) continue;
+            break;
+        }
+        if (fds[1].revents) {
+            if (*size + 4096 > *cap) {
+                char *nb = realloc(*buf, *cap * 2);
+                if (!nb) {
+                    ok = false;
+                    break;
+                }
+                *buf = nb;
+                *cap *= 2;
+            }
+            ssize_t n = read(out_fd, *buf + *size, 4096);
+            if (n > 0) {
+                *size += (size_t)n;
+            } else if (n == 0) {
+                out_fd = -1; /* child closed its stdout; it may still be reading */
+            } else if (errno != EINTR) {
+                ok = false;
+                break;
+            }
+        }
+        if (fds[0].revents) {
+            ssize_t written = write(in_fd, data, len);
+            if (written > 0) {
+                data += written;
+                len -= (size_t)written;
+            } else if (written < 0 && errno != EINTR && errno != EAGAIN) {
+                break; /* child is not interested in the rest */
+            }
+        }
+    }
+
+    sigpending(&pending);
+    if (!was_pending && sigismember(&pending, SIGPIPE) == 1) {
+        int sig;
+        sigwait(&pipe_set, &sig);
+    }
+    pthread_sigmask(SIG_SETMASK, &old_set, NULL);
+    return ok;
+}
+
+/** Reap a child, retrying when a signal interrupts the wait. */
+pid_t apex_child_reap(pid_t pid, int *status) {
+    pid_t r;
+    do {
+        r = waitpid(pid, status, 0);
+    } while (r == -1 && errno == EINTR);
+    return r;
+}
+
 /**
  * Run a single external plugin command for a text-based phase.
  * Protocol:
@@ -81,9 +165,10 @@ char *apex_run_external_plugin_command(const char *cmd,
              prefix, plugin_id, mid1, phase, mid2, escaped, suffix);
     free(escaped);
 
-    int in_pipe[2];
+    int in_pipe[2] = {-1, -1};
     int out_pipe[2];
     if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
+        if (in_pipe[0] != -1) { close(in_pipe[0]); close(in_pipe[1]); }
         free(json);
         return NULL;
     }
@@ -112,27 +197,21 @@ char *apex_run_external_plugin_command(const char *cmd,
     close(in_pipe[0]);
     close(out_pipe[1]);
 
-    /* Write JSON to child stdin */
-    ssize_t to_write = (ssize_t)json_len;
-    const char *p = json;
-    while (to_write > 0) {
-        ssize_t written = write(in_pipe[1], p, (size_t)to_write);
-        if (written <= 0) break;
-        p += written;
-        to_write -= written;
-    }
-    close(in_pipe[1]);
-    free(json);
-
     /* Read all of child's stdout */
     size_t cap = 8192;
     size_t size = 0;
     char *buf = malloc(cap);
-    if (!buf) {
+
+    /* Write JSON to child stdin */
+    bool fed = buf && apex_child_feed(in_pipe[1], out_pipe[0], json, json_len, &buf, &size, &cap);
+    close(in_pipe[1]);
+    free(json);
+    if (!fed) {
+        free(buf);
         close(out_pipe[0]);
         /* Reap child */
         int status;
-        waitpid(pid, &status, 0);
+        apex_child_reap(pid, &status);
         return NULL;
     }
 
@@ -144,7 +223,7 @@ char *apex_run_external_plugin_command(const char *cmd,
                 free(buf);
                 close(out_pipe[0]);
                 int status;
-                waitpid(pid, &status, 0);
+                apex_child_reap(pid, &status);
                 return NULL;
             }
             buf = nb;
@@ -155,7 +234,7 @@ char *apex_run_external_plugin_command(const char *cmd,
             free(buf);
             close(out_pipe[0]);
             int status;
-            waitpid(pid, &status, 0);
+            apex_child_reap(pid, &status);
             return NULL;
         }
         if (n == 0) break;
@@ -165,7 +244,7 @@ char *apex_run_external_plugin_command(const char *cmd,
 
     /* Reap child; ignore status for now but ensure no zombies */
     int status;
-    waitpid(pid, &status, 0);
+    apex_child_reap(pid, &status);
 
     buf[size] = '\0';
     return buf;
-- 
2.43.0


From 29031875c5b2ab895fc97c746eb195896d4bd8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:16 +0000
Subject: [PATCH 02/68] fix: treat a plugin that fails or prints nothing as a
 no-op

The plugin manual promises it; a non-zero exit, a fatal signal or empty output
replaced the document with whatever had been printed.
---
 src/plugins_env.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plugins_env.c b/src/plugins_env.c
index 42fe40a..c64a8d6 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -242,9 +242,13 @@ char *apex_run_external_plugin_command(const char *cmd,
     }
     close(out_pipe[0]);
 
-    /* Reap child; ignore status for now but ensure no zombies */
+    /* Reap child; a plugin that failed or printed nothing is a no-op */
     int status;
-    apex_child_reap(pid, &status);
+    if (apex_child_reap(pid, &status) == -1 || !WIFEXITED(status) ||
+        WEXITSTATUS(status) != 0 || size == 0) {
+        free(buf);
+        return NULL;
+    }
 
     buf[size] = '\0';
     return buf;
-- 
2.43.0


From 0d886c9006f86ba85a217d4a66dadee412201dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:16 +0000
Subject: [PATCH 03/68] fix: set APEX_TARGET_FORMAT only in the filter process

apex left it set in the caller's environment after the filter ended.
---
 src/filters_ast.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/filters_ast.c b/src/filters_ast.c
index 3b71413..055b521 100644
--- a/src/filters_ast.c
+++ b/src/filters_ast.c
@@ -25,11 +25,6 @@ static char *run_single_ast_filter(const char *cmd,
                                    const char *json_input) {
     if (!cmd || !*cmd || !json_input) return NULL;
 
-    /* Ensure target format env var is visible to the child process. */
-    if (target_format && *target_format) {
-        setenv("APEX_TARGET_FORMAT", target_format, 1);
-    }
-
     int in_pipe[2] = {-1, -1};
     int out_pipe[2];
     if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
@@ -45,7 +40,10 @@ static char *run_single_ast_filter(const char *cmd,
     }
 
     if (pid == 0) {
-        /* Child */
+        /* Child: ensure target format env var is visible to it. */
+        if (target_format && *target_format) {
+            setenv("APEX_TARGET_FORMAT", target_format, 1);
+        }
         dup2(in_pipe[0], STDIN_FILENO);
         dup2(out_pipe[1], STDOUT_FILENO);
         close(in_pipe[0]); close(in_pipe[1]);
-- 
2.43.0


From 2dc0d8f72632236bac967e6fd487b974a852ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:16 +0000
Subject: [PATCH 04/68] fix: free the intermediate document when a strict
 filter fails

---
 src/filters_ast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filters_ast.c b/src/filters_ast.c
index 055b521..642fed6 100644
--- a/src/filters_ast.c
+++ b/src/filters_ast.c
@@ -137,6 +137,7 @@ cmark_node *apex_run_ast_filters(cmark_node *document,
         char *json_in = apex_cmark_to_pandoc_json(current_doc, options);
         if (!json_in) {
             if (options->ast_filter_strict) {
+                if (current_doc != document) cmark_node_free(current_doc);
                 return NULL;
             }
             continue;
@@ -148,6 +149,7 @@ cmark_node *apex_run_ast_filters(cmark_node *document,
 
         if (!json_out) {
             if (options->ast_filter_strict) {
+                if (current_doc != document) cmark_node_free(current_doc);
                 return NULL;
             }
             continue;
@@ -159,6 +161,7 @@ cmark_node *apex_run_ast_filters(cmark_node *document,
 
         if (!new_doc) {
             if (options->ast_filter_strict) {
+                if (current_doc != document) cmark_node_free(current_doc);
                 return NULL;
             }
             continue;
-- 
2.43.0


From 5d4efee8183ff95e1c54c97130c9799cb2dca55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:16 +0000
Subject: [PATCH 05/68] fix: keep room for the rest of the document after a
 large highlighted block

Once highlighted output had used up the buffer, later code blocks that were to
be copied unchanged were dropped.
---
 src/extensions/syntax_highlight.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/extensions/syntax_highlight.c b/src/extensions/syntax_highlight.c
index 02cbdc0..44735f1 100644
--- a/src/extensions/syntax_highlight.c
+++ b/src/extensions/syntax_highlight.c
@@ -417,10 +417,12 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
                 /* Use highlighted output */
                 size_t hl_len = strlen(highlighted);
 
-                /* Ensure we have enough space */
-                if (hl_len >= remaining) {
+                /* Ensure we have enough space, also for copying the rest of the
+                 * document unchanged */
+                size_t rest_len = html_len - (size_t)((code_end + 13) - html);
+                if (hl_len + rest_len >= remaining) {
                     size_t written = write - output;
-                    size_t new_cap = (written + hl_len + 1) * 2;
+                    size_t new_cap = (written + hl_len + rest_len + 1) * 2;
                     char *new_output = realloc(output, new_cap);
                     if (!new_output) {
                         free(highlighted);
-- 
2.43.0


From 2bcc5e0ec7cdb6cdf5494ce89d6469ee1bc27a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:16 +0000
Subject: [PATCH 06/68] fix: keep a code block when the terminal highlighter
 prints nothing

---
 src/ast_terminal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index 7c19fc7..0b3ccd8 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -2176,7 +2176,7 @@ static void serialize_block(terminal_buffer *buf,
                                 int status;
                                 bool reaped = apex_child_reap(pid, &status) != -1;
 
-                                if (out && reaped && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
+                                if (out && size > 0 && reaped && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                                     out[size] = '\0';
                                     /* Emit highlighted ANSI directly */
                                     buffer_append_str(buf, out);
-- 
2.43.0


From 21811630038476f351bd47ac940fd02fc3727389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:53 +0000
Subject: [PATCH 07/68] fix: do not pass off a file whose reading failed as
 complete

A read error half-way through a metadata file, include, bibliography, plugin
manifest, stylesheet or remote directory was taken for the end of the file.
---
 src/apex.c                 |  3 +++
 src/extensions/citations.c |  5 +++++
 src/extensions/includes.c  |  5 +++++
 src/extensions/metadata.c  | 10 ++++++++++
 src/plugins.c              |  1 +
 src/plugins_remote.c       |  3 ++-
 6 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/apex.c b/src/apex.c
index 9ec4a63..bf06d15 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -5854,6 +5854,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                                 if (css_content) {
                                     css_len = fread(css_content, 1, (size_t)fsize, css_fp);
                                     css_content[css_len] = '\0';
+                                    if (ferror(css_fp)) {
+                                        css_len = 0; /* keep the link rather than half a stylesheet */
+                                    }
                                 }
                             }
                         }
diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index fd05738..ebc2b69 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -1095,6 +1095,11 @@ static char *read_bibliography_file(const char *filepath) {
 
     size_t bytes_read = fread(buffer, 1, file_size, fp);
     buffer[bytes_read] = '\0';
+    if (ferror(fp)) {
+        fclose(fp);
+        free(buffer);
+        return NULL;
+    }
     fclose(fp);
 
     return buffer;
diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 3bf9da1..dc73484 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -43,6 +43,11 @@ static char *read_file_contents(const char *filepath) {
 
     size_t read = fread(content, 1, size, fp);
     content[read] = '\0';
+    if (ferror(fp)) {
+        fclose(fp);
+        free(content);
+        return NULL;
+    }
     fclose(fp);
 
     return content;
diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index a320234..699e05b 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -2173,6 +2173,11 @@ apex_metadata_item *apex_load_metadata_from_file(const char *filepath) {
 
     size_t bytes_read = fread(buffer, 1, file_size, fp);
     buffer[bytes_read] = '\0';
+    if (ferror(fp)) {
+        fclose(fp);
+        free(buffer);
+        return NULL;
+    }
     fclose(fp);
 
     apex_metadata_item *items = NULL;
@@ -2951,6 +2956,11 @@ yaml_document_t *apex_load_yaml_document(const char *filepath) {
 
     size_t bytes_read = fread(buffer, 1, (size_t)file_size, fp);
     buffer[bytes_read] = '\0';
+    if (ferror(fp)) {
+        fclose(fp);
+        free(buffer);
+        return NULL;
+    }
     fclose(fp);
 
     /* Skip YAML front matter markers if present */
diff --git a/src/plugins.c b/src/plugins.c
index 07908d2..ca8cf12 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -169,6 +169,7 @@ static int read_file_into_buffer(const char *path, char **out) {
     char *buf = malloc((size_t)sz + 1);
     if (!buf) { fclose(fp); return -1; }
     size_t n = fread(buf, 1, (size_t)sz, fp);
+    if (ferror(fp)) { fclose(fp); free(buf); return -1; }
     fclose(fp);
     buf[n] = '\0';
     *out = buf;
diff --git a/src/plugins_remote.c b/src/plugins_remote.c
index c634ce6..5397eb6 100644
--- a/src/plugins_remote.c
+++ b/src/plugins_remote.c
@@ -72,8 +72,9 @@ char *apex_remote_fetch_json(const char *url) {
         }
     }
     buf[len] = '\0';
+    int read_failed = ferror(fp) != 0;
     int rc = pclose(fp);
-    if (rc != 0) {
+    if (read_failed || rc != 0) {
         /* curl failed; treat as error */
         free(buf);
         fprintf(stderr, "Error: curl exited with status %d while fetching plugin directory.\n", rc);
-- 
2.43.0


From 125b1f782f91e0a00af6388b9fe81be8f0a83265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:53 +0000
Subject: [PATCH 08/68] fix: report a read error on the input file instead of
 converting its beginning

---
 cli/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index 253e626..df10efe 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -955,6 +955,12 @@ static char *read_file(const char *filename, size_t *len) {
     /* Read file */
     size_t bytes_read = fread(buffer, 1, file_size, fp);
     buffer[bytes_read] = '\0';
+    if (ferror(fp)) {
+        fclose(fp);
+        free(buffer);
+        fprintf(stderr, "Error: Cannot read file '%s'\n", filename);
+        return NULL;
+    }
     fclose(fp);
     PROFILE_END(file_read);
 
-- 
2.43.0


From 8aed3a1348decf90537a82b504d8ad27ea418396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:53 +0000
Subject: [PATCH 09/68] fix: continue reading stdin after an interrupted read

---
 cli/main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/main.c b/cli/main.c
index df10efe..fcf4ef3 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -5,6 +5,7 @@
 #include "../include/apex/apex.h"
 #include "../src/extensions/metadata.h"
 #include "../src/extensions/includes.h"
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -982,7 +983,11 @@ static char *read_stdin(size_t *len) {
     int fd = fileno(stdin);
     ssize_t bytes_read;
 
-    while ((bytes_read = read(fd, buffer + size, capacity - size)) > 0) {
+    while ((bytes_read = read(fd, buffer + size, capacity - size)) != 0) {
+        if (bytes_read < 0) {
+            if (errno == EINTR) continue;
+            break;
+        }
         size += bytes_read;
         /* Ensure we have space for at least one more BUFFER_SIZE read */
         if (size + BUFFER_SIZE > capacity) {
-- 
2.43.0


From e27b067ff0cd654d0e25334a5de544a799c1be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 10/68] fix: exit with an error when the output could not be
 written completely

---
 cli/main.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index fcf4ef3..fb94fee 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1274,6 +1274,24 @@ static char *apex_cli_combine_process_file(const char *filepath) {
     return processed ? processed : NULL;
 }
 
+/**
+ * Finish an output stream: flush it (closing it unless it is stdout) and make
+ * sure that everything written to it has arrived. Returns 0 on success.
+ */
+static int apex_cli_finish_output(FILE *out, const char *output_file) {
+    int failed = ferror(out);
+    if (out != stdout) {
+        if (fclose(out) != 0) failed = 1;
+    } else if (fflush(out) != 0) {
+        failed = 1;
+    }
+    if (failed) {
+        fprintf(stderr, "Error: Cannot write to '%s'\n", output_file ? output_file : "stdout");
+        return 1;
+    }
+    return 0;
+}
+
 /**
  * Append a chunk of Markdown to an output stream, ensuring separation
  * between documents.
@@ -2937,8 +2955,8 @@ int main(int argc, char *argv[]) {
             }
         }
 
-        if (out != stdout) {
-            fclose(out);
+        if (apex_cli_finish_output(out, output_file) != 0) {
+            rc = 1;
         }
         return rc;
     }
@@ -2991,8 +3009,8 @@ int main(int argc, char *argv[]) {
             free(path_copy);
         }
 
-        if (out != stdout) {
-            fclose(out);
+        if (apex_cli_finish_output(out, output_file) != 0) {
+            rc = 1;
         }
         return rc;
     }
@@ -3574,6 +3592,7 @@ int main(int argc, char *argv[]) {
 
     /* Write output */
     PROFILE_START(file_write);
+    int write_rc = 0;
     if (output_file) {
         FILE *fp = fopen(output_file, "w");
         if (!fp) {
@@ -3583,11 +3602,11 @@ int main(int argc, char *argv[]) {
         }
         size_t html_len = strlen(html);
         fwrite(html, 1, html_len, fp);
-        fclose(fp);
+        write_rc = apex_cli_finish_output(fp, output_file);
     } else {
         size_t html_len = strlen(html);
         fwrite(html, 1, html_len, stdout);
-        /* Don't fflush - let the system buffer for better performance */
+        write_rc = apex_cli_finish_output(stdout, NULL);
     }
     PROFILE_END(file_write);
 
@@ -3623,5 +3642,5 @@ int main(int argc, char *argv[]) {
         free(allocated_base_dir);
     }
 
-    return 0;
+    return write_rc;
 }
-- 
2.43.0


From 064dd75066aebef021c417bed0c9449be7972966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:34 +0000
Subject: [PATCH 11/68] fix: shift headers by more than one level in mmd-merge

The second pass read from the buffer it was writing to and ran past its end.
---
 cli/main.c | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index fb94fee..429c154 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1068,32 +1068,25 @@ static char *apex_cli_shift_headers(const char *content, int indent) {
     char *out = buffer;
     const char *in = content;
 
-    for (int level = 0; level < indent; level++) {
-        out = buffer;
-        in = (level == 0) ? content : buffer;
-
-        bool at_line_start = true;
-        while (*in) {
-            char c = *in;
-            if (at_line_start && c == '#') {
-                /* Duplicate initial '#' */
+    bool at_line_start = true;
+    while (*in) {
+        char c = *in;
+        if (at_line_start && c == '#') {
+            /* Insert one '#' per indent level before the initial '#' */
+            for (int level = 0; level < indent; level++) {
                 *out++ = '#';
-                *out++ = '#';
-                in++;
-                at_line_start = false;
-                continue;
             }
+        }
 
-            *out++ = c;
-            if (c == '\n') {
-                at_line_start = true;
-            } else {
-                at_line_start = false;
-            }
-            in++;
+        *out++ = c;
+        if (c == '\n') {
+            at_line_start = true;
+        } else {
+            at_line_start = false;
         }
-        *out = '\0';
+        in++;
     }
+    *out = '\0';
 
     return buffer;
 }
-- 
2.43.0


From 2d8dbc2a9d1b63e931ad62074161c1286636a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:36 +0000
Subject: [PATCH 12/68] fix: separate the files of a SUMMARY from what was
 combined before it

---
 cli/main.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 429c154..6153f4a 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1308,7 +1308,7 @@ static void apex_cli_write_combined_chunk(FILE *out, const char *chunk, bool *ne
  *
  * Returns 0 on success, non-zero on error.
  */
-static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
+static int apex_cli_combine_from_summary(const char *summary_path, FILE *out, bool *needs_separator) {
     size_t len = 0;
     char *summary = read_file(summary_path, &len);
     if (!summary) {
@@ -1317,7 +1317,6 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
     }
 
     char *base_dir = apex_cli_get_directory(summary_path);
-    bool needs_separator = false;
 
     char *cursor = summary;
     while (*cursor) {
@@ -1373,7 +1372,7 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
                             snprintf(full_path, full_len, "%s/%s", base_dir ? base_dir : ".", start);
                             char *processed = apex_cli_combine_process_file(full_path);
                             if (processed) {
-                                apex_cli_write_combined_chunk(out, processed, &needs_separator);
+                                apex_cli_write_combined_chunk(out, processed, needs_separator);
                                 free(processed);
                             } else {
                                 fprintf(stderr, "Warning: Skipping unreadable file '%s' from SUMMARY\n", full_path);
@@ -2982,13 +2981,11 @@ int main(int argc, char *argv[]) {
             bool is_summary = (base && strcasecmp(base, "SUMMARY.md") == 0);
 
             if (is_summary) {
-                if (apex_cli_combine_from_summary(path, out) != 0) {
+                if (apex_cli_combine_from_summary(path, out, &needs_separator) != 0) {
                     rc = 1;
                     free(path_copy);
                     break;
                 }
-                /* SUMMARY already handles its own separation */
-                needs_separator = true;
             } else {
                 char *processed = apex_cli_combine_process_file(path);
                 if (!processed) {
-- 
2.43.0


From df6af5a48bf76b5287beab51ee66ec8dc94b3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:38 +0000
Subject: [PATCH 13/68] fix: grow the include buffer instead of dropping text
 that does not fit

---
 src/extensions/includes.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index dc73484..12aa445 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -1074,6 +1074,23 @@ static char *normalize_fence_delimiters(const char *text) {
     return output;
 }
 
+/**
+ * Make room for `need` more bytes (and the terminating NUL) in the output of
+ * apex_process_includes. Returns false if memory is exhausted.
+ */
+static bool reserve_output(char **output, size_t *capacity, char **write_pos, size_t *remaining, size_t need) {
+    if (need < *remaining) return true;
+    size_t used = (size_t)(*write_pos - *output);
+    size_t new_capacity = (used + need + 1) * 2;
+    char *grown = realloc(*output, new_capacity);
+    if (!grown) return false;
+    *output = grown;
+    *capacity = new_capacity;
+    *write_pos = grown + used;
+    *remaining = new_capacity - used;
+    return true;
+}
+
 /**
  * Process file includes in text
  */
@@ -1193,7 +1210,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                         if (to_insert) {
                             size_t insert_len = strlen(to_insert);
-                            if (insert_len < remaining) {
+                            if (reserve_output(&output, &output_capacity, &write_pos, &remaining, insert_len)) {
                                 memcpy(write_pos, to_insert, insert_len);
                                 write_pos += insert_len;
                                 remaining -= insert_len;
@@ -1306,7 +1323,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                         if (processed) {
                             size_t proc_len = strlen(processed);
-                            if (proc_len < remaining) {
+                            if (reserve_output(&output, &output_capacity, &write_pos, &remaining, proc_len)) {
                                 memcpy(write_pos, processed, proc_len);
                                 write_pos += proc_len;
                                 remaining -= proc_len;
@@ -1450,7 +1467,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                                 if (processed) {
                                     size_t proc_len = strlen(processed);
-                                    if (proc_len < remaining) {
+                                    if (reserve_output(&output, &output_capacity, &write_pos, &remaining, proc_len)) {
                                         memcpy(write_pos, processed, proc_len);
                                         write_pos += proc_len;
                                         remaining -= proc_len;
@@ -1480,7 +1497,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 const char *code_footer = "\n```\n";
 
                                 size_t total_len = strlen(code_header) + strlen(extracted_content) + strlen(code_footer);
-                                if (total_len < remaining) {
+                                if (reserve_output(&output, &output_capacity, &write_pos, &remaining, total_len)) {
                                     strcpy(write_pos, code_header);
                                     write_pos += strlen(code_header);
                                     strcpy(write_pos, extracted_content);
@@ -1495,7 +1512,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 char marker[1024];
                                 snprintf(marker, sizeof(marker), "<!--APEX_RAW_INCLUDE:%s-->", resolved_path);
                                 size_t marker_len = strlen(marker);
-                                if (marker_len < remaining) {
+                                if (reserve_output(&output, &output_capacity, &write_pos, &remaining, marker_len)) {
                                     memcpy(write_pos, marker, marker_len);
                                     write_pos += marker_len;
                                     remaining -= marker_len;
@@ -1522,7 +1539,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
         /* Not an include, copy character */
         if (!processed_include) {
-            if (remaining > 0) {
+            if (reserve_output(&output, &output_capacity, &write_pos, &remaining, 1)) {
                 *write_pos++ = *read_pos;
                 remaining--;
             }
-- 
2.43.0


From ad7adf66ba66dae4f8b30dcb09bf9bd113b97fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:40 +0000
Subject: [PATCH 14/68] fix: size the CSV table buffer by its columns

---
 src/extensions/includes.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 12aa445..569bc17 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -375,8 +375,9 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
         }
     }
 
-    /* Allocate output buffer: original size * 4 should be enough with extra alignment row */
-    char *output = malloc(len * 4 + 64);
+    /* Allocate output buffer: the cells plus, for every emitted row including the
+     * alignment row, at most 8 bytes per column and the row delimiters */
+    char *output = malloc(len + ((size_t)row_count + 1) * ((size_t)col_count * 8 + 2) + 64);
     if (!output) {
         if (align) free(align);
         for (int r = 0; r < row_count; r++) {
-- 
2.43.0


From 31fe4653901d45e1591f5f0de172ec2e36709d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:40 +0000
Subject: [PATCH 15/68] fix: keep all lines of a ranged include with a long
 prefix

---
 src/extensions/includes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 569bc17..eecfc21 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -753,6 +753,7 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
         line_num = 1;
         line_start = content;
         size_t output_size = strlen(content) + 1024;
+        if (spec->prefix) output_size += (size_t)total_lines * strlen(spec->prefix);
         char *output = malloc(output_size);
         if (!output) return NULL;
         char *write = output;
@@ -808,6 +809,7 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
         int line_num = 1;
         const char *line_start = content;
         size_t output_size = strlen(content) + 1024;
+        if (spec->prefix) output_size += (size_t)total_lines * strlen(spec->prefix);
         char *output = malloc(output_size);
         if (!output) return NULL;
         char *write = output;
-- 
2.43.0


From 58976749ed4439131e4d6ed5cdf704ca01e79c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:40 +0000
Subject: [PATCH 16/68] fix: no endless recursion on an include with an invalid
 pattern and a prefix

---
 src/extensions/includes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index eecfc21..5446d39 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -694,7 +694,8 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
             /* No valid regex, return full content */
             if (compiled_start) regfree(&regex_start);
             if (compiled_end) regfree(&regex_end);
-            return spec->prefix ? extract_lines(content, spec) : strdup(content);
+            spec->is_regex_range = false;
+            return extract_lines(content, spec);
         }
 
         /* Find line numbers matching regex patterns */
-- 
2.43.0


From 433006881e5413d493c2b74d234695d5b4d698d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:50 +0000
Subject: [PATCH 17/68] fix: plugin and filter ids name one entry of the
 install directory

---
 cli/main.c | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index 6153f4a..e66dac8 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -926,6 +926,20 @@ static char *extract_plugin_id_from_repo(const char *repo_path) {
     return NULL;
 }
 
+/* True if s can stand between double quotes in a shell command without being expanded. */
+static bool cli_shell_quotable(const char *s) {
+    if (!s || !*s || *s == '-') return false;
+    for (; *s; s++) {
+        if (strchr("\"$`\\", *s) || (unsigned char)*s < 0x20) return false;
+    }
+    return true;
+}
+
+/* A plugin or filter id names exactly one visible entry of its install directory. */
+static bool cli_valid_install_id(const char *id) {
+    return cli_shell_quotable(id) && *id != '.' && !strchr(id, '/') && strlen(id) <= 150;
+}
+
 static char *read_file(const char *filename, size_t *len) {
     PROFILE_START(file_read);
     FILE *fp = fopen(filename, "rb");
@@ -2165,6 +2179,10 @@ int main(int argc, char *argv[]) {
 
         /* Uninstall plugin: local only, no remote directory needed */
         if (uninstall_plugin_id) {
+            if (!cli_valid_install_id(uninstall_plugin_id)) {
+                fprintf(stderr, "Error: '%s' is not a valid plugin id.\n", uninstall_plugin_id);
+                return 1;
+            }
             char target[1200];
             snprintf(target, sizeof(target), "%s/%s", root, uninstall_plugin_id);
 
@@ -2376,6 +2394,14 @@ int main(int argc, char *argv[]) {
                 final_plugin_id = strdup(install_plugin_id);
             }
 
+            if (!cli_shell_quotable(repo) || (final_plugin_id && !cli_valid_install_id(final_plugin_id))) {
+                fprintf(stderr, "Error: invalid plugin id or repository '%s'.\n", repo);
+                if (normalized_repo) free(normalized_repo);
+                if (final_plugin_id) free(final_plugin_id);
+                apex_remote_free_plugins(plist);
+                return 1;
+            }
+
             /* Determine plugins root: $XDG_CONFIG_HOME/apex/plugins or ~/.config/apex/plugins */
             const char *xdg = getenv("XDG_CONFIG_HOME");
             char root[1024];
@@ -2459,6 +2485,10 @@ int main(int argc, char *argv[]) {
             /* Extract plugin ID from cloned repo if we don't have it yet */
             if (!final_plugin_id) {
                 final_plugin_id = extract_plugin_id_from_repo(temp_target);
+                if (final_plugin_id && !cli_valid_install_id(final_plugin_id)) {
+                    free(final_plugin_id);
+                    final_plugin_id = NULL;
+                }
                 if (!final_plugin_id) {
                     fprintf(stderr, "Error: could not determine plugin ID from repository. Make sure plugin.yml exists with an 'id' field.\n");
                     /* Clean up temp directory */
@@ -2576,6 +2606,10 @@ int main(int argc, char *argv[]) {
 
         /* Uninstall filter */
         if (uninstall_filter_id) {
+            if (!cli_valid_install_id(uninstall_filter_id)) {
+                fprintf(stderr, "Error: '%s' is not a valid filter id.\n", uninstall_filter_id);
+                return 1;
+            }
             char target[1200];
             snprintf(target, sizeof(target), "%s/%s", root, uninstall_filter_id);
 
@@ -2744,6 +2778,17 @@ int main(int argc, char *argv[]) {
             free(json);
         }
 
+        if (!cli_shell_quotable(repo) ||
+            (final_filter_id && !cli_valid_install_id(final_filter_id)) ||
+            (filter_path && !cli_shell_quotable(filter_path))) {
+            fprintf(stderr, "Error: invalid filter id, path or repository '%s'.\n", repo);
+            if (normalized_repo) free(normalized_repo);
+            if (final_filter_id) free(final_filter_id);
+            if (filter_path) free(filter_path);
+            if (repo && repo != normalized_repo) free((void *)repo);
+            return 1;
+        }
+
         /* Ensure root directory exists */
         char mkdir_cmd[1200];
         snprintf(mkdir_cmd, sizeof(mkdir_cmd), "mkdir -p \"%s\"", root);
-- 
2.43.0


From 15da9d41bcc5d8089a201909df812dc44e560632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:54 +0000
Subject: [PATCH 18/68] fix: install plugins through a temporary directory and
 recover from an interrupted install

---
 cli/main.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index e66dac8..49c2476 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -2470,12 +2470,23 @@ int main(int argc, char *argv[]) {
                 return 1;
             }
 
+            if (final_plugin_id) {
+                /* Clone next to the final directory, which only ever appears complete */
+                snprintf(temp_target, sizeof(temp_target), "%s/.apex_install_%s", root, final_plugin_id);
+            }
+
+            /* Remove what an interrupted install may have left */
+            char clean_cmd[1300];
+            snprintf(clean_cmd, sizeof(clean_cmd), "rm -rf \"%s\"", temp_target);
+            system(clean_cmd);
+
             /* Clone repo using git */
             char clone_cmd[2048];
             snprintf(clone_cmd, sizeof(clone_cmd), "git clone \"%s\" \"%s\"", repo, temp_target);
             int git_rc = system(clone_cmd);
             if (git_rc != 0) {
                 fprintf(stderr, "Error: git clone failed for '%s'. Is git installed and the URL correct?\n", repo);
+                system(clean_cmd);
                 if (normalized_repo) free(normalized_repo);
                 if (final_plugin_id) free(final_plugin_id);
                 apex_remote_free_plugins(plist);
@@ -2499,7 +2510,9 @@ int main(int argc, char *argv[]) {
                     apex_remote_free_plugins(plist);
                     return 1;
                 }
+            }
 
+            {
                 /* Move temp directory to final location */
                 char final_target[1200];
                 snprintf(final_target, sizeof(final_target), "%s/%s", root, final_plugin_id);
-- 
2.43.0


From 2a467f62431aaafd3fd37968114400a0cd8ddc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:55 +0000
Subject: [PATCH 19/68] fix: install filters through a temporary directory and
 recover from an interrupted install

---
 cli/main.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 49c2476..2518db6 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -2833,11 +2833,16 @@ int main(int argc, char *argv[]) {
             }
             char temp_target[1200];
             snprintf(temp_target, sizeof(temp_target), "%s/.apex_install_%s", root, final_filter_id);
+            /* Remove what an interrupted install may have left */
+            char clean_cmd[1300];
+            snprintf(clean_cmd, sizeof(clean_cmd), "rm -rf \"%s\"", temp_target);
+            system(clean_cmd);
             char clone_cmd[2048];
             snprintf(clone_cmd, sizeof(clone_cmd), "git clone --depth 1 \"%s\" \"%s\"", repo, temp_target);
             int git_rc = system(clone_cmd);
             if (git_rc != 0) {
                 fprintf(stderr, "Error: git clone failed for '%s'. Is git installed and the URL correct?\n", repo);
+                system(clean_cmd);
                 if (normalized_repo) free(normalized_repo);
                 if (final_filter_id) free(final_filter_id);
                 if (filter_path) free(filter_path);
@@ -2846,8 +2851,12 @@ int main(int argc, char *argv[]) {
             }
             char src_file[1800];
             snprintf(src_file, sizeof(src_file), "%s/%s", temp_target, filter_path);
-            char cp_cmd[3000];
-            snprintf(cp_cmd, sizeof(cp_cmd), "cp \"%s\" \"%s\"", src_file, final_file);
+            /* Copy and prepare it in the temporary directory: the final file only ever appears complete */
+            char new_file[1300];
+            snprintf(new_file, sizeof(new_file), "%s/.apex_new", temp_target);
+            char cp_cmd[6000];
+            snprintf(cp_cmd, sizeof(cp_cmd), "cp \"%s\" \"%s\" && chmod +x \"%s\" && mv \"%s\" \"%s\"",
+                     src_file, new_file, new_file, new_file, final_file);
             if (system(cp_cmd) != 0) {
                 fprintf(stderr, "Error: failed to copy '%s' from repo to %s\n", filter_path, final_file);
                 snprintf(cp_cmd, sizeof(cp_cmd), "rm -rf \"%s\"", temp_target);
@@ -2858,9 +2867,6 @@ int main(int argc, char *argv[]) {
                 if (repo && repo != normalized_repo) free((void *)repo);
                 return 1;
             }
-            char chmod_cmd[1300];
-            snprintf(chmod_cmd, sizeof(chmod_cmd), "chmod +x \"%s\"", final_file);
-            system(chmod_cmd);
             snprintf(cp_cmd, sizeof(cp_cmd), "rm -rf \"%s\"", temp_target);
             system(cp_cmd);
             fprintf(stderr, "Installed filter '%s' into %s\n", final_filter_id, final_file);
@@ -2907,12 +2913,23 @@ int main(int argc, char *argv[]) {
             }
         }
 
+        if (final_filter_id) {
+            /* Clone next to the final directory, which only ever appears complete */
+            snprintf(temp_target, sizeof(temp_target), "%s/.apex_install_%s", root, final_filter_id);
+        }
+
+        /* Remove what an interrupted install may have left */
+        char clean_cmd[1300];
+        snprintf(clean_cmd, sizeof(clean_cmd), "rm -rf \"%s\"", temp_target);
+        system(clean_cmd);
+
         /* Clone repo using git */
         char clone_cmd[2048];
         snprintf(clone_cmd, sizeof(clone_cmd), "git clone \"%s\" \"%s\"", repo, temp_target);
         int git_rc = system(clone_cmd);
         if (git_rc != 0) {
             fprintf(stderr, "Error: git clone failed for '%s'. Is git installed and the URL correct?\n", repo);
+            system(clean_cmd);
             if (normalized_repo) free(normalized_repo);
             if (final_filter_id) free(final_filter_id);
             if (filter_path) free(filter_path);
-- 
2.43.0


From e30d7d8b40bcafb78277447c0ce06d66953bd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:55 +0000
Subject: [PATCH 20/68] fix: name a filter installed by URL after its
 repository

---
 cli/main.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 2518db6..895458d 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -2937,11 +2937,18 @@ int main(int argc, char *argv[]) {
             return 1;
         }
 
-        /* If we didn't get a final id from the directory, use install_filter_id as the final name */
+        /* If we didn't get a final id from the directory, use the repository's name */
         if (!final_filter_id) {
-            final_filter_id = strdup(install_filter_id);
-            if (!final_filter_id) {
-                fprintf(stderr, "Error: Memory allocation failed\n");
+            const char *last_slash = strrchr(repo, '/');
+            final_filter_id = strdup(last_slash ? last_slash + 1 : repo);
+            size_t id_len = final_filter_id ? strlen(final_filter_id) : 0;
+            if (id_len > 4 && strcmp(final_filter_id + id_len - 4, ".git") == 0) {
+                final_filter_id[id_len - 4] = '\0';
+            }
+            if (!cli_valid_install_id(final_filter_id)) {
+                fprintf(stderr, "Error: could not determine a filter name from '%s'.\n", repo);
+                system(clean_cmd);
+                free(final_filter_id);
                 if (normalized_repo) free(normalized_repo);
                 if (filter_path) free(filter_path);
                 if (repo && repo != normalized_repo) free((void *)repo);
-- 
2.43.0


From 88702dff32bd73366b3751c3c9a20d1d5bff7390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:16 +0000
Subject: [PATCH 21/68] fix: read the remote directory completely or not at all

---
 src/plugins_remote.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/plugins_remote.c b/src/plugins_remote.c
index 5397eb6..af3bc8a 100644
--- a/src/plugins_remote.c
+++ b/src/plugins_remote.c
@@ -135,8 +135,14 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
         }
         const char *obj_start = p;
         int depth = 0;
+        int in_string = 0;
         while (*p) {
-            if (*p == '{') depth++;
+            if (in_string) {
+                /* Braces in texts do not count */
+                if (*p == '\\' && p[1] != '\0') p++;
+                else if (*p == '\"') in_string = 0;
+            } else if (*p == '\"') in_string = 1;
+            else if (*p == '{') depth++;
             else if (*p == '}') {
                 depth--;
                 if (depth == 0) {
@@ -189,6 +195,13 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
         list->head = rp;
     }
 
+    if (*p != ']') {
+        /* Cut short or malformed: do not pass off the beginning as the whole directory */
+        fprintf(stderr, "Error: remote directory is incomplete.\n");
+        apex_remote_free_plugins(list);
+        return NULL;
+    }
+
     return list;
 }
 
-- 
2.43.0


From c0e8a32e19c3264ddf217624a1b6d3a7d52f6163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:16 +0000
Subject: [PATCH 22/68] fix: take a filter's repository and path from its own
 directory entry

---
 cli/main.c           | 49 ++++++++++----------------------------------
 src/plugins_remote.c |  8 ++++++++
 2 files changed, 19 insertions(+), 38 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 895458d..6cc3f71 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -32,6 +32,7 @@ void apex_remote_print_plugins_filtered(apex_remote_plugin_list *list,
 apex_remote_plugin *apex_remote_find_plugin(apex_remote_plugin_list *list, const char *id);
 void apex_remote_free_plugins(apex_remote_plugin_list *list);
 const char *apex_remote_plugin_repo(apex_remote_plugin *p);
+const char *apex_remote_plugin_path(apex_remote_plugin *p);
 
 /* Shared JSON helpers used for filters as well */
 char *apex_remote_fetch_json(const char *url);
@@ -2744,51 +2745,23 @@ int main(int argc, char *argv[]) {
         } else {
             /* Not a URL - look up in the remote filters directory */
             const char *dir_url = "https://raw.githubusercontent.com/ApexMarkdown/apex-filters/refs/heads/main/apex-filters.json";
-            char *json = apex_remote_fetch_json(dir_url);
-            if (!json) {
+            apex_remote_plugin_list *flist = apex_remote_fetch_filters_directory(dir_url);
+            if (!flist) {
                 fprintf(stderr, "Error: failed to fetch filter directory from %s\n", dir_url);
                 return 1;
             }
 
-            /* Very small JSON scan: find entry with matching "id" and extract "repo" */
-            const char *p = json;
-            int found = 0;
-            while ((p = strstr(p, "\"id\"")) != NULL) {
-                const char *id_start = strchr(p, ':');
-                if (!id_start) break;
-                id_start++;
-                while (*id_start == ' ' || *id_start == '\t') id_start++;
-                if (*id_start != '\"') { p = id_start; continue; }
-                id_start++;
-                const char *id_end = strchr(id_start, '\"');
-                if (!id_end) break;
-                size_t id_len = (size_t)(id_end - id_start);
-
-                if (strlen(install_filter_id) == id_len &&
-                    strncmp(install_filter_id, id_start, id_len) == 0) {
-                    /* Found matching id; search for "repo" and optional "path" in this object */
-                    const char *obj_start = p;
-                    char *repo_val = apex_remote_extract_string(obj_start, "repo");
-                    if (!repo_val) {
-                        fprintf(stderr, "Error: filter '%s' missing repo URL in directory.\n", install_filter_id);
-                        free(json);
-                        return 1;
-                    }
-                    repo = repo_val;
-                    final_filter_id = strdup(install_filter_id);
-                    filter_path = apex_remote_extract_string(obj_start, "path");
-                    found = 1;
-                    break;
-                }
-                p = id_end;
-            }
-
-            if (!found) {
+            apex_remote_plugin *rf = apex_remote_find_plugin(flist, install_filter_id);
+            if (!rf) {
                 fprintf(stderr, "Error: filter '%s' not found in directory.\n", install_filter_id);
-                free(json);
+                apex_remote_free_plugins(flist);
                 return 1;
             }
-            free(json);
+            const char *path_val = apex_remote_plugin_path(rf);
+            repo = strdup(apex_remote_plugin_repo(rf));
+            final_filter_id = strdup(install_filter_id);
+            filter_path = path_val ? strdup(path_val) : NULL;
+            apex_remote_free_plugins(flist);
         }
 
         if (!cli_shell_quotable(repo) ||
diff --git a/src/plugins_remote.c b/src/plugins_remote.c
index af3bc8a..e3a332b 100644
--- a/src/plugins_remote.c
+++ b/src/plugins_remote.c
@@ -12,6 +12,7 @@ typedef struct apex_remote_plugin {
     char *author;
     char *homepage;
     char *repo;
+    char *path;
     struct apex_remote_plugin *next;
 } apex_remote_plugin;
 
@@ -30,6 +31,7 @@ void apex_remote_free_plugins(apex_remote_plugin_list *list) {
         free(p->author);
         free(p->homepage);
         free(p->repo);
+        free(p->path);
         free(p);
         p = next;
     }
@@ -177,6 +179,7 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
         rp->author = apex_remote_extract_string(obj, "author");
         rp->homepage = apex_remote_extract_string(obj, "homepage");
         rp->repo = apex_remote_extract_string(obj, "repo");
+        rp->path = apex_remote_extract_string(obj, "path");
         free(obj);
 
         if (!rp->id || !rp->repo) {
@@ -187,6 +190,7 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
             free(rp->author);
             free(rp->homepage);
             free(rp->repo);
+            free(rp->path);
             free(rp);
             continue;
         }
@@ -301,3 +305,7 @@ const char *apex_remote_plugin_repo(apex_remote_plugin *p) {
     return p->repo;
 }
 
+const char *apex_remote_plugin_path(apex_remote_plugin *p) {
+    if (!p) return NULL;
+    return p->path;
+}
-- 
2.43.0


From bec6ff48cb5bf4de7089635d32458424d3f8f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:00 +0000
Subject: [PATCH 23/68] fix: do not let a code block's language reach the shell
 as a command

---
 src/ast_terminal.c                |  2 ++
 src/extensions/syntax_highlight.c | 14 ++++++++++++++
 src/extensions/syntax_highlight.h |  6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index 0b3ccd8..48e636f 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -15,6 +15,7 @@
 #include "apex/ast_terminal.h"
 #include "table.h"          /* For CMARK_NODE_TABLE, CMARK_NODE_TABLE_ROW, CMARK_NODE_TABLE_CELL */
 #include "extensions/emoji.h"
+#include "extensions/syntax_highlight.h"
 #include "plugins.h"
 
 #include <stdlib.h>
@@ -2094,6 +2095,7 @@ static void serialize_block(terminal_buffer *buf,
                             *w++ = *p++;
                         }
                         *w = '\0';
+                        if (!apex_highlight_language_ok(lang)) lang[0] = '\0';
                     }
 
                     char cmd[512];
diff --git a/src/extensions/syntax_highlight.c b/src/extensions/syntax_highlight.c
index 44735f1..6b0413d 100644
--- a/src/extensions/syntax_highlight.c
+++ b/src/extensions/syntax_highlight.c
@@ -187,6 +187,19 @@ static char *run_command(const char *cmd, const char *input) {
     return buf;
 }
 
+/**
+ * Whether a code block's language is a plain name that may be put into a
+ * highlighter's command line. Anything else must not reach the shell.
+ */
+bool apex_highlight_language_ok(const char *language) {
+    if (!language || !*language || *language == '-') return false;
+    if (*language == '#') return false;
+    for (; *language; language++) {
+        if (!isalnum((unsigned char)*language) && !strchr("+#._-/", *language)) return false;
+    }
+    return true;
+}
+
 /**
  * Highlight a single code block using the specified tool.
  * Returns newly allocated HTML (or ANSI when ansi_output is true), or NULL on failure.
@@ -196,6 +209,7 @@ static char *highlight_code_block(const char *code, const char *language,
     char cmd[512];
     const char *binary = get_tool_binary(tool);
     if (!binary) return NULL;
+    if (!apex_highlight_language_ok(language)) language = NULL;
 
     if (strcmp(tool, "pygments") == 0) {
         /* Pygments: pygmentize -l LANG -f html [-O linenos=1] */
diff --git a/src/extensions/syntax_highlight.h b/src/extensions/syntax_highlight.h
index 46b39ef..5fd2e72 100644
--- a/src/extensions/syntax_highlight.h
+++ b/src/extensions/syntax_highlight.h
@@ -43,4 +43,10 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
  */
 bool apex_syntax_highlighter_available(const char *tool);
 
+/**
+ * Whether a code block's language is a plain name that may be passed on to a
+ * highlighter's command line.
+ */
+bool apex_highlight_language_ok(const char *language);
+
 #endif /* APEX_SYNTAX_HIGHLIGHT_H */
-- 
2.43.0


From bbd3c727452100a4ff35c89c70c378c137b7bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:00 +0000
Subject: [PATCH 24/68] fix: --filters runs the executable files in sorted
 order, as documented

---
 cli/main.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/main.c b/cli/main.c
index 6cc3f71..a275351 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -927,6 +927,10 @@ static char *extract_plugin_id_from_repo(const char *repo_path) {
     return NULL;
 }
 
+static int cli_compare_strings(const void *a, const void *b) {
+    return strcmp(*(char *const *)a, *(char *const *)b);
+}
+
 /* True if s can stand between double quotes in a shell command without being expanded. */
 static bool cli_shell_quotable(const char *s) {
     if (!s || !*s || *s == '-') return false;
@@ -3383,7 +3387,7 @@ int main(int argc, char *argv[]) {
                 char path[1200];
                 snprintf(path, sizeof(path), "%s/%s", root, ent->d_name);
                 struct stat st;
-                if (stat(path, &st) != 0 || !S_ISREG(st.st_mode)) {
+                if (stat(path, &st) != 0 || !S_ISREG(st.st_mode) || access(path, X_OK) != 0) {
                     continue;
                 }
                 if (ast_filter_count == capacity) {
@@ -3405,6 +3409,9 @@ int main(int argc, char *argv[]) {
                 ast_filter_count++;
             }
             closedir(d);
+            if (ast_filter_count > 1) {
+                qsort(ast_filter_commands, ast_filter_count, sizeof(char *), cli_compare_strings);
+            }
         }
 
         /* Resolve individual --filter NAME entries to absolute paths.
-- 
2.43.0


From 146d89f763dd5ab3570daccb491df76f32b6999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:00 +0000
Subject: [PATCH 25/68] fix: plugin discovery does not depend on directory
 order

---
 src/plugins.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/plugins.c b/src/plugins.c
index ca8cf12..dfd2a65 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -248,13 +248,15 @@ static char *apex_get_support_base_dir(void) {
 static void load_plugins_from_dir(apex_plugin_manager *manager,
                                   const char *dirpath) {
     if (!manager || !dirpath) return;
-    DIR *dir = opendir(dirpath);
-    if (!dir) return;
+    /* In sorted order, so that the result does not depend on the file system */
+    struct dirent **ents = NULL;
+    int ent_count = scandir(dirpath, &ents, NULL, alphasort);
+    if (ent_count < 0) return;
 
     char *support_base = apex_get_support_base_dir();
 
-    struct dirent *ent;
-    while ((ent = readdir(dir)) != NULL) {
+    for (int ent_idx = 0; ent_idx < ent_count; ent_idx++) {
+        struct dirent *ent = ents[ent_idx];
         if (ent->d_name[0] == '.') continue;
 
         char plugin_dir[1024];
@@ -544,7 +546,8 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
     }
 
     if (support_base) free(support_base);
-    closedir(dir);
+    for (int ent_idx = 0; ent_idx < ent_count; ent_idx++) free(ents[ent_idx]);
+    free(ents);
 }
 
 static char *dup_join(const char *a, const char *b) {
-- 
2.43.0


From 8e1823797fd89832c0d984f17938b16560361d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:01 +0000
Subject: [PATCH 26/68] fix: honour a plugin's timeout_ms

---
 src/plugins_env.c | 83 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 11 deletions(-)

diff --git a/src/plugins_env.c b/src/plugins_env.c
index c64a8d6..40a1337 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -10,6 +10,7 @@
 #include <sys/wait.h>
 #include <errno.h>
 #include <stdio.h>
+#include <time.h>
 
 /**
  * Very small helper to JSON-escape a string for inclusion as a value.
@@ -51,14 +52,28 @@ char *apex_json_escape(const char *text) {
     return out;
 }
 
+static long long monotonic_ms(void) {
+    struct timespec ts;
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+    return (long long)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
+}
+
+/* Time left for poll() until deadline (as of monotonic_ms); -1 without a deadline. */
+static int poll_time_left(long long deadline) {
+    if (deadline == 0) return -1;
+    long long left = deadline - monotonic_ms();
+    return left < 0 ? 0 : (int)left;
+}
+
 /**
  * Write all of `data` to a child's stdin while also draining its stdout into
  * *buf, so that neither side can block forever on a full pipe. SIGPIPE is held
  * back for the duration: a child that stops reading simply gets no more input.
- * Returns false if the output could not be read or stored.
+ * Returns false if the output could not be read or stored, or when `deadline`
+ * (0 for none) has passed.
  */
-bool apex_child_feed(int in_fd, int out_fd, const char *data, size_t len,
-                     char **buf, size_t *size, size_t *cap) {
+static bool child_feed_until(int in_fd, int out_fd, const char *data, size_t len,
+                             char **buf, size_t *size, size_t *cap, long long deadline) {
     bool ok = true;
     sigset_t pipe_set, old_set, pending;
     sigemptyset(&pipe_set);
@@ -78,10 +93,16 @@ bool apex_child_feed(int in_fd, int out_fd, const char *data, size_t len,
         fds[1].fd = out_fd;
         fds[1].events = POLLIN;
         fds[1].revents = 0;
-        if (poll(fds, 2, -1) < 0) {
+        int left = poll_time_left(deadline);
+        int ready = left != 0 ? poll(fds, 2, left) : 0;
+        if (ready < 0) {
             if (errno == EINTR) continue;
             break;
         }
+        if (ready == 0) {
+            ok = false; /* out of time */
+            break;
+        }
         if (fds[1].revents) {
             if (*size + 4096 > *cap) {
                 char *nb = realloc(*buf, *cap * 2);
@@ -122,6 +143,27 @@ bool apex_child_feed(int in_fd, int out_fd, const char *data, size_t len,
     return ok;
 }
 
+bool apex_child_feed(int in_fd, int out_fd, const char *data, size_t len,
+                     char **buf, size_t *size, size_t *cap) {
+    return child_feed_until(in_fd, out_fd, data, len, buf, size, cap, 0);
+}
+
+/** Wait until fd can be read (or deadline, if not 0, has passed: false). */
+static bool child_wait_output(int fd, long long deadline) {
+    if (deadline == 0) return true;
+    struct pollfd p;
+    p.fd = fd;
+    p.events = POLLIN;
+    int ready;
+    do {
+        int left = poll_time_left(deadline);
+        p.revents = 0;
+        ready = left > 0 ? poll(&p, 1, left) : 0;
+    } while (ready < 0 && errno == EINTR);
+    if (ready == 0) errno = ETIMEDOUT;
+    return ready > 0;
+}
+
 /** Reap a child, retrying when a signal interrupts the wait. */
 pid_t apex_child_reap(pid_t pid, int *status) {
     pid_t r;
@@ -131,18 +173,34 @@ pid_t apex_child_reap(pid_t pid, int *status) {
     return r;
 }
 
+/** Reap a child leading its own process group, ending the group once deadline (if not 0) has passed. */
+static pid_t child_reap_until(pid_t pid, int *status, long long deadline) {
+    while (deadline != 0) {
+        int left = poll_time_left(deadline);
+        if (left == 0) {
+            kill(-pid, SIGKILL);
+            kill(pid, SIGKILL);
+            break;
+        }
+        pid_t r = waitpid(pid, status, WNOHANG);
+        if (r > 0 || (r == -1 && errno != EINTR)) return r;
+        poll(NULL, 0, left < 10 ? left : 10);
+    }
+    return apex_child_reap(pid, status);
+}
+
 /**
  * Run a single external plugin command for a text-based phase.
  * Protocol:
  *  - Host sends JSON on stdin with fields: version, plugin_id, phase, text.
  *  - Plugin writes transformed text to stdout (no JSON response parsing).
+ *  - With timeout_ms > 0, a plugin that takes longer is ended (a no-op).
  */
 char *apex_run_external_plugin_command(const char *cmd,
                                        const char *phase,
                                        const char *plugin_id,
                                        const char *text,
                                        int timeout_ms) {
-    (void)timeout_ms; /* Reserved for future timeout handling */
     if (!cmd || !*cmd || !text || !phase || !plugin_id) return NULL;
 
     /* Build JSON request */
@@ -183,6 +241,7 @@ char *apex_run_external_plugin_command(const char *cmd,
 
     if (pid == 0) {
         /* Child: stdin from in_pipe[0], stdout to out_pipe[1] */
+        if (timeout_ms > 0) setpgid(0, 0); /* so that its own children can be ended with it */
         dup2(in_pipe[0], STDIN_FILENO);
         dup2(out_pipe[1], STDOUT_FILENO);
         close(in_pipe[0]); close(in_pipe[1]);
@@ -194,6 +253,8 @@ char *apex_run_external_plugin_command(const char *cmd,
     }
 
     /* Parent */
+    long long deadline = timeout_ms > 0 ? monotonic_ms() + timeout_ms : 0;
+    if (timeout_ms > 0) setpgid(pid, pid);
     close(in_pipe[0]);
     close(out_pipe[1]);
 
@@ -203,7 +264,7 @@ char *apex_run_external_plugin_command(const char *cmd,
     char *buf = malloc(cap);
 
     /* Write JSON to child stdin */
-    bool fed = buf && apex_child_feed(in_pipe[1], out_pipe[0], json, json_len, &buf, &size, &cap);
+    bool fed = buf && child_feed_until(in_pipe[1], out_pipe[0], json, json_len, &buf, &size, &cap, deadline);
     close(in_pipe[1]);
     free(json);
     if (!fed) {
@@ -211,7 +272,7 @@ char *apex_run_external_plugin_command(const char *cmd,
         close(out_pipe[0]);
         /* Reap child */
         int status;
-        apex_child_reap(pid, &status);
+        child_reap_until(pid, &status, deadline);
         return NULL;
     }
 
@@ -223,18 +284,18 @@ char *apex_run_external_plugin_command(const char *cmd,
                 free(buf);
                 close(out_pipe[0]);
                 int status;
-                apex_child_reap(pid, &status);
+                child_reap_until(pid, &status, deadline);
                 return NULL;
             }
             buf = nb;
         }
-        ssize_t n = read(out_pipe[0], buf + size, 4096);
+        ssize_t n = child_wait_output(out_pipe[0], deadline) ? read(out_pipe[0], buf + size, 4096) : -1;
         if (n < 0) {
             if (errno == EINTR) continue;
             free(buf);
             close(out_pipe[0]);
             int status;
-            apex_child_reap(pid, &status);
+            child_reap_until(pid, &status, deadline);
             return NULL;
         }
         if (n == 0) break;
@@ -244,7 +305,7 @@ char *apex_run_external_plugin_command(const char *cmd,
 
     /* Reap child; a plugin that failed or printed nothing is a no-op */
     int status;
-    if (apex_child_reap(pid, &status) == -1 || !WIFEXITED(status) ||
+    if (child_reap_until(pid, &status, deadline) == -1 || !WIFEXITED(status) ||
         WEXITSTATUS(status) != 0 || size == 0) {
         free(buf);
         return NULL;
-- 
2.43.0


From 0be3147030d14e4623ab007cae239031d8f33abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:20 +0000
Subject: [PATCH 27/68] fix: run filters by their exact file name

Paths of filters were put into a shell command unquoted (or in double quotes
for Lua), so a filter file whose name, or a HOME whose path, contains spaces
or shell syntax was split or executed as a command.
---
 cli/main.c | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index a275351..2d551f3 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -945,6 +945,27 @@ static bool cli_valid_install_id(const char *id) {
     return cli_shell_quotable(id) && *id != '.' && !strchr(id, '/') && strlen(id) <= 150;
 }
 
+/* Shell command that runs the file PATH, whatever its name contains, after PREFIX (e.g. "lua "). */
+static char *cli_command_for_file(const char *prefix, const char *path) {
+    size_t quotes = 0;
+    for (const char *p = path; *p; p++) {
+        if (*p == '\'') quotes++;
+    }
+    char *cmd = malloc(strlen(prefix) + strlen(path) + quotes * 3 + 3);
+    if (!cmd) return NULL;
+    char *w = cmd + sprintf(cmd, "%s'", prefix);
+    for (const char *p = path; *p; p++) {
+        if (*p == '\'') {
+            memcpy(w, "'\\''", 4);
+            w += 4;
+        } else {
+            *w++ = *p;
+        }
+    }
+    memcpy(w, "'", 2);
+    return cmd;
+}
+
 static char *read_file(const char *filename, size_t *len) {
     PROFILE_START(file_read);
     FILE *fp = fopen(filename, "rb");
@@ -3412,6 +3433,15 @@ int main(int argc, char *argv[]) {
             if (ast_filter_count > 1) {
                 qsort(ast_filter_commands, ast_filter_count, sizeof(char *), cli_compare_strings);
             }
+            for (size_t i = 0; i < ast_filter_count; i++) {
+                char *cmd = cli_command_for_file("", ast_filter_commands[i]);
+                if (!cmd) {
+                    fprintf(stderr, "Error: Memory allocation failed\n");
+                    return 1;
+                }
+                free(ast_filter_commands[i]);
+                ast_filter_commands[i] = cmd;
+            }
         }
 
         /* Resolve individual --filter NAME entries to absolute paths.
@@ -3514,13 +3544,7 @@ int main(int argc, char *argv[]) {
                 /* Lua scripts without shebang: run via `lua "path"` */
                 size_t rlen = strlen(resolved);
                 int is_lua = (rlen > 4 && strcmp(resolved + rlen - 4, ".lua") == 0);
-                if (is_lua) {
-                    char cmd[1400];
-                    snprintf(cmd, sizeof(cmd), "lua \"%s\"", resolved);
-                    ast_filter_commands[ast_filter_count] = strdup(cmd);
-                } else {
-                    ast_filter_commands[ast_filter_count] = strdup(resolved);
-                }
+                ast_filter_commands[ast_filter_count] = cli_command_for_file(is_lua ? "lua " : "", resolved);
                 if (!ast_filter_commands[ast_filter_count]) {
                     fprintf(stderr, "Error: Memory allocation failed\n");
                     return 1;
@@ -3549,10 +3573,7 @@ int main(int argc, char *argv[]) {
 
             for (size_t i = 0; i < lua_filter_count; i++) {
                 const char *script = lua_filter_paths[i];
-                /* Build a simple 'lua "<script>"' command */
-                char cmd[1400];
-                snprintf(cmd, sizeof(cmd), "lua \"%s\"", script);
-                ast_filter_commands[ast_filter_count] = strdup(cmd);
+                ast_filter_commands[ast_filter_count] = cli_command_for_file("lua ", script);
                 if (!ast_filter_commands[ast_filter_count]) {
                     fprintf(stderr, "Error: Memory allocation failed\n");
                     return 1;
-- 
2.43.0


From c7ffdb85d7c23f8a6da25ed713b60ecf7152c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:26 +0000
Subject: [PATCH 28/68] fix: apply --meta-file and --meta when another metadata
 layer is absent

---
 cli/main.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 2d551f3..ae1ce58 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -945,6 +945,18 @@ static bool cli_valid_install_id(const char *id) {
     return cli_shell_quotable(id) && *id != '.' && !strchr(id, '/') && strlen(id) <= 150;
 }
 
+/* Merge up to three layers of metadata, lowest precedence first; any may be NULL.
+ * (apex_merge_metadata() takes a NULL list as the end of its arguments.) */
+static apex_metadata_item *cli_merge_layers(apex_metadata_item *low, apex_metadata_item *mid, apex_metadata_item *high) {
+    apex_metadata_item *layers[3] = {low, mid, high};
+    apex_metadata_item *given[3] = {NULL, NULL, NULL};
+    size_t n = 0;
+    for (size_t i = 0; i < 3; i++) {
+        if (layers[i]) given[n++] = layers[i];
+    }
+    return apex_merge_metadata(given[0], given[1], given[2], NULL);
+}
+
 /* Shell command that runs the file PATH, whatever its name contains, after PREFIX (e.g. "lua "). */
 static char *cli_command_for_file(const char *prefix, const char *path) {
     size_t quotes = 0;
@@ -3171,11 +3183,10 @@ int main(int argc, char *argv[]) {
     }
 
     if (global_config_meta || project_config_meta || explicit_file_meta) {
-        file_metadata = apex_merge_metadata(
+        file_metadata = cli_merge_layers(
             global_config_meta,
             project_config_meta,
-            explicit_file_meta,
-            NULL
+            explicit_file_meta
         );
     }
 
@@ -3216,11 +3227,10 @@ int main(int argc, char *argv[]) {
     PROFILE_START(metadata_merge);
     apex_metadata_item *merged_metadata = NULL;
     if (file_metadata || doc_metadata || cmdline_metadata) {
-        merged_metadata = apex_merge_metadata(
+        merged_metadata = cli_merge_layers(
             file_metadata,
             doc_metadata,
-            cmdline_metadata,
-            NULL
+            cmdline_metadata
         );
     }
     PROFILE_END(metadata_merge);
-- 
2.43.0


From 4c3c506f4cf15d79b5fe76e8e15e7f18ce6e5603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:41 +0000
Subject: [PATCH 29/68] fix: backslash escapes keep working after a document
 with math

---
 src/extensions/math.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/extensions/math.c b/src/extensions/math.c
index 5e5e97a..bbbbd06 100644
--- a/src/extensions/math.c
+++ b/src/extensions/math.c
@@ -264,14 +264,15 @@ static cmark_node *match_math_backslash(cmark_syntax_extension *self,
 cmark_syntax_extension *create_math_extension(void) {
     cmark_syntax_extension *ext = cmark_syntax_extension_new("math");
 
-    /* Register special characters $ and \ */
+    /* Register the special character $. The backslash is one of cmark's own special
+     * characters: registering it here would make cmark unregister it after the first
+     * document, and no later document could use backslash escapes. */
     cmark_llist *special_chars = NULL;
     cmark_mem *mem = cmark_get_default_mem_allocator();
     special_chars = cmark_llist_append(mem, special_chars, (void *)'$');
-    special_chars = cmark_llist_append(mem, special_chars, (void *)'\\');
     cmark_syntax_extension_set_special_inline_chars(ext, special_chars);
 
-    /* Set match function - it will handle both $ and \ */
+    /* Set match function */
     cmark_syntax_extension_set_match_inline_func(ext, match_math_dollar);
 
     return ext;
-- 
2.43.0


From 4529ad22e615bd3308af0d5d79c8cba9662cf643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:19 +0000
Subject: [PATCH 30/68] fix: register definition list node types once, not per
 conversion

---
 src/extensions/definition_list.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index 1c7a881..dc9c63e 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -1994,10 +1994,12 @@ cmark_syntax_extension *create_definition_list_extension(void) {
     cmark_syntax_extension *ext = cmark_syntax_extension_new("definition_list");
     if (!ext) return NULL;
 
-    /* Register node types */
-    APEX_NODE_DEFINITION_LIST = cmark_syntax_extension_add_node(0);
-    APEX_NODE_DEFINITION_TERM = cmark_syntax_extension_add_node(0);
-    APEX_NODE_DEFINITION_DATA = cmark_syntax_extension_add_node(0);
+    /* Register node types, once per process: cmark-gfm has a limited number of them */
+    if (APEX_NODE_DEFINITION_DATA == 0) {
+        APEX_NODE_DEFINITION_LIST = cmark_syntax_extension_add_node(0);
+        APEX_NODE_DEFINITION_TERM = cmark_syntax_extension_add_node(0);
+        APEX_NODE_DEFINITION_DATA = cmark_syntax_extension_add_node(0);
+    }
 
     /* Set callbacks */
     cmark_syntax_extension_set_open_block_func(ext, open_block);
-- 
2.43.0


From 8141529890c092051faf5fc50328fdee7fc6c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:19 +0000
Subject: [PATCH 31/68] fix: a man page does not depend on the document
 converted before it

---
 src/ast_man.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/ast_man.c b/src/ast_man.c
index 0bd0cff..cd8e258 100644
--- a/src/ast_man.c
+++ b/src/ast_man.c
@@ -20,12 +20,15 @@ typedef struct {
     char *buf;
     size_t len;
     size_t capacity;
+    /* True after we emitted a <dl> block so the next paragraph is definition continuation (no .PP). */
+    bool last_was_dl_dd;
 } man_buffer;
 
 static void man_buf_init(man_buffer *b) {
     b->buf = NULL;
     b->len = 0;
     b->capacity = 0;
+    b->last_was_dl_dd = false;
 }
 
 static void man_buf_append(man_buffer *b, const char *str, size_t len) {
@@ -394,9 +397,6 @@ static void render_inline_roff(man_buffer *buf, cmark_node *node) {
 
 static void render_block_roff(man_buffer *buf, cmark_node *node);
 
-/* True after we emitted a <dl> block so the next paragraph is definition continuation (no .PP). */
-static bool roff_last_was_dl_dd = false;
-
 static void render_block_roff(man_buffer *buf, cmark_node *node) {
     if (!node) return;
     cmark_node_type t = cmark_node_get_type(node);
@@ -406,7 +406,7 @@ static void render_block_roff(man_buffer *buf, cmark_node *node) {
                 render_block_roff(buf, cur);
             break;
         case CMARK_NODE_HEADING: {
-            roff_last_was_dl_dd = false;
+            buf->last_was_dl_dd = false;
             int level = cmark_node_get_heading_level(node);
             man_buf_append_str(buf, level == 1 ? "\n.SH " : "\n.SS ");
             for (cmark_node *c = cmark_node_first_child(node); c; c = cmark_node_next(c))
@@ -420,11 +420,11 @@ static void render_block_roff(man_buffer *buf, cmark_node *node) {
             bool in_item = (pt == CMARK_NODE_ITEM);
             bool in_def_data_first = (pt == APEX_NODE_DEFINITION_DATA && !cmark_node_previous(node));
             bool in_def_term = (pt == APEX_NODE_DEFINITION_TERM);
-            bool continue_after_dd = roff_last_was_dl_dd;
+            bool continue_after_dd = buf->last_was_dl_dd;
             bool para_has_content = (cmark_node_first_child(node) != NULL);
             if (continue_after_dd) {
                 if (para_has_content)
-                    roff_last_was_dl_dd = false;
+                    buf->last_was_dl_dd = false;
                 /* else leave flag set so next block (e.g. code block) is treated as continuation */
             }
             if (!in_item && !in_def_data_first && !in_def_term && !continue_after_dd) {
@@ -440,7 +440,7 @@ static void render_block_roff(man_buffer *buf, cmark_node *node) {
             break;
         }
         case CMARK_NODE_LIST:
-            roff_last_was_dl_dd = false;
+            buf->last_was_dl_dd = false;
             for (cmark_node *cur = cmark_node_first_child(node); cur; cur = cmark_node_next(cur))
                 render_block_roff(buf, cur);
             break;
@@ -464,16 +464,16 @@ static void render_block_roff(man_buffer *buf, cmark_node *node) {
             cmark_node_type pt = parent ? cmark_node_get_type(parent) : (cmark_node_type)0;
             bool in_item = (pt == CMARK_NODE_ITEM);
             /* Continuation: after <dl> dd, or inside list item (indented line in source) - no .PP/.nf/.fi */
-            if (roff_last_was_dl_dd || in_item) {
-                if (roff_last_was_dl_dd)
-                    roff_last_was_dl_dd = false;
+            if (buf->last_was_dl_dd || in_item) {
+                if (buf->last_was_dl_dd)
+                    buf->last_was_dl_dd = false;
                 if (buf->len > 0 && buf->buf[buf->len - 1] != '\n')
                     man_buf_append_str(buf, " ");
                 if (lit) man_buf_append_roff_safe(buf, lit, strlen(lit));
                 man_buf_append_str(buf, "\n");
                 break;
             }
-            roff_last_was_dl_dd = false;
+            buf->last_was_dl_dd = false;
             /* \fR not \f[C] to avoid "cannot select font 'C'" on some groff devices */
             man_buf_append_str(buf, "\n.PP\n.nf\n\\fR\n");
             if (lit) {
@@ -501,25 +501,25 @@ static void render_block_roff(man_buffer *buf, cmark_node *node) {
             break;
         }
         case CMARK_NODE_BLOCK_QUOTE:
-            roff_last_was_dl_dd = false;
+            buf->last_was_dl_dd = false;
             man_buf_append_str(buf, "\n.RS\n");
             for (cmark_node *cur = cmark_node_first_child(node); cur; cur = cmark_node_next(cur))
                 render_block_roff(buf, cur);
             man_buf_append_str(buf, "\n.RE\n");
             break;
         case CMARK_NODE_THEMATIC_BREAK:
-            roff_last_was_dl_dd = false;
+            buf->last_was_dl_dd = false;
             man_buf_append_str(buf, "\n.PP\n  *  *  *  *  *\n");
             break;
         case CMARK_NODE_HTML_BLOCK: {
             const char *lit = cmark_node_get_literal(node);
             size_t lit_len = lit ? strlen(lit) : 0;
             if (lit_len > 0 && render_dl_html_block_as_roff(buf, lit, lit_len))
-                roff_last_was_dl_dd = true;
+                buf->last_was_dl_dd = true;
             break;
         }
         default:
-            roff_last_was_dl_dd = false;
+            buf->last_was_dl_dd = false;
             /* Definition list (Apex extension): term = .TP + bold term, data = body */
             if (t == APEX_NODE_DEFINITION_LIST) {
                 for (cmark_node *cur = cmark_node_first_child(node); cur; cur = cmark_node_next(cur))
-- 
2.43.0


From 5cece6b040729ae41072f6b7515142aa705bbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:51 +0000
Subject: [PATCH 32/68] fix: terminal output keeps its style stack per
 conversion

---
 src/ast_terminal.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index 48e636f..1212764 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -42,6 +42,12 @@ typedef struct {
     char *buf;
     size_t len;
     size_t capacity;
+    /* Simple stack of active HTML <span class="..."> styles for RawInline HTML.
+     * This is only used for CMARK_NODE_HTML_INLINE nodes so we don't have to
+     * thread extra state through every serialize_* call.
+     */
+    const char *html_span_style_stack[16];
+    int html_span_style_depth;
 } terminal_buffer;
 
 /* Alignment options for table cells */
@@ -77,6 +83,7 @@ static void buffer_init(terminal_buffer *buf) {
     buf->buf = NULL;
     buf->len = 0;
     buf->capacity = 0;
+    buf->html_span_style_depth = 0;
 }
 
 static void buffer_append(terminal_buffer *buf, const char *str, size_t len) {
@@ -1192,13 +1199,6 @@ static const char *theme_style_for_node(const terminal_theme *theme,
     return theme_style_for_node_attrs(theme, attrs);
 }
 
-/* Simple stack of active HTML <span class="..."> styles for RawInline HTML.
- * This is only used for CMARK_NODE_HTML_INLINE nodes so we don't have to
- * thread extra state through every serialize_* call.
- */
-static const char *html_span_style_stack[16];
-static int html_span_style_depth = 0;
-
 static void serialize_inline(terminal_buffer *buf,
                              cmark_node *node,
                              const apex_options *options,
@@ -1374,8 +1374,8 @@ static void serialize_inline(terminal_buffer *buf,
                         const char *attrs = literal + 5; /* after 'span' */
                         const char *style = theme_style_for_node_attrs(theme, attrs);
                         if (style) {
-                            if (html_span_style_depth < (int)(sizeof(html_span_style_stack) / sizeof(html_span_style_stack[0]))) {
-                                html_span_style_stack[html_span_style_depth++] = style;
+                            if (buf->html_span_style_depth < (int)(sizeof(buf->html_span_style_stack) / sizeof(buf->html_span_style_stack[0]))) {
+                                buf->html_span_style_stack[buf->html_span_style_depth++] = style;
                             }
                             apply_style_string(buf, style, use_256_color);
                         }
@@ -1386,8 +1386,8 @@ static void serialize_inline(terminal_buffer *buf,
                      * re-apply any outer span styles; nested spans are rare
                      * in terminal output.
                      */
-                    if (html_span_style_depth > 0) {
-                        html_span_style_depth--;
+                    if (buf->html_span_style_depth > 0) {
+                        buf->html_span_style_depth--;
                     }
                     append_ansi_reset(buf);
                 } else {
@@ -2451,9 +2451,6 @@ char *apex_cmark_to_terminal(cmark_node *document,
     terminal_buffer buf;
     buffer_init(&buf);
 
-    /* Reset HTML span style stack at the start of each render. */
-    html_span_style_depth = 0;
-
     terminal_theme *theme = load_theme(options);
     if (getenv("APEX_DEBUG_THEME")) {
         const char *tname = (options && options->theme_name) ? options->theme_name : "(null)";
-- 
2.43.0


From ab2dfa8767005db77aed05a4a6e5c298662e4d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:51 +0000
Subject: [PATCH 33/68] fix: per-cell table alignment is a setting of the
 parser, not of the process

---
 src/extensions/advanced_tables.c | 18 +++++++-----------
 src/extensions/advanced_tables.h |  2 +-
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/extensions/advanced_tables.c b/src/extensions/advanced_tables.c
index 75cf34e..5bf965f 100644
--- a/src/extensions/advanced_tables.c
+++ b/src/extensions/advanced_tables.c
@@ -21,9 +21,6 @@
 #include <ctype.h>
 #include <stdio.h>
 
-/* Global flag for per-cell alignment (set when extension is created) */
-static bool g_per_cell_alignment = false;
-
 /* Placeholder for escaped \<< (literal <<). Must match table.c. No underscore so inline parser doesn't treat as emphasis. */
 static const unsigned char ESCAPED_LTLT_PLACEHOLDER[] = "APEXLTLT";
 #define ESCAPED_LTLT_PLACEHOLDER_LEN 8
@@ -403,7 +400,7 @@ static bool is_caption_row(cmark_node *row) {
  * Add colspan/rowspan attributes to table cells
  * This modifies the AST by setting user_data with HTML attributes
  */
-static void process_table_spans(cmark_node *table) {
+static void process_table_spans(cmark_node *table, bool per_cell_alignment) {
     if (!table || cmark_node_get_type(table) != CMARK_NODE_TABLE) return;
 
     /* Walk through table rows - start from first TABLE_ROW node */
@@ -545,7 +542,7 @@ static void process_table_spans(cmark_node *table) {
 
                     /* Process per-cell alignment markers (:) BEFORE colspan/rowspan processing
                      * so that alignment is preserved when cells are merged. */
-                    if (g_per_cell_alignment) {
+                    if (per_cell_alignment) {
                         char *cell_attrs_check = (char *)cmark_node_get_user_data(cell);
                         if (!cell_attrs_check || !strstr(cell_attrs_check, "data-remove")) {
                             char *align = process_cell_alignment(cell);
@@ -1538,7 +1535,7 @@ static void add_table_caption(cmark_node *table, const char *caption, const char
 /**
  * Process tables in document
  */
-cmark_node *apex_process_advanced_tables(cmark_node *root) {
+cmark_node *apex_process_advanced_tables(cmark_node *root, bool per_cell_alignment) {
     if (!root) return root;
 
     cmark_iter *iter = cmark_iter_new(root);
@@ -1755,7 +1752,7 @@ cmark_node *apex_process_advanced_tables(cmark_node *root) {
                 }
 
                 /* Process spans - this also detects tfoot rows */
-                process_table_spans(cur);
+                process_table_spans(cur, per_cell_alignment);
             }
         }
     }
@@ -1866,9 +1863,8 @@ static void html_render_table(cmark_syntax_extension *ext,
 static cmark_node *postprocess(cmark_syntax_extension *ext,
                                cmark_parser *parser,
                                cmark_node *root) {
-    (void)ext;
     (void)parser;
-    return apex_process_advanced_tables(root);
+    return apex_process_advanced_tables(root, cmark_syntax_extension_get_private(ext) != NULL);
 }
 
 /**
@@ -1878,8 +1874,8 @@ cmark_syntax_extension *create_advanced_tables_extension(bool per_cell_alignment
     cmark_syntax_extension *ext = cmark_syntax_extension_new("advanced_tables");
     if (!ext) return NULL;
 
-    /* Store per_cell_alignment flag in static variable */
-    g_per_cell_alignment = per_cell_alignment;
+    /* Store per_cell_alignment flag with the extension */
+    cmark_syntax_extension_set_private(ext, per_cell_alignment ? ext : NULL, NULL);
 
     /* Set postprocess callback to add span/caption attributes to AST */
     cmark_syntax_extension_set_postprocess_func(ext, postprocess);
diff --git a/src/extensions/advanced_tables.h b/src/extensions/advanced_tables.h
index db80ef3..3eaa517 100644
--- a/src/extensions/advanced_tables.h
+++ b/src/extensions/advanced_tables.h
@@ -26,7 +26,7 @@ extern "C" {
  * Post-process tables to add advanced features
  * This walks the AST and enhances table nodes
  */
-cmark_node *apex_process_advanced_tables(cmark_node *root);
+cmark_node *apex_process_advanced_tables(cmark_node *root, bool per_cell_alignment);
 
 /**
  * Create advanced tables extension
-- 
2.43.0


From 3701c14a08b37a2c83eafeeaaa331f48aa57a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:51 +0000
Subject: [PATCH 34/68] fix: metadata parsing does not use strtok's shared
 state

---
 src/extensions/metadata.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 699e05b..f1fbd63 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1025,7 +1025,8 @@ static apex_string_array *split_string_simple(const char *str, const char *delim
         return NULL;
     }
 
-    char *token = strtok(str_copy, delimiter);
+    char *saveptr = NULL;
+    char *token = strtok_r(str_copy, delimiter, &saveptr);
     while (token) {
         /* Trim whitespace from token */
         char *start = token;
@@ -1052,7 +1053,7 @@ static apex_string_array *split_string_simple(const char *str, const char *delim
         }
         arr->count++;
 
-        token = strtok(NULL, delimiter);
+        token = strtok_r(NULL, delimiter, &saveptr);
     }
 
     free(str_copy);
-- 
2.43.0


From c73b57979a7474dc41bfebba0a8243bbebe08a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:51 +0000
Subject: [PATCH 35/68] fix: conversions in several threads take turns with
 cmark-gfm's global state

---
 src/apex.c                          | 23 ++++++++++++++++++++++-
 src/cmark_lock.h                    | 29 +++++++++++++++++++++++++++++
 src/extensions/advanced_footnotes.c |  2 +-
 src/extensions/definition_list.c    |  5 +++--
 src/extensions/html_markdown.c      |  3 ++-
 5 files changed, 57 insertions(+), 5 deletions(-)
 create mode 100644 src/cmark_lock.h

diff --git a/src/apex.c b/src/apex.c
index bf06d15..0c4eab4 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -8,6 +8,7 @@
 #include <libgen.h>
 #include <time.h>
 #include <sys/time.h>
+#include <pthread.h>
 
 /* cmark-gfm headers */
 #include "cmark-gfm.h"
@@ -42,6 +43,7 @@
 #include "extensions/fenced_divs.h"
 #include "extensions/syntax_highlight.h"
 #include "plugins.h"
+#include "cmark_lock.h"
 #include "ast_json.h"
 #include "apex/ast_markdown.h"
 #include "apex/ast_terminal.h"
@@ -2842,6 +2844,23 @@ static int apex_to_cmark_options(const apex_options *options) {
     return cmark_opts;
 }
 
+static pthread_mutex_t cmark_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+void apex_cmark_lock(void) {
+    pthread_mutex_lock(&cmark_mutex);
+}
+
+void apex_cmark_unlock(void) {
+    pthread_mutex_unlock(&cmark_mutex);
+}
+
+cmark_node *apex_cmark_parser_finish(cmark_parser *parser) {
+    apex_cmark_lock();
+    cmark_node *document = cmark_parser_finish(parser);
+    apex_cmark_unlock();
+    return document;
+}
+
 /**
  * Register cmark-gfm extensions based on Apex options
  */
@@ -4992,7 +5011,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
 
     /* Register extensions based on mode and options */
+    apex_cmark_lock();
     apex_register_extensions(parser, options);
+    apex_cmark_unlock();
 
     /* Feed normalized text to parser */
     if (getenv("APEX_DEBUG_PIPELINE")) {
@@ -5000,7 +5021,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                 text_len, text_ptr, text_len > 350 ? "..." : "");
     }
     cmark_parser_feed(parser, text_len ? text_ptr : "", text_len);
-    cmark_node *document = cmark_parser_finish(parser);
+    cmark_node *document = apex_cmark_parser_finish(parser);
     PROFILE_END(parsing);
 
     /* Free normalized buffer if we allocated it (after parser is finished) */
diff --git a/src/cmark_lock.h b/src/cmark_lock.h
new file mode 100644
index 0000000..b5bde62
--- /dev/null
+++ b/src/cmark_lock.h
@@ -0,0 +1,29 @@
+/**
+ * Serialised access to cmark-gfm's process-wide state
+ *
+ * cmark-gfm keeps its extension registry, the node types added by extensions and the
+ * set of special inline characters in global variables, which it changes while a parser
+ * finishes. Conversions in several threads must not do that at the same time.
+ */
+
+#ifndef APEX_CMARK_LOCK_H
+#define APEX_CMARK_LOCK_H
+
+#include "cmark-gfm.h"
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+/** Held while registering extensions and finishing a parser; not recursive */
+void apex_cmark_lock(void);
+void apex_cmark_unlock(void);
+
+/** cmark_parser_finish() under the lock */
+cmark_node *apex_cmark_parser_finish(cmark_parser *parser);
+
+#ifdef __cplusplus
+}
+#endif
+
+#endif
diff --git a/src/extensions/advanced_footnotes.c b/src/extensions/advanced_footnotes.c
index 9203e1b..2cb2ee5 100644
--- a/src/extensions/advanced_footnotes.c
+++ b/src/extensions/advanced_footnotes.c
@@ -104,7 +104,7 @@ static void reparse_footnote_blocks(cmark_node *footnote_def, cmark_parser *pars
     cmark_parser *sub_parser = cmark_parser_new(CMARK_OPT_FOOTNOTES);
     if (!sub_parser) return;
 
-    /* Parse the content */
+    /* Parse the content (within cmark_parser_finish() of the document, which holds the lock) */
     cmark_parser_feed(sub_parser, literal, strlen(literal));
     cmark_node *parsed = cmark_parser_finish(sub_parser);
 
diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index dc9c63e..ffeb63c 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -17,6 +17,7 @@
  */
 
 #include "definition_list.h"
+#include "../cmark_lock.h"
 #include "parser.h"
 #include <ctype.h>
 #include "node.h"
@@ -1113,7 +1114,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                             cmark_parser *temp_parser = cmark_parser_new(parser_opts);
                             if (temp_parser) {
                                 cmark_parser_feed(temp_parser, final_term_text, final_term_len);
-                                cmark_node *doc = cmark_parser_finish(temp_parser);
+                                cmark_node *doc = apex_cmark_parser_finish(temp_parser);
                                 if (doc) {
                                     /* Render and extract just the content (strip <p> tags) */
                                     char *full_html = cmark_render_html(doc, render_opts, NULL);
@@ -1292,7 +1293,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                     cmark_parser *temp_parser = cmark_parser_new(parser_opts);
                     if (temp_parser) {
                         cmark_parser_feed(temp_parser, final_def_text, final_def_len);
-                        cmark_node *doc = cmark_parser_finish(temp_parser);
+                        cmark_node *doc = apex_cmark_parser_finish(temp_parser);
                         if (doc) {
                             /* Render and extract just the content (strip <p> tags) */
                             char *full_html = cmark_render_html(doc, render_opts, NULL);
diff --git a/src/extensions/html_markdown.c b/src/extensions/html_markdown.c
index b915971..5efb3eb 100644
--- a/src/extensions/html_markdown.c
+++ b/src/extensions/html_markdown.c
@@ -6,6 +6,7 @@
 #include "html_markdown.h"
 #include "ial.h"
 #include "../html_renderer.h"
+#include "../cmark_lock.h"
 #include "cmark-gfm.h"
 #include <stdio.h>
 #include <stdlib.h>
@@ -249,7 +250,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
                 cmark_parser *parser = cmark_parser_new(cmark_opts);
                 if (parser) {
                     cmark_parser_feed(parser, content, content_len);
-                    cmark_node *doc = cmark_parser_finish(parser);
+                    cmark_node *doc = apex_cmark_parser_finish(parser);
 
                     if (doc) {
                         /* Process IAL in inner content so block/span IAL (e.g. {: .lead }) are applied */
-- 
2.43.0


From 7c77d7ffd392e6c9cde1da5f6f51fc972569e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:37 +0000
Subject: [PATCH 36/68] fix: wiki links and attributes were looked for in freed
 text

---
 src/apex.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 0c4eab4..dd21f9e 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -5024,13 +5024,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     cmark_node *document = apex_cmark_parser_finish(parser);
     PROFILE_END(parsing);
 
-    /* Free normalized buffer if we allocated it (after parser is finished) */
-    if (final_normalized) {
-        free(final_normalized);
-    }
-
     if (!document) {
         cmark_parser_free(parser);
+        free(final_normalized);
         free(working_text);
         apex_free_metadata(metadata);
         return NULL;
@@ -5041,6 +5037,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         char *json = apex_cmark_to_pandoc_json(document, options);
         cmark_node_free(document);
         cmark_parser_free(parser);
+        free(final_normalized);
         free(working_text);
         apex_free_metadata(metadata);
         /* Note: Preprocessing buffers are conditionally allocated and may not be in scope here.
@@ -5070,6 +5067,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         if (!filtered && options->ast_filter_strict) {
             cmark_node_free(document);
             cmark_parser_free(parser);
+            free(final_normalized);
             free(working_text);
             apex_free_metadata(metadata);
             return NULL;
@@ -5126,6 +5124,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
+    /* Free normalized buffer if we allocated it (text_ptr may point to it until here) */
+    if (final_normalized) {
+        free(final_normalized);
+    }
+
     /* Apply image attributes to image nodes */
     if (img_attrs) {
         PROFILE_START(image_attrs);
-- 
2.43.0


From 7e724ac141c52afbefb97027e5ff914f7d5c1833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:46 +0000
Subject: [PATCH 37/68] fix: table processing does not stop when the wall clock
 is set

---
 src/extensions/table_html_postprocess.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/extensions/table_html_postprocess.c b/src/extensions/table_html_postprocess.c
index 36b9836..64205ff 100644
--- a/src/extensions/table_html_postprocess.c
+++ b/src/extensions/table_html_postprocess.c
@@ -16,6 +16,13 @@
 #include <ctype.h>
 #include <time.h>
 
+/* Elapsed time must not follow changes of the wall clock */
+static time_t monotonic_seconds(void) {
+    struct timespec ts;
+    if (clock_gettime(CLOCK_MONOTONIC, &ts) != 0) return 0;
+    return ts.tv_sec;
+}
+
 /* Placeholder for escaped \<< (literal <<). Must match table.c. No underscore so inline parser doesn't treat as emphasis. */
 static const unsigned char ESCAPED_LTLT_PLACEHOLDER[] = "APEXLTLT";
 #define ESCAPED_LTLT_PLACEHOLDER_LEN 8
@@ -705,7 +712,7 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
     cell_attr *prev_cell_matching = NULL;
 
     /* Timeout check: if processing takes more than 10 seconds, skip the rest */
-    time_t start_time = time(NULL);
+    time_t start_time = monotonic_seconds();
     const time_t timeout_seconds = 10;
     size_t timeout_check_counter = 0;
 
@@ -714,9 +721,17 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
 
         /* Check timeout every 1000 characters */
         if (timeout_check_counter % 1000 == 0) {
-            time_t current_time = time(NULL);
+            time_t current_time = monotonic_seconds();
             if (current_time - start_time >= timeout_seconds) {
                 /* Copy remaining HTML as-is to avoid corruption */
+                size_t done_len = (size_t)(write - output);
+                size_t rest_len = strlen(read);
+                if (done_len + rest_len + 1 > capacity) {
+                    char *new_output = realloc(output, done_len + rest_len + 1);
+                    if (!new_output) break;
+                    output = new_output;
+                    write = output + done_len;
+                }
                 while (*read) {
                     *write++ = *read++;
                 }
-- 
2.43.0


From b31c0926f0a2f487a26a8394acee208525ace86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 38/68] fix: an unknown last word in an attribute list read
 past its end

---
 src/extensions/advanced_tables.c | 2 +-
 src/extensions/fenced_divs.c     | 2 +-
 src/extensions/ial.c             | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extensions/advanced_tables.c b/src/extensions/advanced_tables.c
index 5bf965f..3ece98f 100644
--- a/src/extensions/advanced_tables.c
+++ b/src/extensions/advanced_tables.c
@@ -1023,7 +1023,7 @@ static apex_attributes *parse_ial_from_text(const char *text) {
         }
 
         /* Unknown token, skip */
-        buf_p++;
+        if (*buf_p) buf_p++;
     }
 
     return attrs;
diff --git a/src/extensions/fenced_divs.c b/src/extensions/fenced_divs.c
index 3a77b83..7710ed1 100644
--- a/src/extensions/fenced_divs.c
+++ b/src/extensions/fenced_divs.c
@@ -330,7 +330,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
             }
 
             /* Unknown token, skip */
-            p++;
+            if (*p) p++;
         }
     }
 
diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 4ded06f..8640d91 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -262,7 +262,7 @@ apex_attributes *parse_ial_content(const char *content, int len) {
         }
 
         /* Unknown token, skip */
-        p++;
+        if (*p) p++;
     }
 
     return attrs;
@@ -1888,7 +1888,7 @@ static apex_attributes *parse_image_attributes(const char *attr_str, int len) {
         }
 
         /* Unknown token, skip */
-        p++;
+        if (*p) p++;
     }
 
     return attrs;
-- 
2.43.0


From 2ad90a8ab583efaf7e869e7d1c8841bbd832af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:14 +0000
Subject: [PATCH 39/68] fix: a lone & in a definition made man page output loop
 forever

---
 src/ast_man.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ast_man.c b/src/ast_man.c
index cd8e258..9f7647f 100644
--- a/src/ast_man.c
+++ b/src/ast_man.c
@@ -161,10 +161,9 @@ static void append_html_fragment_roff(man_buffer *buf, const char *str, size_t l
             }
         }
         /* plain text run */
-        size_t start = i;
+        size_t start = i++;
         while (i < len && str[i] != '<' && str[i] != '&') i++;
-        if (i > start)
-            man_buf_append_roff_safe(buf, str + start, i - start);
+        man_buf_append_roff_safe(buf, str + start, i - start);
     }
 }
 
-- 
2.43.0


From 3d0c9a2b3792e17e6e1fb99e3543494e340ab543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:06 +0000
Subject: [PATCH 40/68] fix: a plugin run without memory to restore the
 environment is skipped

---
 src/plugins.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/plugins.c b/src/plugins.c
index dfd2a65..65e0445 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -804,23 +804,31 @@ char *apex_plugins_run_text_phase(apex_plugin_manager *manager,
             if (prev_dir) {
                 old_dir = strdup(prev_dir);
             }
-            if (p->dir_path) {
-                setenv("APEX_PLUGIN_DIR", p->dir_path, 1);
-            }
-
             const char *prev_support = getenv("APEX_SUPPORT_DIR");
             if (prev_support) {
                 old_support = strdup(prev_support);
             }
+            const char *prev_file = getenv("APEX_FILE_PATH");
+            if (prev_file) {
+                old_file_path = strdup(prev_file);
+            }
+            if ((prev_dir && !old_dir) || (prev_support && !old_support) || (prev_file && !old_file_path)) {
+                /* Out of memory: the environment could not be restored afterwards */
+                free(old_dir);
+                free(old_support);
+                free(old_file_path);
+                continue;
+            }
+
+            if (p->dir_path) {
+                setenv("APEX_PLUGIN_DIR", p->dir_path, 1);
+            }
+
             if (p->support_dir) {
                 setenv("APEX_SUPPORT_DIR", p->support_dir, 1);
             }
 
             /* APEX_FILE_PATH: full path to input file, or base dir / empty for stdin */
-            const char *prev_file = getenv("APEX_FILE_PATH");
-            if (prev_file) {
-                old_file_path = strdup(prev_file);
-            }
             const char *file_path = (options && options->input_file_path)
                                       ? options->input_file_path
                                       : "";
-- 
2.43.0


From c84f14dfd525b0301149fd068125713bdff91897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:59 +0000
Subject: [PATCH 41/68] fix: the JSON given to filters was malformed for
 emphasis and code blocks

---
 src/ast_json.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index d7abf5f..54d33ef 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -136,15 +136,15 @@ static int write_inline(apex_json_buf *b, cmark_node *node) {
         break;
     }
     case CMARK_NODE_EMPH: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Emph\",\"c\":[")) return 0;
+        if (!apex_json_buf_append(b, "{\"t\":\"Emph\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
     case CMARK_NODE_STRONG: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Strong\",\"c\":[")) return 0;
+        if (!apex_json_buf_append(b, "{\"t\":\"Strong\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
     case CMARK_NODE_LINK: {
@@ -262,11 +262,11 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
         if (lang && *lang) {
             if (!apex_json_buf_append_escaped_string(b, lang)) return 0;
         }
-        /* Close Attr (keyvals then attr) with ]], then comma before content */
+        /* Close classes, then keyvals and Attr, then comma before content */
         if (lang && strcmp(lang, "inc") == 0) {
-            if (!apex_json_buf_append(b, "]\x2c[[\"inc\",\"yes\"]]],")) return 0;
+            if (!apex_json_buf_append(b, "],[[\"inc\",\"yes\"]]],")) return 0;
         } else {
-            if (!apex_json_buf_append(b, "],[]]],")) return 0;
+            if (!apex_json_buf_append(b, "],[]],")) return 0;
         }
         if (lit_len > 0) {
             char *lit_copy = (char *)malloc(lit_len + 1);
-- 
2.43.0


From 3d399e58574d8837e8e6fe6a6fb41678c0deb3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:59 +0000
Subject: [PATCH 42/68] fix: the JSON given to filters was malformed for
 ordered lists and did not tell tight lists

---
 src/ast_json.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 54d33ef..1cb91fd 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -218,7 +218,11 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
 
     switch (t) {
     case CMARK_NODE_PARAGRAPH: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Para\",\"c\":")) return 0;
+        /* Paragraphs of a tight list are Pandoc's Plain blocks */
+        cmark_node *item = cmark_node_parent(node);
+        cmark_node *list = item ? cmark_node_parent(item) : NULL;
+        int plain = list && cmark_node_get_type(list) == CMARK_NODE_LIST && cmark_node_get_list_tight(list);
+        if (!apex_json_buf_append(b, plain ? "{\"t\":\"Plain\",\"c\":" : "{\"t\":\"Para\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
         if (!apex_json_buf_append(b, "}")) return 0;
         break;
@@ -296,7 +300,10 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             snprintf(buf, sizeof(buf), "%d", start);
             if (!apex_json_buf_append(b, "[")) return 0;
             if (!apex_json_buf_append(b, buf)) return 0;
-            if (!apex_json_buf_append(b, ",\"Decimal\",\"Period\"],[")) return 0;
+            const char *delim = cmark_node_get_list_delim(node) == CMARK_PAREN_DELIM ? "OneParen" : "Period";
+            if (!apex_json_buf_append(b, ",{\"t\":\"Decimal\"},{\"t\":\"")) return 0;
+            if (!apex_json_buf_append(b, delim)) return 0;
+            if (!apex_json_buf_append(b, "\"}],[")) return 0;
         } else {
             if (!apex_json_buf_append(b, "{\"t\":\"BulletList\",\"c\":[")) return 0;
         }
@@ -324,7 +331,7 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             item = cmark_node_next(item);
         }
 
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, is_ordered ? "]]}" : "]}")) return 0;
         break;
     }
     case CMARK_NODE_BLOCK_QUOTE: {
-- 
2.43.0


From f8ee199b6ec63f89e11daba817705a1a8a23ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:36 +0000
Subject: [PATCH 43/68] fix: documents lost most of their content on the way
 back from a filter

The JSON reader kept only the first inline of each paragraph, dropped links,
images, lists, quotes and Divs, and took cut-off JSON for an empty document,
so that even strict mode carried on without the text.
---
 src/ast_json.c | 266 +++++++++++++++++++++++--------------------------
 1 file changed, 127 insertions(+), 139 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 1cb91fd..7e5ad8a 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -514,8 +514,8 @@ static long json_parse_int(json_cursor *cur) {
 }
 
 /* Forward declarations for recursive descent on the Pandoc subset */
-static cmark_node *parse_blocks_array(json_cursor *cur);
-static cmark_node *parse_block_object(json_cursor *cur);
+static cmark_node *parse_blocks_array(json_cursor *cur, int *plain);
+static cmark_node *parse_block_object(json_cursor *cur, int *plain);
 static int         json_skip_value(json_cursor *cur);
 
 /* Skip arbitrary JSON value (used for meta and fields we don't care about) */
@@ -553,7 +553,7 @@ static int json_skip_value(json_cursor *cur) {
                 break;
             }
         }
-        return 1;
+        return cur->s[0] != '\0' || cur->s[-1] == '}';
     }
     if (c == '[') {
         cur->s++;
@@ -574,7 +574,7 @@ static int json_skip_value(json_cursor *cur) {
                 break;
             }
         }
-        return 1;
+        return cur->s[0] != '\0' || cur->s[-1] == ']';
     }
     /* number, true, false, null – skip simple token */
     while (*cur->s && !isspace((unsigned char)*cur->s) &&
@@ -584,23 +584,32 @@ static int json_skip_value(json_cursor *cur) {
     return 1;
 }
 
-/* Parse a Pandoc Inline array into a linked list of cmark nodes attached
- * under a temporary dummy parent; returns first child.
+/* Move all children of 'from' (a temporary parent, which is freed) to 'to'. */
+static void move_children(cmark_node *to, cmark_node *from) {
+    cmark_node *child = cmark_node_first_child(from);
+    while (child) {
+        cmark_node *next = cmark_node_next(child);
+        if (!cmark_node_append_child(to, child)) {
+            cmark_node_unlink(child);
+            cmark_node_free(child);
+        }
+        child = next;
+    }
+    cmark_node_free(from);
+}
+
+/* Parse a Pandoc Inline array; returns a temporary parent (free it or hand it
+ * to move_children) whose children are the inlines, or NULL on failure.
  */
 static cmark_node *parse_inlines_array(json_cursor *cur) {
     if (!json_match_char(cur, '[')) return NULL;
     cmark_node *dummy = cmark_node_new(CMARK_NODE_PARAGRAPH);
     if (!dummy) return NULL;
-    /* 'last' was previously used but is no longer needed; we intentionally
-     * omit it to avoid unused-variable warnings.
-     */
 
     json_skip_ws(cur);
     if (*cur->s == ']') {
         cur->s++;
-        cmark_node *first = cmark_node_first_child(dummy);
-        cmark_node_free(dummy);
-        return first;
+        return dummy;
     }
 
     int ok = 1;
@@ -642,6 +651,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             json_skip_ws(cur);
             if (*cur->s == ',') cur->s++;
         }
+        if (ok && tag && !c_buf) c_buf = strdup("[]"); /* {"t":"Space"} and the like */
         if (!ok || !tag || !c_buf) {
             free(tag);
             free(c_buf);
@@ -660,26 +670,21 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!node) { free(tag); free(c_buf); free(txt); ok = 0; break; }
             cmark_node_set_literal(node, txt);
             free(txt);
+        } else if (strcmp(tag, "Space") == 0) {
+            node = cmark_node_new(CMARK_NODE_TEXT);
+            if (node) cmark_node_set_literal(node, " ");
         } else if (strcmp(tag, "SoftBreak") == 0) {
             node = cmark_node_new(CMARK_NODE_SOFTBREAK);
         } else if (strcmp(tag, "LineBreak") == 0) {
             node = cmark_node_new(CMARK_NODE_LINEBREAK);
         } else if (strcmp(tag, "Emph") == 0 || strcmp(tag, "Strong") == 0) {
-            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
             cmark_node *wrapper = cmark_node_new(strcmp(tag, "Emph") == 0
                                                  ? CMARK_NODE_EMPH
                                                  : CMARK_NODE_STRONG);
             if (!wrapper) { free(tag); free(c_buf); ok = 0; break; }
-            json_skip_ws(&ccur);
-            if (*ccur.s != ']') {
-                cmark_node *child_first = parse_inlines_array(&ccur);
-                cmark_node *child = child_first;
-                while (child) {
-                    cmark_node *next = cmark_node_next(child);
-                    cmark_node_append_child(wrapper, child);
-                    child = next;
-                }
-            }
+            cmark_node *children = parse_inlines_array(&ccur);
+            if (!children) { cmark_node_free(wrapper); free(tag); free(c_buf); ok = 0; break; }
+            move_children(wrapper, children);
             node = wrapper;
         } else if (strcmp(tag, "Code") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
@@ -696,19 +701,35 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); ok = 0; break; }
 
-            cmark_node *child_first = parse_inlines_array(&ccur);
-
-            cmark_node *child = child_first;
-            while (child) {
-                cmark_node *next = cmark_node_next(child);
-                if (!cmark_node_append_child(dummy, child)) {
-                    cmark_node_free(child);
-                    ok = 0;
-                    break;
-                }
-                child = next;
-            }
+            cmark_node *children = parse_inlines_array(&ccur);
+            if (!children) { free(tag); free(c_buf); ok = 0; break; }
+            move_children(dummy, children);
             node = NULL;
+        } else if (strcmp(tag, "Link") == 0 || strcmp(tag, "Image") == 0) {
+            /* c = [Attr, inlines, [url, title]] */
+            cmark_node *link = cmark_node_new(strcmp(tag, "Link") == 0 ? CMARK_NODE_LINK : CMARK_NODE_IMAGE);
+            cmark_node *children = NULL;
+            char *url = NULL;
+            char *title = NULL;
+            if (link && json_match_char(&ccur, '[') && json_skip_value(&ccur) &&
+                json_match_char(&ccur, ',') && (children = parse_inlines_array(&ccur)) &&
+                json_match_char(&ccur, ',') && json_match_char(&ccur, '[') &&
+                (url = json_parse_string(&ccur)) && json_match_char(&ccur, ',')) {
+                title = json_parse_string(&ccur);
+            }
+            if (title) {
+                cmark_node_set_url(link, url);
+                cmark_node_set_title(link, title);
+                move_children(link, children);
+                node = link;
+            } else {
+                if (children) cmark_node_free(children);
+                if (link) cmark_node_free(link);
+                ok = 0;
+            }
+            free(url);
+            free(title);
+            if (!ok) { free(tag); free(c_buf); break; }
         } else if (strcmp(tag, "Math") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_match_char(&ccur, '{')) { free(tag); free(c_buf); ok = 0; break; }
@@ -792,27 +813,15 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
     }
 
     /* Expect closing ']' */
-    if (!json_match_char(cur, ']')) {
+    if (!ok || !json_match_char(cur, ']')) {
         cmark_node_free(dummy);
         return NULL;
     }
-
-    cmark_node *first = cmark_node_first_child(dummy);
-    if (first) {
-        /* Detach children without freeing */
-        cmark_node *child = first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_unlink(child);
-            child = next;
-        }
-    }
-    cmark_node_free(dummy);
-    return first;
+    return dummy;
 }
 
 /* Parse a single Block object {"t": "...", "c": ...} (any key order, e.g. dkjson "c" before "t") */
-static cmark_node *parse_block_object(json_cursor *cur) {
+static cmark_node *parse_block_object(json_cursor *cur, int *plain) {
     if (!json_match_char(cur, '{')) return NULL;
 
     char *tag = NULL;
@@ -820,17 +829,12 @@ static cmark_node *parse_block_object(json_cursor *cur) {
     while (1) {
         json_skip_ws(cur);
         if (*cur->s == '}') {
-            /* Only leave the loop when we have both "t" and "c" (handles dkjson "c" before "t") */
-            if (tag && c_buf) {
-                cur->s++;
-                break;
-            }
-            free(tag);
-            free(c_buf);
-            return NULL;
+            cur->s++;
+            if (tag && !c_buf) c_buf = strdup("[]"); /* {"t":"HorizontalRule"} */
+            break;
         }
         char *key = json_parse_string(cur);
-        if (!key) return NULL;
+        if (!key) { free(tag); free(c_buf); return NULL; }
         if (!json_match_char(cur, ':')) { free(key); free(tag); free(c_buf); return NULL; }
         if (strcmp(key, "t") == 0) {
             tag = json_parse_string(cur);
@@ -862,17 +866,10 @@ static cmark_node *parse_block_object(json_cursor *cur) {
     json_cursor ccur = { c_buf };
     cmark_node *node = NULL;
 
-    if (strcmp(tag, "Para") == 0) {
-        cmark_node *para = cmark_node_new(CMARK_NODE_PARAGRAPH);
-        if (!para) { free(tag); free(c_buf); return NULL; }
-        cmark_node *child_first = parse_inlines_array(&ccur);
-        cmark_node *child = child_first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_append_child(para, child);
-            child = next;
-        }
-        node = para;
+    if (strcmp(tag, "Para") == 0 || strcmp(tag, "Plain") == 0) {
+        node = parse_inlines_array(&ccur); /* a paragraph node */
+        if (!node) { free(tag); free(c_buf); return NULL; }
+        if (plain) *plain = tag[1] == 'l';
     } else if (strcmp(tag, "Header") == 0) {
         if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         long level = json_parse_int(&ccur);
@@ -883,13 +880,9 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         cmark_node *heading = cmark_node_new(CMARK_NODE_HEADING);
         if (!heading) { free(tag); free(c_buf); return NULL; }
         cmark_node_set_heading_level(heading, (int)level);
-        cmark_node *child_first = parse_inlines_array(&ccur);
-        cmark_node *child = child_first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_append_child(heading, child);
-            child = next;
-        }
+        cmark_node *children = parse_inlines_array(&ccur);
+        if (!children) { cmark_node_free(heading); free(tag); free(c_buf); return NULL; }
+        move_children(heading, children);
         json_skip_ws(&ccur);
         if (*ccur.s == ']')
             ccur.s++;
@@ -931,6 +924,15 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         if (!txt) { free(tag); free(c_buf); free(lang); return NULL; }
         node = cmark_node_new(CMARK_NODE_CODE_BLOCK);
         if (!node) { free(tag); free(c_buf); free(lang); free(txt); return NULL; }
+        size_t txt_len = strlen(txt);
+        if (txt_len > 0) {
+            /* Every line of a code block ends in a newline; JSON leaves out the last one */
+            char *lines = (char *)realloc(txt, txt_len + 2);
+            if (!lines) { cmark_node_free(node); free(tag); free(c_buf); free(lang); free(txt); return NULL; }
+            txt = lines;
+            txt[txt_len] = '\n';
+            txt[txt_len + 1] = '\0';
+        }
         cmark_node_set_literal(node, txt);
         if (lang && *lang) {
             cmark_node_set_fence_info(node, lang);
@@ -939,88 +941,71 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         free(lang);
     } else if (strcmp(tag, "BulletList") == 0 || strcmp(tag, "OrderedList") == 0) {
         int is_ordered = (strcmp(tag, "OrderedList") == 0);
+        long start = 1;
+        int paren = 0;
         if (is_ordered) {
+            /* c = [[start, style, delim], items] */
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
-            long start = json_parse_int(&ccur);
-            if (start <= 0) start = 1;
+            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
+            start = json_parse_int(&ccur);
+            if (start < 0) start = 1;
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
+            const char *delim = ccur.s;
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
+            const char *paren_at = strstr(delim, "Paren");
+            paren = paren_at && paren_at < ccur.s;
+            if (!json_match_char(&ccur, ']')) { free(tag); free(c_buf); return NULL; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
-        } else {
-            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         }
 
         cmark_node *list = cmark_node_new(CMARK_NODE_LIST);
         if (!list) { free(tag); free(c_buf); return NULL; }
         if (is_ordered) {
             cmark_node_set_list_type(list, CMARK_ORDERED_LIST);
+            cmark_node_set_list_start(list, (int)start);
+            cmark_node_set_list_delim(list, paren ? CMARK_PAREN_DELIM : CMARK_PERIOD_DELIM);
         } else {
             cmark_node_set_list_type(list, CMARK_BULLET_LIST);
         }
 
+        /* items: [blocks, blocks, ...] */
+        int tight = 0;
         if (!json_match_char(&ccur, '[')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
         json_skip_ws(&ccur);
         while (*ccur.s != ']') {
-            if (!json_match_char(&ccur, '[')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
             cmark_node *item = cmark_node_new(CMARK_NODE_ITEM);
             if (!item) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-            cmark_node *blocks = parse_blocks_array(&ccur);
-            if (blocks) {
-                cmark_node *blk = cmark_node_first_child(blocks);
-                while (blk) {
-                    cmark_node *next = cmark_node_next(blk);
-                    cmark_node_append_child(item, blk);
-                    blk = next;
-                }
-                cmark_node_free(blocks);
-            }
-            if (!json_match_char(&ccur, ']')) { cmark_node_free(item); cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-
             cmark_node_append_child(list, item);
+            cmark_node *blocks = parse_blocks_array(&ccur, &tight);
+            if (!blocks) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
+            move_children(item, blocks);
 
             json_skip_ws(&ccur);
             if (*ccur.s == ',') {
                 ccur.s++;
                 continue;
-            } else if (*ccur.s == ']') {
-                break;
             } else {
                 break;
             }
         }
         if (!json_match_char(&ccur, ']')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-        if (!json_match_char(&ccur, ']')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
+        cmark_node_set_list_tight(list, tight);
         node = list;
     } else if (strcmp(tag, "BlockQuote") == 0) {
-        if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         cmark_node *bq = cmark_node_new(CMARK_NODE_BLOCK_QUOTE);
         if (!bq) { free(tag); free(c_buf); return NULL; }
-        cmark_node *blocks = parse_blocks_array(&ccur);
-        if (blocks) {
-            cmark_node *blk = cmark_node_first_child(blocks);
-            while (blk) {
-                cmark_node *next = cmark_node_next(blk);
-                cmark_node_append_child(bq, blk);
-                blk = next;
-            }
-            cmark_node_free(blocks);
-        }
-        if (!json_match_char(&ccur, ']')) { cmark_node_free(bq); free(tag); free(c_buf); return NULL; }
+        cmark_node *blocks = parse_blocks_array(&ccur, NULL);
+        if (!blocks) { cmark_node_free(bq); free(tag); free(c_buf); return NULL; }
+        move_children(bq, blocks);
         node = bq;
     } else if (strcmp(tag, "Div") == 0) {
-        /* c = [Attr, blocks] – skip Attr, parse inner blocks and return chain so caller appends all */
+        /* c = [Attr, blocks] – skip Attr, parse inner blocks and return them for the caller to append */
         if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
         if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
-        node = parse_blocks_array(&ccur);
-        if (!json_match_char(&ccur, ']')) {
-            if (node) cmark_node_free(node);
-            free(tag);
-            free(c_buf);
-            return NULL;
-        }
+        node = parse_blocks_array(&ccur, plain);
     } else {
         node = cmark_node_new(CMARK_NODE_PARAGRAPH);
     }
@@ -1030,7 +1015,9 @@ static cmark_node *parse_block_object(json_cursor *cur) {
     return node;
 }
 
-static cmark_node *parse_blocks_array(json_cursor *cur) {
+/* Parse an array of Block objects; returns a document node holding them, or NULL on
+ * failure. *plain (if not NULL) is set when one of them is a Plain block. */
+static cmark_node *parse_blocks_array(json_cursor *cur, int *plain) {
     json_skip_ws(cur);
     if (!json_match_char(cur, '[')) return NULL;
     cmark_node *dummy = cmark_node_new(CMARK_NODE_DOCUMENT);
@@ -1039,27 +1026,28 @@ static cmark_node *parse_blocks_array(json_cursor *cur) {
     json_skip_ws(cur);
     if (*cur->s == ']') {
         cur->s++;
-        cmark_node_free(dummy);
-        return NULL;
+        return dummy;
     }
 
-    int ok = 1;
-    while (ok) {
+    while (1) {
         json_skip_ws(cur);
-        cmark_node *blk = parse_block_object(cur);
-        if (!blk) { ok = 0; break; }
-        while (blk) {
-            cmark_node *next = cmark_node_next(blk);
+        int is_plain = 0;
+        cmark_node *blk = parse_block_object(cur, &is_plain);
+        if (!blk) {
+            cmark_node_free(dummy);
+            return NULL;
+        }
+        if (is_plain && plain) *plain = 1;
+        if (cmark_node_get_type(blk) == CMARK_NODE_DOCUMENT) {
+            move_children(dummy, blk); /* the blocks of a Div */
+        } else {
             cmark_node_append_child(dummy, blk);
-            blk = next;
         }
 
         json_skip_ws(cur);
         if (*cur->s == ',') {
             cur->s++;
             continue;
-        } else if (*cur->s == ']') {
-            break;
         } else {
             break;
         }
@@ -1092,6 +1080,7 @@ cmark_node *apex_pandoc_json_to_cmark(const char *json,
     if (!doc) return NULL;
 
     /* Parse object fields; we only care about "blocks" */
+    int has_blocks = 0;
     while (1) {
         json_skip_ws(&cur);
         if (*cur.s == '}') {
@@ -1103,16 +1092,10 @@ cmark_node *apex_pandoc_json_to_cmark(const char *json,
         if (!json_match_char(&cur, ':')) { free(key); cmark_node_free(doc); return NULL; }
 
         if (strcmp(key, "blocks") == 0) {
-            cmark_node *blocks = parse_blocks_array(&cur);
-            if (blocks) {
-                cmark_node *blk = cmark_node_first_child(blocks);
-                while (blk) {
-                    cmark_node *next = cmark_node_next(blk);
-                    cmark_node_append_child(doc, blk);
-                    blk = next;
-                }
-                cmark_node_free(blocks);
-            }
+            cmark_node *blocks = parse_blocks_array(&cur, NULL);
+            if (!blocks) { free(key); cmark_node_free(doc); return NULL; }
+            move_children(doc, blocks);
+            has_blocks = 1;
         } else {
             /* Skip other fields (pandoc-api-version, meta, etc.) */
             if (!json_skip_value(&cur)) { free(key); cmark_node_free(doc); return NULL; }
@@ -1128,10 +1111,15 @@ cmark_node *apex_pandoc_json_to_cmark(const char *json,
             cur.s++;
             break;
         } else {
+            has_blocks = 0; /* cut off: not a document */
             break;
         }
     }
 
+    if (!has_blocks) {
+        cmark_node_free(doc);
+        return NULL;
+    }
     return doc;
 }
 
-- 
2.43.0


From f0c8e41d1aeb52fb9808c1e7758abb1c7c17f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:47 +0000
Subject: [PATCH 44/68] fix: \u escapes in the JSON a filter returns were
 stored as '?'

---
 src/ast_json.c | 55 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 7e5ad8a..324ce16 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -432,6 +432,17 @@ static int json_match_char(json_cursor *cur, char ch) {
     return 1;
 }
 
+/* Four hex digits, or -1 */
+static long json_parse_hex4(const char *s) {
+    long v = 0;
+    for (int i = 0; i < 4; i++) {
+        if (!isxdigit((unsigned char)s[i])) return -1;
+        int d = isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] | 0x20) - 'a' + 10;
+        v = v * 16 + d;
+    }
+    return v;
+}
+
 static char *json_parse_string(json_cursor *cur) {
     json_skip_ws(cur);
     if (*cur->s != '"') return NULL;
@@ -457,21 +468,47 @@ static char *json_parse_string(json_cursor *cur) {
             case 'n':  c = '\n'; break;
             case 'r':  c = '\r'; break;
             case 't':  c = '\t'; break;
-            case 'u':
-                /* For simplicity, skip \uXXXX and store as '?' */
-                cur->s++;
-                for (int i = 0; i < 4 && *cur->s; i++) {
-                    cur->s++;
+            case 'u': {
+                long cp = json_parse_hex4(cur->s + 1);
+                if (cp < 0) { free(out); return NULL; }
+                cur->s += 4;
+                if (cp >= 0xD800 && cp < 0xDC00 && cur->s[1] == '\\' && cur->s[2] == 'u') {
+                    long low = json_parse_hex4(cur->s + 3);
+                    if (low >= 0xDC00 && low < 0xE000) {
+                        cp = 0x10000 + ((cp - 0xD800) << 10) + (low - 0xDC00);
+                        cur->s += 6;
+                    }
+                }
+                if (cp == 0 || (cp >= 0xD800 && cp < 0xE000)) cp = 0xFFFD; /* not a character */
+                if (cp < 0x80) {
+                    c = (unsigned char)cp;
+                } else {
+                    /* UTF-8: all bytes but the last, which is stored below */
+                    if (len + 4 >= cap) {
+                        cap *= 2;
+                        char *nb = (char *)realloc(out, cap);
+                        if (!nb) { free(out); return NULL; }
+                        out = nb;
+                    }
+                    if (cp >= 0x10000) {
+                        out[len++] = (char)(0xF0 | (cp >> 18));
+                        out[len++] = (char)(0x80 | ((cp >> 12) & 0x3F));
+                        out[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
+                    } else if (cp >= 0x800) {
+                        out[len++] = (char)(0xE0 | (cp >> 12));
+                        out[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
+                    } else {
+                        out[len++] = (char)(0xC0 | (cp >> 6));
+                    }
+                    c = (unsigned char)(0x80 | (cp & 0x3F));
                 }
-                c = '?';
                 break;
+            }
             default:
                 /* Unknown escape; keep as-is */
                 break;
             }
-            /* Advance past the escaped character (for \u we already advanced in the case) */
-            if (c != '?')
-                cur->s++;
+            cur->s++; /* past the escaped character */
         } else {
             cur->s++;
         }
-- 
2.43.0


From 82f83e9c637af94a3ad33e36731e89d9a1250fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:34 +0000
Subject: [PATCH 45/68] fix: tables, strikethrough, task boxes and footnotes
 were lost when a filter ran

---
 src/ast_json.c | 120 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 108 insertions(+), 12 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 324ce16..b04e48f 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -1,10 +1,13 @@
 #include "ast_json.h"
+#include "cmark-gfm-core-extensions.h"
 
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
 #include <ctype.h>
 
+extern cmark_node_type CMARK_NODE_STRIKETHROUGH; /* strikethrough.h of cmark-gfm */
+
 /* ------------------------------------------------------------------------- */
 /* Simple JSON string builder                                                */
 /* ------------------------------------------------------------------------- */
@@ -107,6 +110,27 @@ static int write_pandoc_attr_empty(apex_json_buf *b) {
     return apex_json_buf_append(b, "[\"\",[],[]]");
 }
 
+/* Write ["html", <node as HTML>], for nodes that have no Pandoc form here */
+static int write_raw_html(apex_json_buf *b, cmark_node *node) {
+    char *html = cmark_render_html(node, CMARK_OPT_UNSAFE, NULL);
+    char *start = html;
+    if (html && cmark_node_get_type(node) == CMARK_NODE_FOOTNOTE_DEFINITION) {
+        /* Each is rendered as a whole section; neighbours share one */
+        cmark_node *prev = cmark_node_previous(node);
+        cmark_node *next = cmark_node_next(node);
+        char *item = strstr(html, "<li");
+        char *end = strstr(html, "</ol>\n</section>");
+        for (char *more = end; more; more = strstr(end + 1, "</ol>\n</section>")) end = more;
+        if (item && prev && cmark_node_get_type(prev) == CMARK_NODE_FOOTNOTE_DEFINITION) start = item;
+        if (end && next && cmark_node_get_type(next) == CMARK_NODE_FOOTNOTE_DEFINITION) *end = '\0';
+    }
+    int ok = html && apex_json_buf_append(b, "[\"html\",") &&
+             apex_json_buf_append_escaped_string(b, start) &&
+             apex_json_buf_append(b, "]");
+    free(html);
+    return ok;
+}
+
 static int write_inline(apex_json_buf *b, cmark_node *node) {
     if (!node) return 1;
     cmark_node_type t = cmark_node_get_type(node);
@@ -183,11 +207,15 @@ static int write_inline(apex_json_buf *b, cmark_node *node) {
         break;
     }
     default: {
-        /* Fallback: treat as plain string of its literal (if any) */
-        const char *lit = cmark_node_get_literal(node);
-        if (!lit) lit = "";
-        if (!apex_json_buf_append(b, "{\"t\":\"Str\",\"c\":")) return 0;
-        if (!apex_json_buf_append_escaped_string(b, lit)) return 0;
+        if (strcmp(cmark_node_get_type_string(node), "strikethrough") == 0) {
+            if (!apex_json_buf_append(b, "{\"t\":\"Strikeout\",\"c\":")) return 0;
+            if (!write_inlines(b, cmark_node_first_child(node))) return 0;
+            if (!apex_json_buf_append(b, "}")) return 0;
+            break;
+        }
+        /* Fallback: pass it through as the HTML it becomes */
+        if (!apex_json_buf_append(b, "{\"t\":\"RawInline\",\"c\":")) return 0;
+        if (!write_raw_html(b, node)) return 0;
         if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
@@ -212,6 +240,20 @@ static int write_inlines(apex_json_buf *b, cmark_node *first_inline) {
     return 1;
 }
 
+#define TASK_OPEN "\xE2\x98\x90" /* ballot box */
+#define TASK_DONE "\xE2\x98\x92" /* ballot box with x */
+
+static int is_task_item(cmark_node *item) {
+    return strcmp(cmark_node_get_type_string(item), "tasklist") == 0;
+}
+
+/* The box of a task list item, as Pandoc writes it */
+static int write_task_box(apex_json_buf *b, cmark_node *item) {
+    return apex_json_buf_append(b, cmark_gfm_extensions_get_tasklist_item_checked(item)
+                                ? "{\"t\":\"Str\",\"c\":\"" TASK_DONE "\"},{\"t\":\"Space\"}"
+                                : "{\"t\":\"Str\",\"c\":\"" TASK_OPEN "\"},{\"t\":\"Space\"}");
+}
+
 static int write_block(apex_json_buf *b, cmark_node *node) {
     if (!node) return 1;
     cmark_node_type t = cmark_node_get_type(node);
@@ -223,7 +265,15 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
         cmark_node *list = item ? cmark_node_parent(item) : NULL;
         int plain = list && cmark_node_get_type(list) == CMARK_NODE_LIST && cmark_node_get_list_tight(list);
         if (!apex_json_buf_append(b, plain ? "{\"t\":\"Plain\",\"c\":" : "{\"t\":\"Para\",\"c\":")) return 0;
-        if (!write_inlines(b, cmark_node_first_child(node))) return 0;
+        if (item && is_task_item(item) && cmark_node_first_child(item) == node) {
+            if (!apex_json_buf_append(b, "[")) return 0;
+            if (!write_task_box(b, item)) return 0;
+            for (cmark_node *in = cmark_node_first_child(node); in; in = cmark_node_next(in)) {
+                if (!apex_json_buf_append(b, ",")) return 0;
+                if (!write_inline(b, in)) return 0;
+            }
+            if (!apex_json_buf_append(b, "]")) return 0;
+        } else if (!write_inlines(b, cmark_node_first_child(node))) return 0;
         if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
@@ -318,6 +368,12 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             if (!apex_json_buf_append(b, "[")) return 0;
             cmark_node *child = cmark_node_first_child(item);
             int first_block = 1;
+            if (is_task_item(item) && (!child || cmark_node_get_type(child) != CMARK_NODE_PARAGRAPH)) {
+                if (!apex_json_buf_append(b, "{\"t\":\"Plain\",\"c\":[")) return 0;
+                if (!write_task_box(b, item)) return 0;
+                if (!apex_json_buf_append(b, "]}")) return 0;
+                first_block = 0;
+            }
             while (child) {
                 if (!first_block) {
                     if (!apex_json_buf_append(b, ",")) return 0;
@@ -350,12 +406,10 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
         break;
     }
     default: {
-        /* Fallback: render paragraph of plain text from this node's literal (if any) */
-        const char *lit = cmark_node_get_literal(node);
-        if (!apex_json_buf_append(b, "{\"t\":\"Para\",\"c\":[")) return 0;
-        if (!apex_json_buf_append(b, "{\"t\":\"Str\",\"c\":")) return 0;
-        if (!apex_json_buf_append_escaped_string(b, lit ? lit : "")) return 0;
-        if (!apex_json_buf_append(b, "}]}")) return 0;
+        /* Fallback (tables and the like): pass it through as the HTML it becomes */
+        if (!apex_json_buf_append(b, "{\"t\":\"RawBlock\",\"c\":")) return 0;
+        if (!write_raw_html(b, node)) return 0;
+        if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
     }
@@ -733,6 +787,12 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!node) { free(tag); free(c_buf); free(txt); ok = 0; break; }
             cmark_node_set_literal(node, txt);
             free(txt);
+        } else if (strcmp(tag, "Strikeout") == 0) {
+            cmark_node *children = parse_inlines_array(&ccur);
+            if (!children) { free(tag); free(c_buf); ok = 0; break; }
+            cmark_syntax_extension *ext = cmark_find_syntax_extension("strikethrough");
+            if (ext) node = cmark_node_new_with_ext(CMARK_NODE_STRIKETHROUGH, ext);
+            move_children(node ? node : dummy, children);
         } else if (strcmp(tag, "Span") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
@@ -857,6 +917,40 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
     return dummy;
 }
 
+/* Turn an item that starts with a box and a space into a task list item */
+static void read_task_box(cmark_node *item) {
+    cmark_node *para = cmark_node_first_child(item);
+    cmark_node *box = para && cmark_node_get_type(para) == CMARK_NODE_PARAGRAPH ? cmark_node_first_child(para) : NULL;
+    if (!box || cmark_node_get_type(box) != CMARK_NODE_TEXT) return;
+    const char *text = cmark_node_get_literal(box);
+    int done = text && strncmp(text, TASK_DONE, 3) == 0;
+    if (!text || (!done && strncmp(text, TASK_OPEN, 3) != 0)) return;
+    cmark_syntax_extension *ext = cmark_find_syntax_extension("tasklist");
+    if (!ext) return;
+
+    cmark_node *space = cmark_node_next(box);
+    if (text[3] == ' ') {
+        char *rest = strdup(text + 4);
+        if (!rest) return;
+        cmark_node_set_literal(box, rest);
+        free(rest);
+    } else if (text[3] == '\0' && space && cmark_node_get_type(space) == CMARK_NODE_TEXT &&
+               cmark_node_get_literal(space) && strcmp(cmark_node_get_literal(space), " ") == 0) {
+        cmark_node_unlink(box);
+        cmark_node_free(box);
+        cmark_node_unlink(space);
+        cmark_node_free(space);
+    } else {
+        return;
+    }
+    cmark_node_set_syntax_extension(item, ext);
+    cmark_gfm_extensions_set_tasklist_item_checked(item, done != 0);
+    if (!cmark_node_first_child(para)) {
+        cmark_node_unlink(para);
+        cmark_node_free(para);
+    }
+}
+
 /* Parse a single Block object {"t": "...", "c": ...} (any key order, e.g. dkjson "c" before "t") */
 static cmark_node *parse_block_object(json_cursor *cur, int *plain) {
     if (!json_match_char(cur, '{')) return NULL;
@@ -1018,6 +1112,7 @@ static cmark_node *parse_block_object(json_cursor *cur, int *plain) {
             cmark_node *blocks = parse_blocks_array(&ccur, &tight);
             if (!blocks) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
             move_children(item, blocks);
+            read_task_box(item);
 
             json_skip_ws(&ccur);
             if (*ccur.s == ',') {
@@ -1157,6 +1252,7 @@ cmark_node *apex_pandoc_json_to_cmark(const char *json,
         cmark_node_free(doc);
         return NULL;
     }
+    cmark_consolidate_text_nodes(doc); /* Str, Space, Str make one text */
     return doc;
 }
 
-- 
2.43.0


From 3ead211bdef2231cf826f8d0d7bb1a2e91b2d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:07 +0000
Subject: [PATCH 46/68] fix: headings with more than 512 bytes of text overran
 the buffer for their ID

---
 src/extensions/header_ids.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 91683c2..e6d96a5 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -415,7 +415,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t new_capacity = capacity * 2 + len;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
@@ -423,6 +423,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
                     }
                     write = new_text + (write - text);
                     text = new_text;
+                    capacity = new_capacity;
                     remaining = new_capacity - (write - text);
                 }
                 memcpy(write, literal, len);
@@ -434,7 +435,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t new_capacity = capacity * 2 + len;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
@@ -442,6 +443,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
                     }
                     write = new_text + (write - text);
                     text = new_text;
+                    capacity = new_capacity;
                     remaining = new_capacity - (write - text);
                 }
                 memcpy(write, literal, len);
-- 
2.43.0


From ad89a01f0841e5681e89cf03266cdf1a3c89a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:20 +0000
Subject: [PATCH 47/68] fix: the request to a plugin was malformed when its id
 needs escaping in JSON

---
 src/plugins_env.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/plugins_env.c b/src/plugins_env.c
index 40a1337..1627061 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -205,23 +205,30 @@ char *apex_run_external_plugin_command(const char *cmd,
 
     /* Build JSON request */
     char *escaped = apex_json_escape(text);
-    if (!escaped) return NULL;
+    char *escaped_id = apex_json_escape(plugin_id);
+    if (!escaped || !escaped_id) {
+        free(escaped);
+        free(escaped_id);
+        return NULL;
+    }
 
     const char *prefix = "{ \"version\": 1, \"plugin_id\": \"";
     const char *mid1   = "\", \"phase\": \"";
     const char *mid2   = "\", \"text\": \"";
     const char *suffix = "\" }\n";
-    size_t json_len = strlen(prefix) + strlen(plugin_id) +
+    size_t json_len = strlen(prefix) + strlen(escaped_id) +
                       strlen(mid1) + strlen(phase) +
                       strlen(mid2) + strlen(escaped) + strlen(suffix);
     char *json = malloc(json_len + 1);
     if (!json) {
         free(escaped);
+        free(escaped_id);
         return NULL;
     }
     snprintf(json, json_len + 1, "%s%s%s%s%s%s%s",
-             prefix, plugin_id, mid1, phase, mid2, escaped, suffix);
+             prefix, escaped_id, mid1, phase, mid2, escaped, suffix);
     free(escaped);
+    free(escaped_id);
 
     int in_pipe[2] = {-1, -1};
     int out_pipe[2];
-- 
2.43.0


From 9026272d0239d47be5b15f8f0df78d04d84a3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:51 +0000
Subject: [PATCH 48/68] fix: plugins of a flat bundle manifest were given the
 manifest's path as APEX_PLUGIN_DIR

---
 src/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins.c b/src/plugins.c
index 65e0445..5d1de9f 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -374,7 +374,7 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
                 p->priority = priority_str ? atoi(priority_str) : 100;
                 p->timeout_ms = timeout_str ? atoi(timeout_str) : 0;
                 p->has_regex = 0;
-                p->dir_path = strdup(plugin_dir);
+                p->dir_path = strdup(S_ISDIR(st.st_mode) ? plugin_dir : dirpath);
 
                 /* Compute per-plugin support directory */
                 char *support_base = apex_get_support_base_dir();
-- 
2.43.0


From eb1ace522ab8e65dce1015c18c722031daa39d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:36 +0000
Subject: [PATCH 49/68] fix: highlighting took everything up to the next code
 block as code when a <pre><code> did not end with </code></pre>

---
 src/extensions/syntax_highlight.c | 34 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/extensions/syntax_highlight.c b/src/extensions/syntax_highlight.c
index 6b0413d..12d4499 100644
--- a/src/extensions/syntax_highlight.c
+++ b/src/extensions/syntax_highlight.c
@@ -378,26 +378,11 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
                 }
             }
 
-            /* If language_only is set and no language was found, skip this block */
-            if (language_only && !language[0]) {
-                /* Copy the original block as-is */
-                const char *block_end = strstr(code_tag_end + 1, "</code></pre>");
-                if (block_end) {
-                    size_t block_len = (block_end + 13) - pre_start;
-                    if (block_len <= remaining) {
-                        memcpy(write, pre_start, block_len);
-                        write += block_len;
-                        remaining -= block_len;
-                    }
-                    read = block_end + 13;
-                    continue;
-                }
-            }
-
-            /* Find </code></pre> */
+            /* Find </code></pre>; the code must not run on past this <pre> */
             const char *code_content_start = code_tag_end + 1;
             const char *code_end = strstr(code_content_start, "</code></pre>");
-            if (!code_end) {
+            const char *pre_close = strstr(code_content_start, "</pre>");
+            if (!code_end || pre_close < code_end) {
                 /* Malformed, copy as-is */
                 if (remaining > 0) {
                     *write++ = *read++;
@@ -408,6 +393,19 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
                 continue;
             }
 
+            /* If language_only is set and no language was found, skip this block */
+            if (language_only && !language[0]) {
+                /* Copy the original block as-is */
+                size_t block_len = (code_end + 13) - pre_start;
+                if (block_len <= remaining) {
+                    memcpy(write, pre_start, block_len);
+                    write += block_len;
+                    remaining -= block_len;
+                }
+                read = code_end + 13;
+                continue;
+            }
+
             /* Extract and unescape code content */
             size_t code_len = code_end - code_content_start;
             char *code = unescape_html(code_content_start, code_len);
-- 
2.43.0


From 3fd396828ad87408211e668fdc568fefd9a21086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:33 +0000
Subject: [PATCH 50/68] fix: the last line of an included file was lost from
 ranges that reach the end, and [N] gave nothing

---
 src/extensions/includes.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 5446d39..7325ff4 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -583,8 +583,8 @@ static address_spec_t *parse_address_spec(const char *address_str) {
                     pos = endptr;
                 }
             } else {
-                /* Just N - single line */
-                spec->end_line = spec->start_line;
+                /* Just N - single line (the end is exclusive) */
+                spec->end_line = spec->start_line + 1;
             }
         }
     }
@@ -700,7 +700,7 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
 
         /* Find line numbers matching regex patterns */
         int start_line = 1;
-        int end_line = total_lines;
+        int end_line = total_lines + 1;  /* exclusive */
         regmatch_t match;
         int line_num = 1;
         const char *line_start = content;
@@ -797,10 +797,8 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
         }
 
         int end = spec->end_line;
-        if (end == -1) {
-            end = total_lines;
-        } else if (end > total_lines) {
-            end = total_lines;
+        if (end == -1 || end > total_lines + 1) {
+            end = total_lines + 1;  /* exclusive */
         }
         if (end < spec->start_line) {
             return strdup("");
-- 
2.43.0


From 3671f16c1df59271dbb266f0ae47805120d72cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:33 +0000
Subject: [PATCH 51/68] fix: text in brackets on a line after <<[file] was
 dropped as an address

---
 src/extensions/includes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 7325ff4..3b46c64 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -1391,8 +1391,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                     /* Check for address specification [address] */
                     const char *address_start = filepath_end + 1;
-                    /* Skip whitespace */
-                    while (*address_start && isspace(*address_start)) address_start++;
+                    /* Skip blanks; a bracket on another line belongs to the text */
+                    while (*address_start == ' ' || *address_start == '\t') address_start++;
                     const char *address_end = NULL;
                     address_spec_t *address_spec = NULL;
 
-- 
2.43.0


From 20c2d2b6ea320831b38248a5279d9345a0c236d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:33 +0000
Subject: [PATCH 52/68] fix: an include from one pattern to the next gave
 nothing when the first line matches both

---
 src/extensions/includes.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 3b46c64..5425008 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -726,12 +726,11 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
                     start_line = line_num;
                     found_start = true;
                 }
-            }
-
-            /* Check end pattern (only if start found or no start pattern) */
-            if (compiled_end && (found_start || !compiled_start)) {
+            } else if (compiled_end) {
+                /* Check end pattern (only after the start line or without a start pattern) */
                 if (regexec(&regex_end, line, 1, &match, 0) == 0) {
                     end_line = line_num;
+                    free(line);
                     break;
                 }
             }
-- 
2.43.0


From 4940c90287601864e2064c47a79586f056f48ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:31 +0000
Subject: [PATCH 53/68] fix: {{file.*}} took the alphabetically first file
 instead of the preferred extensions

---
 src/extensions/includes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 5425008..362c669 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -871,7 +871,8 @@ char *apex_resolve_wildcard(const char *filepath, const char *base_dir) {
      */
     const char *wildcard = strstr(filepath, ".*");
     bool has_other_glob = (strpbrk(filepath, "*?[{") != NULL &&
-                           !(wildcard && wildcard[1] == '\0'));
+                           !(wildcard && wildcard[2] == '\0' &&
+                             strpbrk(filepath, "*?[{") == wildcard + 1));
 
     if (wildcard && !has_other_glob) {
         /* Extract base filename (before .*) */
-- 
2.43.0


From 7e5c0f6290e7ffcc5ab0f873298ba03511519c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:59 +0000
Subject: [PATCH 54/68] fix: a line starting with the name of a directory lost
 it on file systems where directories read as empty

---
 src/extensions/includes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 362c669..deade79 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -21,6 +21,10 @@
  * Read file contents
  */
 static char *read_file_contents(const char *filepath) {
+    /* A directory can be opened, and looks like an empty file on some file systems */
+    struct stat st;
+    if (stat(filepath, &st) != 0 || S_ISDIR(st.st_mode)) return NULL;
+
     FILE *fp = fopen(filepath, "rb");
     if (!fp) return NULL;
 
-- 
2.43.0


From ce5b5f4c83f5f2219f5f1c6ba207b8aa77998a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:13 +0000
Subject: [PATCH 55/68] fix: metadata values with # or starting with &, !, { or
 ' were cut or dropped when they came from --meta or MultiMarkdown metadata

---
 cli/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/main.c b/cli/main.c
index ae1ce58..d156612 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -3261,7 +3261,9 @@ int main(int argc, char *argv[]) {
             while (item) {
                 /* Escape value if it contains special characters */
                 bool needs_quotes = strchr(item->value, ':') || strchr(item->value, '\n') ||
-                                    strchr(item->value, '"') || strchr(item->value, '\\');
+                                    strchr(item->value, '"') || strchr(item->value, '\\') ||
+                                    strchr(item->value, '#') ||
+                                    (item->value[0] && strchr("&!{'", item->value[0]));
 
                 size_t needed = strlen(item->key) + strlen(item->value) + (needs_quotes ? 4 : 0) + 10;
                 if (yaml_pos + needed >= yaml_size) {
-- 
2.43.0


From 143496ef6723ae09a2af6fa126c32bc02097550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:38 +0000
Subject: [PATCH 56/68] fix: in gfm and commonmark mode the merged metadata
 appeared as text in the document

---
 cli/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index d156612..111564d 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -3367,6 +3367,13 @@ int main(int argc, char *argv[]) {
         }
     }
 
+    /* Modes without metadata would show the front matter as text */
+    if (enhanced_markdown && (options.mode == APEX_MODE_COMMONMARK || options.mode == APEX_MODE_GFM)) {
+        enhanced_len = input_len - doc_metadata_end;
+        memmove(enhanced_markdown, markdown + doc_metadata_end, enhanced_len);
+        enhanced_markdown[enhanced_len] = '\0';
+    }
+
     /* Re-apply explicit CLI override for plugins so it wins over metadata. */
     if (plugins_cli_override) {
         options.enable_plugins = plugins_cli_value;
-- 
2.43.0


From 685a7f2f675a13524ca52cef489f4a28d2975718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:51 +0000
Subject: [PATCH 57/68] fix: configuration and document metadata overrode
 command-line flags, and a mode in metadata dropped the output format and base
 directory

---
 cli/main.c | 262 +++++++++++++++++++++++++++++------------------------
 1 file changed, 146 insertions(+), 116 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 111564d..b32995f 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1510,6 +1510,15 @@ int main(int argc, char *argv[]) {
     /* Optional fixed-width wrapping for terminal output */
     int width_override = 0;
 
+    /* Options set by flags, so that they can be put back over what metadata sets */
+    apex_options cli_options = options;
+    apex_options cli_set;
+    memset(&cli_set, 0, sizeof(cli_set));
+    bool cli_mode = false;
+#define CLI_SET(field, value) \
+    (options.field = (value), cli_options.field = options.field, \
+     memset(&cli_set.field, 1, sizeof(cli_set.field)))
+
     /* Parse command-line arguments */
     for (int i = 1; i < argc; i++) {
         if (strcmp(argv[i], "-h") == 0 || strcmp(argv[i], "--help") == 0) {
@@ -1525,14 +1534,19 @@ int main(int argc, char *argv[]) {
             }
             if (strcmp(argv[i], "commonmark") == 0) {
                 options = apex_options_for_mode(APEX_MODE_COMMONMARK);
+                cli_mode = true;
             } else if (strcmp(argv[i], "gfm") == 0) {
                 options = apex_options_for_mode(APEX_MODE_GFM);
+                cli_mode = true;
             } else if (strcmp(argv[i], "mmd") == 0 || strcmp(argv[i], "multimarkdown") == 0) {
                 options = apex_options_for_mode(APEX_MODE_MULTIMARKDOWN);
+                cli_mode = true;
             } else if (strcmp(argv[i], "kramdown") == 0) {
                 options = apex_options_for_mode(APEX_MODE_KRAMDOWN);
+                cli_mode = true;
             } else if (strcmp(argv[i], "unified") == 0) {
                 options = apex_options_for_mode(APEX_MODE_UNIFIED);
+                cli_mode = true;
             } else {
                 fprintf(stderr, "Error: Unknown mode '%s'\n", argv[i]);
                 return 1;
@@ -1543,29 +1557,29 @@ int main(int argc, char *argv[]) {
                 return 1;
             }
             if (strcmp(argv[i], "html") == 0) {
-                options.output_format = APEX_OUTPUT_HTML;
+                CLI_SET(output_format, APEX_OUTPUT_HTML);
             } else if (strcmp(argv[i], "json") == 0) {
-                options.output_format = APEX_OUTPUT_JSON;
+                CLI_SET(output_format, APEX_OUTPUT_JSON);
             } else if (strcmp(argv[i], "json-filtered") == 0 || strcmp(argv[i], "ast-json") == 0 || strcmp(argv[i], "ast") == 0) {
-                options.output_format = APEX_OUTPUT_JSON_FILTERED;
+                CLI_SET(output_format, APEX_OUTPUT_JSON_FILTERED);
             } else if (strcmp(argv[i], "markdown") == 0 || strcmp(argv[i], "md") == 0) {
-                options.output_format = APEX_OUTPUT_MARKDOWN;
+                CLI_SET(output_format, APEX_OUTPUT_MARKDOWN);
             } else if (strcmp(argv[i], "mmd") == 0) {
-                options.output_format = APEX_OUTPUT_MMD;
+                CLI_SET(output_format, APEX_OUTPUT_MMD);
             } else if (strcmp(argv[i], "commonmark") == 0 || strcmp(argv[i], "cmark") == 0) {
-                options.output_format = APEX_OUTPUT_COMMONMARK;
+                CLI_SET(output_format, APEX_OUTPUT_COMMONMARK);
             } else if (strcmp(argv[i], "kramdown") == 0) {
-                options.output_format = APEX_OUTPUT_KRAMDOWN;
+                CLI_SET(output_format, APEX_OUTPUT_KRAMDOWN);
             } else if (strcmp(argv[i], "gfm") == 0) {
-                options.output_format = APEX_OUTPUT_GFM;
+                CLI_SET(output_format, APEX_OUTPUT_GFM);
             } else if (strcmp(argv[i], "terminal") == 0 || strcmp(argv[i], "cli") == 0) {
-                options.output_format = APEX_OUTPUT_TERMINAL;
+                CLI_SET(output_format, APEX_OUTPUT_TERMINAL);
             } else if (strcmp(argv[i], "terminal256") == 0) {
-                options.output_format = APEX_OUTPUT_TERMINAL256;
+                CLI_SET(output_format, APEX_OUTPUT_TERMINAL256);
             } else if (strcmp(argv[i], "man") == 0) {
-                options.output_format = APEX_OUTPUT_MAN;
+                CLI_SET(output_format, APEX_OUTPUT_MAN);
             } else if (strcmp(argv[i], "man-html") == 0) {
-                options.output_format = APEX_OUTPUT_MAN_HTML;
+                CLI_SET(output_format, APEX_OUTPUT_MAN_HTML);
             } else {
                 fprintf(stderr, "Error: Unknown output format '%s'\n", argv[i]);
                 fprintf(stderr, "Supported formats: html, json, json-filtered/ast-json/ast, markdown/md, mmd, commonmark/cmark, kramdown, gfm, terminal/cli, terminal256, man, man-html\n");
@@ -1576,7 +1590,7 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --theme requires a name argument\n");
                 return 1;
             }
-            options.theme_name = argv[i];
+            CLI_SET(theme_name, argv[i]);
         } else if (strcmp(argv[i], "--width") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --width requires a column width argument\n");
@@ -1593,11 +1607,11 @@ int main(int argc, char *argv[]) {
             }
             output_file = argv[i];
         } else if (strcmp(argv[i], "--plugins") == 0) {
-            options.enable_plugins = true;
+            CLI_SET(enable_plugins, true);
             plugins_cli_override = true;
             plugins_cli_value = true;
         } else if (strcmp(argv[i], "--no-plugins") == 0) {
-            options.enable_plugins = false;
+            CLI_SET(enable_plugins, false);
             plugins_cli_override = true;
             plugins_cli_value = false;
         } else if (strcmp(argv[i], "--list-plugins") == 0) {
@@ -1678,27 +1692,27 @@ int main(int argc, char *argv[]) {
             }
             uninstall_plugin_id = argv[i];
         } else if (strcmp(argv[i], "--no-tables") == 0) {
-            options.enable_tables = false;
+            CLI_SET(enable_tables, false);
         } else if (strcmp(argv[i], "--no-footnotes") == 0) {
-            options.enable_footnotes = false;
+            CLI_SET(enable_footnotes, false);
         } else if (strcmp(argv[i], "--no-smart") == 0) {
-            options.enable_smart_typography = false;
+            CLI_SET(enable_smart_typography, false);
         } else if (strcmp(argv[i], "--no-math") == 0) {
-            options.enable_math = false;
+            CLI_SET(enable_math, false);
         } else if (strcmp(argv[i], "--includes") == 0) {
-            options.enable_file_includes = true;
+            CLI_SET(enable_file_includes, true);
         } else if (strcmp(argv[i], "--no-includes") == 0) {
-            options.enable_file_includes = false;
+            CLI_SET(enable_file_includes, false);
         } else if (strcmp(argv[i], "--hardbreaks") == 0) {
-            options.hardbreaks = true;
+            CLI_SET(hardbreaks, true);
         } else if (strcmp(argv[i], "-s") == 0 || strcmp(argv[i], "--standalone") == 0) {
-            options.standalone = true;
+            CLI_SET(standalone, true);
         } else if (strcmp(argv[i], "--css") == 0 || strcmp(argv[i], "--style") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: %s requires an argument\n", argv[i-1]);
                 return 1;
             }
-            options.standalone = true;  /* Imply standalone if CSS is specified */
+            CLI_SET(standalone, true);  /* Imply standalone if CSS is specified */
 
             /* Parse comma-separated stylesheet paths */
             const char *arg = argv[i];
@@ -1762,7 +1776,7 @@ int main(int argc, char *argv[]) {
                 }
             }
         } else if (strcmp(argv[i], "--embed-css") == 0) {
-            options.embed_stylesheet = true;
+            CLI_SET(embed_stylesheet, true);
         } else if (strcmp(argv[i], "--script") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --script requires an argument\n");
@@ -1873,51 +1887,51 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --title requires an argument\n");
                 return 1;
             }
-            options.document_title = argv[i];
+            CLI_SET(document_title, argv[i]);
         } else if (strcmp(argv[i], "--pretty") == 0) {
-            options.pretty = true;
+            CLI_SET(pretty, true);
         } else if (strcmp(argv[i], "--accept") == 0) {
-            options.enable_critic_markup = true;
-            options.critic_mode = 0;  /* CRITIC_ACCEPT */
+            CLI_SET(enable_critic_markup, true);
+            CLI_SET(critic_mode, 0);  /* CRITIC_ACCEPT */
         } else if (strcmp(argv[i], "--reject") == 0) {
-            options.enable_critic_markup = true;
-            options.critic_mode = 1;  /* CRITIC_REJECT */
+            CLI_SET(enable_critic_markup, true);
+            CLI_SET(critic_mode, 1);  /* CRITIC_REJECT */
         } else if (strcmp(argv[i], "--id-format") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --id-format requires an argument (gfm, mmd, or kramdown)\n");
                 return 1;
             }
             if (strcmp(argv[i], "gfm") == 0) {
-                options.id_format = 0;  /* GFM format */
+                CLI_SET(id_format, 0);  /* GFM format */
             } else if (strcmp(argv[i], "mmd") == 0) {
-                options.id_format = 1;  /* MMD format */
+                CLI_SET(id_format, 1);  /* MMD format */
             } else if (strcmp(argv[i], "kramdown") == 0) {
-                options.id_format = 2;  /* Kramdown format */
+                CLI_SET(id_format, 2);  /* Kramdown format */
             } else {
                 fprintf(stderr, "Error: --id-format must be 'gfm', 'mmd', or 'kramdown'\n");
                 return 1;
             }
         } else if (strcmp(argv[i], "--no-ids") == 0) {
-            options.generate_header_ids = false;
+            CLI_SET(generate_header_ids, false);
         } else if (strcmp(argv[i], "--header-anchors") == 0) {
-            options.header_anchors = true;
+            CLI_SET(header_anchors, true);
         } else if (strcmp(argv[i], "--relaxed-tables") == 0) {
-            options.relaxed_tables = true;
+            CLI_SET(relaxed_tables, true);
         } else if (strcmp(argv[i], "--no-relaxed-tables") == 0) {
-            options.relaxed_tables = false;
+            CLI_SET(relaxed_tables, false);
         } else if (strcmp(argv[i], "--per-cell-alignment") == 0) {
-            options.per_cell_alignment = true;
+            CLI_SET(per_cell_alignment, true);
         } else if (strcmp(argv[i], "--no-per-cell-alignment") == 0) {
-            options.per_cell_alignment = false;
+            CLI_SET(per_cell_alignment, false);
         } else if (strcmp(argv[i], "--captions") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --captions requires an argument (above or below)\n");
                 return 1;
             }
             if (strcmp(argv[i], "above") == 0) {
-                options.caption_position = 0;
+                CLI_SET(caption_position, 0);
             } else if (strcmp(argv[i], "below") == 0) {
-                options.caption_position = 1;
+                CLI_SET(caption_position, 1);
             } else {
                 fprintf(stderr, "Error: --captions must be 'above' or 'below'\n");
                 return 1;
@@ -1929,107 +1943,107 @@ int main(int argc, char *argv[]) {
             }
             /* Accept full names and abbreviations */
             if (strcmp(argv[i], "pygments") == 0 || strcmp(argv[i], "p") == 0 || strcmp(argv[i], "pyg") == 0) {
-                options.code_highlighter = "pygments";
+                CLI_SET(code_highlighter, "pygments");
             } else if (strcmp(argv[i], "skylighting") == 0 || strcmp(argv[i], "s") == 0 || strcmp(argv[i], "sky") == 0) {
-                options.code_highlighter = "skylighting";
+                CLI_SET(code_highlighter, "skylighting");
             } else if (strcmp(argv[i], "shiki") == 0 || strcmp(argv[i], "sh") == 0) {
-                options.code_highlighter = "shiki";
+                CLI_SET(code_highlighter, "shiki");
             } else {
                 fprintf(stderr, "Error: --code-highlight tool must be 'pygments' (p), 'skylighting' (s), or 'shiki' (sh)\n");
                 return 1;
             }
         } else if (strcmp(argv[i], "--code-line-numbers") == 0) {
-            options.code_line_numbers = true;
+            CLI_SET(code_line_numbers, true);
         } else if (strcmp(argv[i], "--highlight-language-only") == 0) {
-            options.highlight_language_only = true;
+            CLI_SET(highlight_language_only, true);
         } else if (strcmp(argv[i], "--alpha-lists") == 0) {
-            options.allow_alpha_lists = true;
+            CLI_SET(allow_alpha_lists, true);
         } else if (strcmp(argv[i], "--no-alpha-lists") == 0) {
-            options.allow_alpha_lists = false;
+            CLI_SET(allow_alpha_lists, false);
         } else if (strcmp(argv[i], "--mixed-lists") == 0) {
-            options.allow_mixed_list_markers = true;
+            CLI_SET(allow_mixed_list_markers, true);
         } else if (strcmp(argv[i], "--no-mixed-lists") == 0) {
-            options.allow_mixed_list_markers = false;
+            CLI_SET(allow_mixed_list_markers, false);
         } else if (strcmp(argv[i], "--unsafe") == 0) {
-            options.unsafe = true;
+            CLI_SET(unsafe, true);
         } else if (strcmp(argv[i], "--no-unsafe") == 0) {
-            options.unsafe = false;
+            CLI_SET(unsafe, false);
         } else if (strcmp(argv[i], "--sup-sub") == 0) {
-            options.enable_sup_sub = true;
+            CLI_SET(enable_sup_sub, true);
         } else if (strcmp(argv[i], "--no-sup-sub") == 0) {
-            options.enable_sup_sub = false;
+            CLI_SET(enable_sup_sub, false);
         } else if (strcmp(argv[i], "--divs") == 0) {
-            options.enable_divs = true;
+            CLI_SET(enable_divs, true);
         } else if (strcmp(argv[i], "--no-divs") == 0) {
-            options.enable_divs = false;
+            CLI_SET(enable_divs, false);
         } else if (strcmp(argv[i], "--spans") == 0) {
-            options.enable_spans = true;
+            CLI_SET(enable_spans, true);
         } else if (strcmp(argv[i], "--no-spans") == 0) {
-            options.enable_spans = false;
+            CLI_SET(enable_spans, false);
         } else if (strcmp(argv[i], "--autolink") == 0) {
-            options.enable_autolink = true;
+            CLI_SET(enable_autolink, true);
         } else if (strcmp(argv[i], "--no-autolink") == 0) {
-            options.enable_autolink = false;
+            CLI_SET(enable_autolink, false);
         } else if (strcmp(argv[i], "--strikethrough") == 0) {
-            options.enable_strikethrough = true;
+            CLI_SET(enable_strikethrough, true);
         } else if (strcmp(argv[i], "--no-strikethrough") == 0) {
-            options.enable_strikethrough = false;
+            CLI_SET(enable_strikethrough, false);
         } else if (strcmp(argv[i], "--obfuscate-emails") == 0) {
-            options.obfuscate_emails = true;
+            CLI_SET(obfuscate_emails, true);
         } else if (strcmp(argv[i], "--progress") == 0) {
             progress_enabled = true;
         } else if (strcmp(argv[i], "--no-progress") == 0) {
             progress_enabled = false;
         } else if (strcmp(argv[i], "--aria") == 0) {
-            options.enable_aria = true;
+            CLI_SET(enable_aria, true);
         } else if (strcmp(argv[i], "--no-plugins") == 0) {
-            options.enable_plugins = false;
+            CLI_SET(enable_plugins, false);
         } else if (strcmp(argv[i], "--wikilinks") == 0) {
-            options.enable_wiki_links = true;
+            CLI_SET(enable_wiki_links, true);
         } else if (strcmp(argv[i], "--no-wikilinks") == 0) {
-            options.enable_wiki_links = false;
+            CLI_SET(enable_wiki_links, false);
         } else if (strcmp(argv[i], "--emoji-autocorrect") == 0) {
-            options.enable_emoji_autocorrect = true;
+            CLI_SET(enable_emoji_autocorrect, true);
         } else if (strcmp(argv[i], "--no-emoji-autocorrect") == 0) {
-            options.enable_emoji_autocorrect = false;
+            CLI_SET(enable_emoji_autocorrect, false);
         } else if (strcmp(argv[i], "--widont") == 0) {
-            options.enable_widont = true;
+            CLI_SET(enable_widont, true);
         } else if (strcmp(argv[i], "--code-is-poetry") == 0) {
-            options.code_is_poetry = true;
-            options.highlight_language_only = true;
+            CLI_SET(code_is_poetry, true);
+            CLI_SET(highlight_language_only, true);
         } else if (strcmp(argv[i], "--markdown-in-html") == 0) {
-            options.enable_markdown_in_html = true;
+            CLI_SET(enable_markdown_in_html, true);
         } else if (strcmp(argv[i], "--no-markdown-in-html") == 0) {
-            options.enable_markdown_in_html = false;
+            CLI_SET(enable_markdown_in_html, false);
         } else if (strcmp(argv[i], "--random-footnote-ids") == 0) {
-            options.random_footnote_ids = true;
+            CLI_SET(random_footnote_ids, true);
         } else if (strcmp(argv[i], "--hashtags") == 0) {
-            options.enable_hashtags = true;
+            CLI_SET(enable_hashtags, true);
         } else if (strcmp(argv[i], "--style-hashtags") == 0) {
-            options.style_hashtags = true;
+            CLI_SET(style_hashtags, true);
         } else if (strcmp(argv[i], "--proofreader") == 0) {
-            options.proofreader_mode = true;
-            options.enable_critic_markup = true;
-            options.critic_mode = 2;  /* Ensure markup mode */
+            CLI_SET(proofreader_mode, true);
+            CLI_SET(enable_critic_markup, true);
+            CLI_SET(critic_mode, 2);  /* Ensure markup mode */
         } else if (strcmp(argv[i], "--hr-page-break") == 0) {
-            options.hr_page_break = true;
+            CLI_SET(hr_page_break, true);
         } else if (strcmp(argv[i], "--title-from-h1") == 0) {
-            options.title_from_h1 = true;
+            CLI_SET(title_from_h1, true);
         } else if (strcmp(argv[i], "--page-break-before-footnotes") == 0) {
-            options.page_break_before_footnotes = true;
+            CLI_SET(page_break_before_footnotes, true);
         } else if (strcmp(argv[i], "--wikilink-space") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --wikilink-space requires an argument (dash, none, underscore, or space)\n");
                 return 1;
             }
             if (strcmp(argv[i], "dash") == 0) {
-                options.wikilink_space = 0;
+                CLI_SET(wikilink_space, 0);
             } else if (strcmp(argv[i], "none") == 0) {
-                options.wikilink_space = 1;
+                CLI_SET(wikilink_space, 1);
             } else if (strcmp(argv[i], "underscore") == 0) {
-                options.wikilink_space = 2;
+                CLI_SET(wikilink_space, 2);
             } else if (strcmp(argv[i], "space") == 0) {
-                options.wikilink_space = 3;
+                CLI_SET(wikilink_space, 3);
             } else {
                 fprintf(stderr, "Error: --wikilink-space must be one of: dash, none, underscore, space\n");
                 return 1;
@@ -2039,32 +2053,32 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --wikilink-extension requires an argument\n");
                 return 1;
             }
-            options.wikilink_extension = argv[i];
+            CLI_SET(wikilink_extension, argv[i]);
         } else if (strcmp(argv[i], "--wikilink-sanitize") == 0) {
-            options.wikilink_sanitize = true;
+            CLI_SET(wikilink_sanitize, true);
         } else if (strcmp(argv[i], "--no-wikilink-sanitize") == 0) {
-            options.wikilink_sanitize = false;
+            CLI_SET(wikilink_sanitize, false);
         } else if (strcmp(argv[i], "--transforms") == 0) {
-            options.enable_metadata_transforms = true;
+            CLI_SET(enable_metadata_transforms, true);
         } else if (strcmp(argv[i], "--no-transforms") == 0) {
-            options.enable_metadata_transforms = false;
+            CLI_SET(enable_metadata_transforms, false);
         } else if (strcmp(argv[i], "--embed-images") == 0) {
-            options.embed_images = true;
+            CLI_SET(embed_images, true);
         } else if (strcmp(argv[i], "--image-captions") == 0) {
-            options.enable_image_captions = true;
+            CLI_SET(enable_image_captions, true);
         } else if (strcmp(argv[i], "--no-image-captions") == 0) {
-            options.enable_image_captions = false;
+            CLI_SET(enable_image_captions, false);
         } else if (strcmp(argv[i], "--title-captions-only") == 0) {
-            options.title_captions_only = true;
-            options.enable_image_captions = true;  /* implied when title-captions-only is set */
+            CLI_SET(title_captions_only, true);
+            CLI_SET(enable_image_captions, true);  /* implied when title-captions-only is set */
         } else if (strcmp(argv[i], "--no-title-captions-only") == 0) {
-            options.title_captions_only = false;
+            CLI_SET(title_captions_only, false);
         } else if (strcmp(argv[i], "--base-dir") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --base-dir requires an argument\n");
                 return 1;
             }
-            options.base_directory = argv[i];
+            CLI_SET(base_directory, argv[i]);
         } else if (strcmp(argv[i], "--bibliography") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --bibliography requires an argument\n");
@@ -2087,29 +2101,29 @@ int main(int argc, char *argv[]) {
                 bibliography_files = new_files;
             }
             bibliography_files[bibliography_count++] = argv[i];
-            options.enable_citations = true;  /* Enable citations when bibliography is provided */
+            CLI_SET(enable_citations, true);  /* Enable citations when bibliography is provided */
         } else if (strcmp(argv[i], "--csl") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --csl requires an argument\n");
                 return 1;
             }
-            options.csl_file = argv[i];
-            options.enable_citations = true;  /* Enable citations when CSL is provided */
+            CLI_SET(csl_file, argv[i]);
+            CLI_SET(enable_citations, true);  /* Enable citations when CSL is provided */
         } else if (strcmp(argv[i], "--no-bibliography") == 0) {
-            options.suppress_bibliography = true;
+            CLI_SET(suppress_bibliography, true);
         } else if (strcmp(argv[i], "--link-citations") == 0) {
-            options.link_citations = true;
+            CLI_SET(link_citations, true);
         } else if (strcmp(argv[i], "--show-tooltips") == 0) {
-            options.show_tooltips = true;
+            CLI_SET(show_tooltips, true);
         } else if (strcmp(argv[i], "--indices") == 0) {
-            options.enable_indices = true;
-            options.enable_mmark_index_syntax = true;
-            options.enable_textindex_syntax = true;
-            options.enable_leanpub_index_syntax = true;
+            CLI_SET(enable_indices, true);
+            CLI_SET(enable_mmark_index_syntax, true);
+            CLI_SET(enable_textindex_syntax, true);
+            CLI_SET(enable_leanpub_index_syntax, true);
         } else if (strcmp(argv[i], "--no-indices") == 0) {
-            options.enable_indices = false;
+            CLI_SET(enable_indices, false);
         } else if (strcmp(argv[i], "--no-index") == 0) {
-            options.suppress_index = true;
+            CLI_SET(suppress_index, true);
         } else if (strcmp(argv[i], "--meta-file") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --meta-file requires an argument\n");
@@ -3113,14 +3127,14 @@ int main(int argc, char *argv[]) {
     /* Set input_file_path for plugins (APEX_FILE_PATH) */
     if (input_file) {
         /* When a file is provided, use the original path (as passed in) */
-        options.input_file_path = input_file;
+        CLI_SET(input_file_path, input_file);
     } else {
         /* When reading from stdin:
          * - Prefer an explicit base_directory, if set.
          * - Otherwise, leave input_file_path empty (plugins see APEX_FILE_PATH="").
          */
         if (options.base_directory && options.base_directory[0] != '\0') {
-            options.input_file_path = options.base_directory;
+            CLI_SET(input_file_path, options.base_directory);
         } else {
             options.input_file_path = NULL;
         }
@@ -3345,8 +3359,8 @@ int main(int argc, char *argv[]) {
         stylesheet_files = realloc(stylesheet_files, (stylesheet_count + 1) * sizeof(char*));
         if (stylesheet_files) {
             stylesheet_files[stylesheet_count] = NULL;  /* NULL terminator */
-            options.stylesheet_paths = (const char **)stylesheet_files;
-            options.stylesheet_count = stylesheet_count;
+            CLI_SET(stylesheet_paths, (const char **)stylesheet_files);
+            CLI_SET(stylesheet_count, stylesheet_count);
             /* Save reference in case metadata mode resets options */
             saved_stylesheet_files = stylesheet_files;
         }
@@ -3355,7 +3369,16 @@ int main(int argc, char *argv[]) {
     /* Apply metadata to options - allows per-document control of command-line options */
     /* Note: Bibliography file loading from metadata will be handled in citations extension */
     if (merged_metadata) {
+        /* A mode in metadata resets all options; with --mode it is left out */
+        apex_metadata_item *mode_item = merged_metadata;
+        while (mode_item && !(cli_mode && mode_item->key && strcasecmp(mode_item->key, "mode") == 0)) {
+            mode_item = mode_item->next;
+        }
+        char *mode_value = mode_item ? mode_item->value : NULL;
+        if (mode_item) mode_item->value = NULL;
         apex_apply_metadata_to_options(merged_metadata, &options);
+        if (mode_item) mode_item->value = mode_value;
+        if (!options.base_directory) options.base_directory = allocated_base_dir;
         /* Restore bibliography files if they were lost (e.g., if mode was set in metadata) */
         if (saved_bibliography_files && !options.bibliography_files) {
             options.bibliography_files = saved_bibliography_files;
@@ -3367,6 +3390,13 @@ int main(int argc, char *argv[]) {
         }
     }
 
+    /* Flags on the command line win over metadata */
+    for (size_t k = 0; k < sizeof(options); k++) {
+        if (((unsigned char *)&cli_set)[k]) {
+            ((unsigned char *)&options)[k] = ((unsigned char *)&cli_options)[k];
+        }
+    }
+
     /* Modes without metadata would show the front matter as text */
     if (enhanced_markdown && (options.mode == APEX_MODE_COMMONMARK || options.mode == APEX_MODE_GFM)) {
         enhanced_len = input_len - doc_metadata_end;
-- 
2.43.0


From 1d545e7e3891e8cbf21f652c6c513592fa20fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:24 +0000
Subject: [PATCH 58/68] fix: the document was cut off after headings whose IDs
 exceed 100 bytes on average

---
 src/html_renderer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index 1bef780..d08b306 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -1152,7 +1152,7 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
 
     /* Process HTML to inject IDs */
     size_t html_len = strlen(html);
-    size_t capacity = html_len + header_count * 100;  /* Extra space for IDs */
+    size_t capacity = html_len + header_count * 512;  /* Extra space for IDs */
     char *output = malloc(capacity + 1);  /* +1 for null terminator */
     if (!output) {
         /* Clean up */
@@ -1232,7 +1232,7 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
                 /* Inject anchor tag after the header tag */
                 char anchor_tag[512];
                 snprintf(anchor_tag, sizeof(anchor_tag),
-                        "<a href=\"#%s\" aria-hidden=\"true\" class=\"anchor\" id=\"%s\"></a>",
+                        "<a href=\"#%.200s\" aria-hidden=\"true\" class=\"anchor\" id=\"%.200s\"></a>",
                         header->id, header->id);
                 size_t anchor_len = strlen(anchor_tag);
                 if (anchor_len <= remaining) {
@@ -1269,7 +1269,7 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
 
                     /* Inject new id="..." */
                     char id_attr_str[512];
-                    snprintf(id_attr_str, sizeof(id_attr_str), "id=\"%s\"", header->id);
+                    snprintf(id_attr_str, sizeof(id_attr_str), "id=\"%.500s\"", header->id);
                     size_t id_len = strlen(id_attr_str);
                     if (id_len <= remaining) {
                         memcpy(write, id_attr_str, id_len);
@@ -1338,7 +1338,7 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
 
                     /* Inject id="..." */
                     char id_attr_str[512];
-                    snprintf(id_attr_str, sizeof(id_attr_str), "id=\"%s\"", header->id);
+                    snprintf(id_attr_str, sizeof(id_attr_str), "id=\"%.500s\"", header->id);
                     size_t id_len = strlen(id_attr_str);
                     if (id_len <= remaining) {
                         memcpy(write, id_attr_str, id_len);
-- 
2.43.0


From a17d43111a133a7c523dd89fac79f6af814430f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 59/68] fix: flags before --mode on the command line were
 dropped

---
 cli/main.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index b32995f..2aab7cf 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1446,6 +1446,17 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out, bo
     return 0;
 }
 
+/**
+ * Put the options that flags have set (nonzero bytes in set) back into options
+ */
+static void cli_restore_flags(apex_options *options, const apex_options *flags, const apex_options *set) {
+    for (size_t k = 0; k < sizeof(*options); k++) {
+        if (((const unsigned char *)set)[k]) {
+            ((unsigned char *)options)[k] = ((const unsigned char *)flags)[k];
+        }
+    }
+}
+
 int main(int argc, char *argv[]) {
     /* Initialize progress reporting */
     init_progress();
@@ -2196,6 +2207,9 @@ int main(int argc, char *argv[]) {
         }
     }
 
+    /* --mode resets all options, also those set by flags before it */
+    cli_restore_flags(&options, &cli_options, &cli_set);
+
     /* If --combine was provided but no files, error out early */
     if (combine_mode && combine_file_count == 0) {
         fprintf(stderr, "Error: --combine requires at least one input file\n");
@@ -3391,11 +3405,7 @@ int main(int argc, char *argv[]) {
     }
 
     /* Flags on the command line win over metadata */
-    for (size_t k = 0; k < sizeof(options); k++) {
-        if (((unsigned char *)&cli_set)[k]) {
-            ((unsigned char *)&options)[k] = ((unsigned char *)&cli_options)[k];
-        }
-    }
+    cli_restore_flags(&options, &cli_options, &cli_set);
 
     /* Modes without metadata would show the front matter as text */
     if (enhanced_markdown && (options.mode == APEX_MODE_COMMONMARK || options.mode == APEX_MODE_GFM)) {
-- 
2.43.0


From 8b422883797bd618eb744ea4bd45a9f380bfe926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 60/68] fix: embedding a stylesheet named in the metadata used
 freed memory

---
 src/apex.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index dd21f9e..707963d 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -5830,10 +5830,6 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                                                  language_metadata);
         PROFILE_END(standalone_wrap);
 
-        /* Free temporary metadata stylesheet array if we allocated it */
-        if (css_paths && css_paths[0] == css_metadata) {
-            free((void*)css_paths);
-        }
         if (document) {
             free(html);
             html = document;
@@ -5936,6 +5932,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                 }
             }
         }
+
+        /* Free temporary metadata stylesheet array if we allocated it */
+        if (css_paths != local_opts.stylesheet_paths) {
+            free((void*)css_paths);
+        }
     } else if (html && scripts_html) {
         /* Snippet mode: append scripts to the end of the HTML fragment */
         size_t html_len = strlen(html);
-- 
2.43.0


From 7184596c3eee06cc93f3be7ec3528f92a34170a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:12 +0000
Subject: [PATCH 61/68] fix: a terminal theme that could only be read in part
 was used as far as it was read

---
 src/ast_terminal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index 1212764..9cd9c3c 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -759,7 +759,12 @@ static terminal_theme *load_theme_from_simple_yaml(const char *path) {
         }
     }
 
+    bool failed = ferror(fp) != 0;
     fclose(fp);
+    if (failed) {
+        free_theme(theme); /* rather no theme than half of one */
+        return NULL;
+    }
     return theme;
 }
 
-- 
2.43.0


From 46969aecd3926c5b40ade18e5bc7d39c540c635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:14 +0000
Subject: [PATCH 62/68] fix: terms of definition lists taken over from a
 paragraph showed freed memory

---
 src/extensions/definition_list.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index ffeb63c..5e51da9 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -1734,6 +1734,18 @@ static void ensure_node_has_content_from_block(cmark_node *node, cmark_mem *mem)
     mem->free(buf);
 }
 
+/**
+ * Unlink and free para after its children were moved to dst. The text of these inlines can
+ * still lie in para's content buffer, so dst takes that over.
+ */
+static void free_emptied_paragraph(cmark_node *dst, cmark_node *para) {
+    cmark_strbuf content = dst->content;
+    dst->content = para->content;
+    para->content = content;
+    cmark_node_unlink(para);
+    cmark_node_free(para);
+}
+
 /**
  * Move all children from para into term, then unlink and free para.
  * If para had no inline children, use its block content to create a TEXT node in term.
@@ -1755,8 +1767,7 @@ static void move_paragraph_inlines_to_term(cmark_node *term, cmark_node *para) {
             cmark_node_append_child(term, child);
         }
     }
-    cmark_node_unlink(para);
-    cmark_node_free(para);
+    free_emptied_paragraph(term, para);
 }
 
 /**
@@ -1844,8 +1855,7 @@ static void create_dd_from_paragraph(cmark_syntax_extension *ext,
         cmark_node_insert_after(term, dd);
     else
         cmark_node_append_child(def_list, dd);
-    cmark_node_unlink(para);
-    cmark_node_free(para);
+    free_emptied_paragraph(dd, para);
 }
 
 /**
-- 
2.43.0


From 1d31274687dd56c5d2c4139c63476ff000052e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:40 +0000
Subject: [PATCH 63/68] fix: {index} was only recognised at the very end of a
 document, and then memory after the text was converted

---
 src/extensions/special_markers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/special_markers.c b/src/extensions/special_markers.c
index f67c367..6c88a94 100644
--- a/src/extensions/special_markers.c
+++ b/src/extensions/special_markers.c
@@ -157,7 +157,7 @@ char *apex_process_special_markers(const char *text) {
          * Replaced with <!--INDEX--> so the index extension inserts the index there.
          * The marker is always removed from the document (either replaced by the
          * index block or left as an invisible HTML comment when index is suppressed). */
-        if (strncmp(read, "{index}", 8) == 0) {
+        if (strncmp(read, "{index}", 7) == 0) {
             const char *replacement = "<!--INDEX-->";
             size_t repl_len = strlen(replacement);
             if (repl_len >= remaining) {
@@ -175,7 +175,7 @@ char *apex_process_special_markers(const char *text) {
             memcpy(write, replacement, repl_len);
             write += repl_len;
             remaining -= repl_len;
-            read += 8;
+            read += 7;
             continue;
         }
 
-- 
2.43.0


From 2f022d48afde7465407e7d0411c03c2094f9ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 64/68] fix: a relative transclude base of an included file was
 applied twice

---
 src/extensions/includes.c | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index deade79..af4784f 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -1197,14 +1197,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 file_metadata = apex_extract_metadata(&file_text_after_metadata);
                             }
 
-                            /* Get transclude base from file's metadata, or use file's directory */
-                            char *transclude_base = NULL;
-                            if (file_metadata) {
-                                transclude_base = get_transclude_base(get_directory(resolved_path), file_metadata);
-                            }
-                            if (!transclude_base) {
-                                transclude_base = get_directory(resolved_path);
-                            }
+                            /* The file's directory; a transclude base in its metadata is applied to it when it is processed */
+                            char *transclude_base = get_directory(resolved_path);
 
                             to_insert = apex_process_includes(content, transclude_base, file_metadata, depth + 1);
 
@@ -1310,14 +1304,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                             }
                         }
 
-                        /* Get transclude base from file's metadata, or use file's directory */
-                        char *transclude_base = NULL;
-                        if (file_metadata) {
-                            transclude_base = get_transclude_base(get_directory(resolved_path), file_metadata);
-                        }
-                        if (!transclude_base) {
-                            transclude_base = get_directory(resolved_path);
-                        }
+                        /* The file's directory; a transclude base in its metadata is applied to it when it is processed */
+                        char *transclude_base = get_directory(resolved_path);
 
                         /* Recursively process with file's metadata and transclude base */
                         char *processed = apex_process_includes(to_process, transclude_base, file_metadata, depth + 1);
@@ -1455,14 +1443,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                                 /* Markdown include - recursively process */
 
-                                /* Get transclude base from file's metadata, or use file's directory */
-                                char *transclude_base = NULL;
-                                if (file_metadata) {
-                                    transclude_base = get_transclude_base(get_directory(resolved_path), file_metadata);
-                                }
-                                if (!transclude_base) {
-                                    transclude_base = get_directory(resolved_path);
-                                }
+                                /* The file's directory; a transclude base in its metadata is applied to it when it is processed */
+                                char *transclude_base = get_directory(resolved_path);
 
                                 char *processed = apex_process_includes(to_process, transclude_base, file_metadata, depth + 1);
 
-- 
2.43.0


From 0e980f8baf77e5c7c9df69b123fbcc39023b5384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:34 +0000
Subject: [PATCH 65/68] fix: texts and escapes in a remote directory were
 misread

---
 src/plugins_remote.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/plugins_remote.c b/src/plugins_remote.c
index e3a332b..d1e991b 100644
--- a/src/plugins_remote.c
+++ b/src/plugins_remote.c
@@ -92,12 +92,15 @@ char *apex_remote_extract_string(const char *obj, const char *key) {
     if (!obj || !key) return NULL;
     char pattern[128];
     snprintf(pattern, sizeof(pattern), "\"%s\"", key);
-    const char *p = strstr(obj, pattern);
-    if (!p) return NULL;
-    p = strchr(p + strlen(pattern), ':');
-    if (!p) return NULL;
+    const char *p = obj;
+    do {
+        p = strstr(p, pattern);
+        if (!p) return NULL;
+        p += strlen(pattern);
+        while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++;
+    } while (*p != ':'); /* a value that reads like the key is not the key */
     p++;
-    while (*p == ' ' || *p == '\t') p++;
+    while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++;
     if (*p != '\"') return NULL;
     p++;
     const char *start = p;
@@ -112,8 +115,12 @@ char *apex_remote_extract_string(const char *obj, const char *key) {
     size_t len = (size_t)(p - start);
     char *out = malloc(len + 1);
     if (!out) return NULL;
-    memcpy(out, start, len);
-    out[len] = '\0';
+    size_t n = 0;
+    for (size_t i = 0; i < len; i++) {
+        if (start[i] == '\\' && i + 1 < len && strchr("\"\\/", start[i + 1])) i++;
+        out[n++] = start[i];
+    }
+    out[n] = '\0';
     return out;
 }
 
-- 
2.43.0


From cc606ca2053edeacffec356b7e397ceb16453c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:06 +0000
Subject: [PATCH 66/68] fix: an ordered list starting at 0 lost its start in
 filters

---
 src/ast_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index b04e48f..90ec3f5 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -345,7 +345,7 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             if (!apex_json_buf_append(b, "{\"t\":\"OrderedList\",\"c\":[")) return 0;
             /* Simple default list attributes: [start, style, delim] */
             int start = cmark_node_get_list_start(node);
-            if (start <= 0) start = 1;
+            if (start < 0) start = 1;
             char buf[32];
             snprintf(buf, sizeof(buf), "%d", start);
             if (!apex_json_buf_append(b, "[")) return 0;
-- 
2.43.0


From c50e0974858f497556a53d7aae751153b9c2831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:06 +0000
Subject: [PATCH 67/68] fix: a plugin bundle that could not be read again ran
 as a plain plugin

---
 src/plugins.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugins.c b/src/plugins.c
index 5d1de9f..75e53f1 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -296,7 +296,13 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
 #ifdef APEX_HAVE_LIBYAML
         /* Check for bundle array - if found, process each bundle entry as a separate plugin */
         size_t bundle_count = 0;
+        errno = 0;
         apex_metadata_item **bundles = apex_extract_plugin_bundle(manifest_path, &bundle_count);
+        if (!bundles && errno != 0) {
+            /* Could not be read again: whether it is a bundle is not known */
+            apex_free_metadata(meta);
+            continue;
+        }
         if (bundles && bundle_count > 0) {
             /* Process each bundle entry as a plugin */
             for (size_t b_idx = 0; b_idx < bundle_count; b_idx++) {
-- 
2.43.0


From fcfaa8314a787c8739948e4b1e4d89a24ad2f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:12 +0000
Subject: [PATCH 68/68] fix: an incomplete UTF-8 sequence at the end of a
 heading made its id run on past the heading

---
 src/extensions/header_ids.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index e6d96a5..0b7aa50 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -135,10 +135,11 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
 
                 if (utf8_len > 0) {
                     /* Copy the entire UTF-8 sequence */
-                    for (int i = 0; i < utf8_len && read[i] != '\0'; i++) {
+                    int i;
+                    for (i = 0; i < utf8_len && read[i] != '\0'; i++) {
                         *write++ = read[i];
                     }
-                    read += utf8_len - 1;  /* -1 because for loop will increment */
+                    read += i - 1;  /* -1 because for loop will increment */
                     last_was_dash = false;
                     first_char = false;
                 } else {
@@ -200,8 +201,8 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
                 else if ((c & 0xF8) == 0xF0) utf8_len = 4;  /* 4-byte sequence */
 
                 if (utf8_len > 0) {
-                    /* Skip the entire UTF-8 sequence */
-                    read += utf8_len - 1;  /* -1 because for loop will increment */
+                    /* Skip the entire UTF-8 sequence, which the text may cut short */
+                    for (int i = 1; i < utf8_len && read[1] != '\0'; i++) read++;
                 }
                 /* Otherwise skip the byte */
             }
-- 
2.43.0

