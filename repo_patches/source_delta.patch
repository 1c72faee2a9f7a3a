From d3de03702f6dbde07abee72f1fd42d3bdd3c242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 01/37] fix: template argument substitution reading and writing
 out of bounds

replace_m4() sized its buffer as if every argument were used at most once
and left the result unterminated when it ended in a missing argument;
replace_m4_list() dereferenced the missing list of a call without
arguments and stored NULL for arguments like $*.
---
 src/template.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/template.c b/src/template.c
index 759f73f..cce8386 100644
--- a/src/template.c
+++ b/src/template.c
@@ -26,14 +26,22 @@
 char *replace_m4(const char *orig, const struct string_list *args)
 {
 	size_t len_to_malloc = strlen(orig) + 1;
+	size_t longest_arg = 0;
 	const struct string_list *cur = args;
 
 	while (cur) {
-		len_to_malloc += strlen(cur->string);
+		size_t arg_len = strlen(cur->string);
+		if (arg_len > longest_arg) {
+			longest_arg = arg_len;
+		}
 		cur = cur->next;
 	}
+	// Every substitution, also a repeated one, starts with a dollar sign
+	for (const char *pos = strchr(orig, '$'); pos; pos = strchr(pos + 1, '$')) {
+		len_to_malloc += longest_arg;
+	}
 	// len_to_malloc is now overestimated, because the length of the original
-	// arguments wasn't subtracted and not all args are necessarily substituted
+	// arguments wasn't subtracted and not all args are of the maximum length
 	char *ret = malloc(len_to_malloc);
 	*ret = '\0';            // If the string is only a substitution that there is no argument for, we need to be terminated
 	const char *orig_pos = orig;
@@ -49,6 +57,7 @@ char *replace_m4(const char *orig, const struct string_list *args)
 		}
 		strncpy(ret_pos, orig_pos, (size_t)(dollar_pos - orig_pos));
 		ret_pos += dollar_pos - orig_pos;
+		*ret_pos = '\0';
 		orig_pos = dollar_pos;
 
 		int ret_count =
@@ -72,20 +81,32 @@ char *replace_m4(const char *orig, const struct string_list *args)
 	return ret;
 }
 
+// Arguments like "$*" can not be substituted, keep them as they are
+static char *replace_m4_or_copy(const char *orig, const struct string_list *args)
+{
+	char *ret = replace_m4(orig, args);
+
+	return ret ? ret : strdup(orig);
+}
+
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from)
 {
+	if (!replace_from) {
+		return NULL;
+	}
+
 	struct string_list *ret = calloc(1, sizeof(struct string_list));
 	struct string_list *cur = ret;
 
-	cur->string = replace_m4(replace_from->string, replace_with);
+	cur->string = replace_m4_or_copy(replace_from->string, replace_with);
 	cur->next = NULL;
 	replace_from = replace_from->next;
 
 	while (replace_from) {
 		cur->next = calloc(1, sizeof(struct string_list));
 		cur = cur->next;
-		cur->string = replace_m4(replace_from->string, replace_with);
+		cur->string = replace_m4_or_copy(replace_from->string, replace_with);
 		cur->next = NULL;
 		replace_from = replace_from->next;
 	}
-- 
2.43.0


From 9cd9aa1c9cc99d57502d78a5ad665e307d138741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 02/37] fix: modules.conf names and states without trailing
 white space read past the line

---
 src/startup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 142f89d..4e44860 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -112,7 +112,7 @@ static char *strip_space(char *str)
 
 	char *end = str;
 
-	while (!is_space(*end)) {
+	while (*end != '\0' && !is_space(*end)) {
 		end++;
 	}
 
-- 
2.43.0


From f13bb41ddff17a518d7af01e1da9829768a3a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 03/37] fix: file context lines with a bare dash or a short
 category read out of bounds

---
 src/parse_fc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index cedabdb..4e8c86b 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -49,7 +49,7 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0') {
 			goto cleanup;
 		}
 		out->obj = pos[1];
@@ -103,6 +103,7 @@ struct fc_entry *parse_fc_line(char *line)
 		}
 
 		if (maybe_c) {
+			i = 0;
 			while (maybe_c[i] != '\0' && maybe_c[i] != ')') {
 				i++;
 			}
-- 
2.43.0


From 7530c5e452fcdb6d71a8735ee238e391d4d3cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 04/37] fix: read errors on .fc files and modules.conf were
 taken for the end of the file

---
 src/parse_fc.c | 6 ++++++
 src/runner.c   | 1 +
 src/startup.c  | 4 +++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 4e8c86b..3c9d1a5 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -291,6 +291,12 @@ struct policy_node *parse_fc_file(const char *filename, const struct string_list
 		buf_len = 0;
 	}
 	free(line);             // getline alloc must be freed even if getline failed
+	if (ferror(fd) || !feof(fd)) {
+		// Not the end of the file, but a read error
+		free_policy_node(head);
+		fclose(fd);
+		return NULL;
+	}
 	fclose(fd);
 
 	return head;
diff --git a/src/runner.c b/src/runner.c
index 9a0cb81..1521434 100644
--- a/src/runner.c
+++ b/src/runner.c
@@ -331,6 +331,7 @@ enum selint_error parse_all_fc_files_in_list(struct policy_file_list *files,
 		print_if_verbose("Parsing fc file %s\n", current->file->filename);
 		current->file->ast = parse_fc_file(current->file->filename, custom_fc_macros);
 		if (!current->file->ast) {
+			printf("%sError%s: Failed to read %s: %s\n", color_error(), color_reset(), current->file->filename, strerror(errno));
 			return SELINT_PARSE_ERROR;
 		}
 		current = current->next;
diff --git a/src/startup.c b/src/startup.c
index 4e44860..59dd508 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -165,9 +165,11 @@ enum selint_error load_modules_source(const char *modules_conf_path)
 		}
 	}
 	free(line);
+	// The loop also ends on read errors
+	int complete = feof(fd) && !ferror(fd);
 	fclose(fd);
 
-	return SELINT_SUCCESS;
+	return complete ? SELINT_SUCCESS : SELINT_IO_ERROR;
 }
 
 enum selint_error load_obj_perm_sets_source(const char *obj_perm_sets_path)
-- 
2.43.0


From 63341e23813c6ab8fe4641b4b461ca460852d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 05/37] fix: subdirectories skipped on file systems without
 subdirectory link counts

With FTS_NOSTAT fts(3) stops looking for directories after st_nlink - 2 of
them, but e.g. CIFS and several FUSE file systems report 2 for every
directory: everything below the start directory was silently not scanned.
---
 src/main.c    | 4 ++--
 src/startup.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 84bad03..ad511ac 100644
--- a/src/main.c
+++ b/src/main.c
@@ -394,7 +394,7 @@ int main(int argc, char **argv)
 
 	paths[i] = NULL;
 
-	FTS *ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+	FTS *ftsp = fts_open(paths, FTS_PHYSICAL, NULL);
 
 	FTSENT *file = fts_read(ftsp);
 
@@ -471,7 +471,7 @@ int main(int argc, char **argv)
 		paths[0] = context_path_node->string;
 		paths[1] = NULL;
 
-		ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+		ftsp = fts_open(paths, FTS_PHYSICAL, NULL);
 		file = fts_read(ftsp);
 
 		while (file) {
diff --git a/src/startup.c b/src/startup.c
index 59dd508..b2aa391 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -227,7 +227,7 @@ enum selint_error load_devel_headers(struct policy_file_list *context_files)
 	const char *paths[2] = {header_loc, 0};
 
 IGNORE_CONST_DISCARD_BEGIN;
-	FTS *ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+	FTS *ftsp = fts_open(paths, FTS_PHYSICAL, NULL);
 IGNORE_CONST_DISCARD_END;
 
 	FTSENT *file = fts_read(ftsp);
-- 
2.43.0


From d4a9681f672883d38c08528a1f70fb0fc79e9b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 06/37] fix: directories named like a policy or support file
 were opened as one

---
 src/main.c    | 15 +++++++++++++--
 src/startup.c |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index ad511ac..19133fa 100644
--- a/src/main.c
+++ b/src/main.c
@@ -83,6 +83,11 @@ static void usage(void)
 
 }
 
+static int is_directory(const FTSENT *file)
+{
+	return file->fts_info == FTS_D || file->fts_info == FTS_DP || file->fts_info == FTS_DC || file->fts_info == FTS_DNR;
+}
+
 #define WARN_ON_INVALID_CHECK_ID(id, desc)\
 	if (!is_valid_check(id)) {\
 		printf("%sWarning%s: %s, %s, is not a valid check id.\n", color_warning(), color_reset(), id, desc);\
@@ -403,7 +408,7 @@ int main(int argc, char **argv)
 	char *access_vector_path = NULL;
 
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		const char *suffix = (file->fts_pathlen > 3 && !is_directory(file)) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 
 		if (suffix && !strcmp(suffix, ".te")) {
 			file_list_push_back(te_files,
@@ -422,14 +427,17 @@ int main(int argc, char **argv)
 			                    make_policy_file(file->fts_path,
 			                                     NULL));
 		} else if (source_flag
+		           && !is_directory(file)
 		           && !strcmp(file->fts_name, "modules.conf")) {
 			// TODO: Make modules.conf name configurable
 			modules_conf_path = strdup(file->fts_path);
 		} else if (source_flag
+		           && !is_directory(file)
 		           && !strcmp(file->fts_name, "obj_perm_sets.spt")) {
 			// TODO: Make obj_perm_sets.spt name configurable
 			obj_perm_sets_path = strdup(file->fts_path);
 		} else if (source_flag
+		           && !is_directory(file)
 		           && !strcmp(file->fts_name, "access_vectors")) {
 			// TODO: Make access_vectors name configurable
 			access_vector_path = strdup(file->fts_path);
@@ -475,7 +483,7 @@ int main(int argc, char **argv)
 		file = fts_read(ftsp);
 
 		while (file) {
-			const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+			const char *suffix = (file->fts_pathlen > 3 && !is_directory(file)) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 			if (suffix &&  !strcmp(suffix, ".te")) {
 				if (!file_name_in_file_list(file->fts_path, te_files)) {
 					file_list_push_back(context_te_files,
@@ -490,14 +498,17 @@ int main(int argc, char **argv)
 				}
 			} else if (source_flag
                                    && !modules_conf_path
+                                   && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "modules.conf")) {
 				modules_conf_path = strdup(file->fts_path);
 			} else if (source_flag
                                    && !obj_perm_sets_path
+                                   && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "obj_perm_sets.spt")) {
 				obj_perm_sets_path = strdup(file->fts_path);
 			} else if (source_flag
                                    && !access_vector_path
+                                   && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "access_vectors")) {
 				access_vector_path = strdup(file->fts_path);
 			}
diff --git a/src/startup.c b/src/startup.c
index b2aa391..940c821 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -232,7 +232,7 @@ IGNORE_CONST_DISCARD_END;
 
 	FTSENT *file = fts_read(ftsp);
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		const char *suffix = (file->fts_pathlen > 3 && file->fts_info != FTS_D && file->fts_info != FTS_DP) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 		if (suffix && !strcmp(suffix, ".if")) {
 			file_list_push_back(context_files,
 			                    make_policy_file(file->fts_path,
-- 
2.43.0


From 6c1a65f67dd2cfc4fb3f5c7844a52b040712b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 07/37] fix: directories that can not be read were silently
 left out of the scan

Scan errors are reported and the run fails, for the scanned paths and for
the context; incomplete class and permission names of the running kernel
are not used and unreadable development headers are reported.
---
 src/main.c    | 42 ++++++++++++++++++++++++++++++++++++++++++
 src/maps.c    |  9 +++++++++
 src/maps.h    |  2 ++
 src/startup.c | 24 ++++++++++++++++++++++--
 4 files changed, 75 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 19133fa..93c19e8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -14,6 +14,7 @@
 * limitations under the License.
 */
 
+#include <errno.h>
 #include <stdio.h>
 #include <getopt.h>
 #include <sys/types.h>
@@ -88,6 +89,18 @@ static int is_directory(const FTSENT *file)
 	return file->fts_info == FTS_D || file->fts_info == FTS_DP || file->fts_info == FTS_DC || file->fts_info == FTS_DNR;
 }
 
+// Reports what could not be scanned.  Files that vanished in between are no error.
+static int is_scan_error(const FTSENT *file)
+{
+	if (file->fts_info != FTS_DNR && file->fts_info != FTS_ERR &&
+	    (file->fts_info != FTS_NS || (file->fts_errno == ENOENT && file->fts_level > 0))) {
+		return 0;
+	}
+
+	printf("%sError%s: Failed to scan %s: %s\n", color_error(), color_reset(), file->fts_path, strerror(file->fts_errno));
+	return 1;
+}
+
 #define WARN_ON_INVALID_CHECK_ID(id, desc)\
 	if (!is_valid_check(id)) {\
 		printf("%sWarning%s: %s, %s, is not a valid check id.\n", color_warning(), color_reset(), id, desc);\
@@ -399,6 +412,8 @@ int main(int argc, char **argv)
 
 	paths[i] = NULL;
 
+	int scan_errors = 0;
+
 	FTS *ftsp = fts_open(paths, FTS_PHYSICAL, NULL);
 
 	FTSENT *file = fts_read(ftsp);
@@ -441,6 +456,8 @@ int main(int argc, char **argv)
 		           && !strcmp(file->fts_name, "access_vectors")) {
 			// TODO: Make access_vectors name configurable
 			access_vector_path = strdup(file->fts_path);
+		} else if (is_scan_error(file)) {
+			scan_errors++;
 		} else {
 			// Directories might get traversed twice: preorder and final visit.
 			// Print only the final visit
@@ -471,6 +488,11 @@ int main(int argc, char **argv)
 		file = fts_read(ftsp);
 	}
 
+	if (errno != 0) {
+		printf("%sError%s: Failed to scan for policy files: %s\n", color_error(), color_reset(), strerror(errno));
+		scan_errors++;
+	}
+
 	fts_close(ftsp);
 
 	struct string_list *context_path_node = context_paths;
@@ -511,10 +533,17 @@ int main(int argc, char **argv)
                                    && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "access_vectors")) {
 				access_vector_path = strdup(file->fts_path);
+			} else if (is_scan_error(file)) {
+				scan_errors++;
 			}
 			file = fts_read(ftsp);
 		}
 
+		if (errno != 0) {
+			printf("%sError%s: Failed to scan for context files: %s\n", color_error(), color_reset(), strerror(errno));
+			scan_errors++;
+		}
+
 		fts_close(ftsp);
 		context_path_node = context_path_node->next;
 	}
@@ -522,6 +551,19 @@ int main(int argc, char **argv)
 	free_string_list(context_paths);
 	free(paths);
 
+	if (scan_errors) {
+		// An incomplete scan must not look like a clean one
+		free_file_list(te_files);
+		free_file_list(if_files);
+		free_file_list(fc_files);
+		free_file_list(context_te_files);
+		free_file_list(context_if_files);
+		free(obj_perm_sets_path);
+		free(access_vector_path);
+		free(modules_conf_path);
+		return EX_SOFTWARE;
+	}
+
 	// Load object classes and permissions
 	if (source_flag) {
 		if (access_vector_path) {
diff --git a/src/maps.c b/src/maps.c
index ab26f41..06042e5 100644
--- a/src/maps.c
+++ b/src/maps.c
@@ -543,6 +543,15 @@ unsigned int permmacros_map_count()
 		free(cur_bool); \
 } \
 
+void free_class_and_perm_maps()
+{
+	struct hash_elem *cur_decl, *tmp_decl;
+
+	FREE_MAP(class);
+
+	FREE_MAP(perm);
+}
+
 void free_all_maps()
 {
 
diff --git a/src/maps.h b/src/maps.h
index 8d682d5..3ba9528 100644
--- a/src/maps.h
+++ b/src/maps.h
@@ -103,6 +103,8 @@ unsigned int permmacros_map_count(void);
 
 unsigned int decl_map_count(enum decl_flavor flavor);
 
+void free_class_and_perm_maps(void);
+
 void free_all_maps(void);
 
 #endif
diff --git a/src/startup.c b/src/startup.c
index 940c821..09f6525 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -46,10 +46,13 @@ IGNORE_CONST_DISCARD_BEGIN;
 IGNORE_CONST_DISCARD_END;
 
 	FTSENT *file = fts_read(ftsp);
+	int incomplete = 0;
 
 	while (file) {
 
-		if (file->fts_level != 0 && file->fts_info == FTS_D
+		if (file->fts_info == FTS_DNR || file->fts_info == FTS_ERR || file->fts_info == FTS_NS) {
+			incomplete = 1;
+		} else if (file->fts_level != 0 && file->fts_info == FTS_D
 		    && 0 != strcmp(file->fts_name, "perms")) {
 			// Directory being visited the first time
 
@@ -65,8 +68,17 @@ IGNORE_CONST_DISCARD_END;
 		}
 		file = fts_read(ftsp);
 	}
+	if (errno != 0) {
+		incomplete = 1;
+	}
 	fts_close(ftsp);
 
+	if (incomplete) {
+		// Valid names might be missing, so no name can be called unknown
+		free_class_and_perm_maps();
+		return SELINT_PARSE_ERROR;
+	}
+
 	return r;
 }
 
@@ -230,6 +242,7 @@ IGNORE_CONST_DISCARD_BEGIN;
 	FTS *ftsp = fts_open(paths, FTS_PHYSICAL, NULL);
 IGNORE_CONST_DISCARD_END;
 
+	enum selint_error ret = SELINT_SUCCESS;
 	FTSENT *file = fts_read(ftsp);
 	while (file) {
 		const char *suffix = (file->fts_pathlen > 3 && file->fts_info != FTS_D && file->fts_info != FTS_DP) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
@@ -241,12 +254,19 @@ IGNORE_CONST_DISCARD_END;
 			mod_name[file->fts_namelen - 3] = '\0';
 			insert_into_mod_layers_map(mod_name, file->fts_parent->fts_name);
 			free(mod_name);
+		} else if (file->fts_info == FTS_DNR || file->fts_info == FTS_ERR ||
+		           (file->fts_info == FTS_NS && file->fts_errno != ENOENT)) {
+			ret = SELINT_IO_ERROR;
 		}
 		file = fts_read(ftsp);
 	}
 
+	if (errno != 0) {
+		ret = SELINT_IO_ERROR;
+	}
+
 	fts_close(ftsp);
-	return SELINT_SUCCESS;
+	return ret;
 }
 
 enum selint_error mark_transform_interfaces(const struct policy_file_list *files)
-- 
2.43.0


From a4bdd24607b67782589a0a10ec888bd4d62164ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 08/37] fix: exit successfully although the output could not be
 written

---
 src/main.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/main.c b/src/main.c
index 93c19e8..30a6adc 100644
--- a/src/main.c
+++ b/src/main.c
@@ -84,6 +84,17 @@ static void usage(void)
 
 }
 
+// A report that could not be written completely must not look like a clean run
+static void close_stdout(void)
+{
+	int failed = ferror(stdout);
+
+	if (fclose(stdout) != 0 || failed) {
+		fprintf(stderr, "selint: failed to write output\n");
+		_exit(EX_IOERR);
+	}
+}
+
 static int is_directory(const FTSENT *file)
 {
 	return file->fts_info == FTS_D || file->fts_info == FTS_DP || file->fts_info == FTS_DC || file->fts_info == FTS_DNR;
@@ -133,6 +144,8 @@ int main(int argc, char **argv)
 
 	yydebug = 0;
 
+	atexit(close_stdout);
+
 	while (1) {
 
 		static const struct option long_options[] = {
-- 
2.43.0


From c21d2c3242f35310b09be52a69d99baf0b0eb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 09/37] fix: a default configuration file that can not be read
 was silently ignored

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 30a6adc..a408137 100644
--- a/src/main.c
+++ b/src/main.c
@@ -349,6 +349,9 @@ int main(int argc, char **argv)
 	} else if (!config_filename) {
 		config_filename = SYSCONFDIR "/selint.conf";    // Default install path
 		if (0 != access(config_filename, R_OK)) {
+			if (errno != ENOENT && errno != ENOTDIR) {
+				printf("%sWarning%s: Failed to read default configuration file %s: %s\n", color_warning(), color_reset(), config_filename, strerror(errno));
+			}
 			//No default config found
 			print_if_verbose(
 				"No config specified and could not find default config at %s.\n",
-- 
2.43.0


From 71e684b3e64f9fe7ba029226095c3c672322cc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 10/37] fix: a configuration file that could not be opened was
 taken for an empty one

---
 src/selint_config.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/selint_config.c b/src/selint_config.c
index b8e2e8f..cd30a71 100644
--- a/src/selint_config.c
+++ b/src/selint_config.c
@@ -100,7 +100,13 @@ IGNORE_CONST_DISCARD_END;
 	cfg = cfg_init(opts, CFGF_NONE);
 
 	print_if_verbose("Loading configuration from: %s\n", config_filename);
-	if (cfg_parse(cfg, config_filename) == CFG_PARSE_ERROR) {
+	int parse_result = cfg_parse(cfg, config_filename);
+	if (parse_result == CFG_FILE_ERROR && *config_filename) {
+		printf("Failed to open configuration file %s.\n", config_filename);
+		cfg_free(cfg);
+		return SELINT_IO_ERROR;
+	}
+	if (parse_result == CFG_PARSE_ERROR) {
 		printf
 		        ("Parse error when attempting to parse configuration file.\n");
 		cfg_free(cfg);
-- 
2.43.0


From 74ebf3f25a284577a5b1a1a0b3de40086aa439e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:04 +0000
Subject: [PATCH 11/37] fix: declarations of templates called in interfaces
 depended on the file order

A template called by an interface was only expanded when the file defining
the template happened to be parsed earlier.
---
 src/parse_functions.c | 14 +++++++++++++-
 src/runner.c          | 23 +++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/parse_functions.c b/src/parse_functions.c
index da2adcc..d43ca81 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -429,6 +429,17 @@ static int is_filetrans_if_name(const char *if_name)
 	return 0;
 }
 
+static int is_in_interface(const struct policy_node *cur)
+{
+	while (cur->parent) {
+		cur = cur->parent;
+		if (cur->flavor == NODE_INTERFACE_DEF) {
+			return 1;
+		}
+	}
+	return 0;
+}
+
 enum selint_error insert_interface_call(struct policy_node **cur, const char *if_name,
                                         struct string_list *args,
                                         unsigned int lineno)
@@ -444,7 +455,8 @@ enum selint_error insert_interface_call(struct policy_node **cur, const char *if
 		insert_call_into_template_map(template_name, if_data);
 	} else {
 		enum selint_error r = add_template_declarations(if_name, args, NULL, module_name);
-		if (r != SELINT_SUCCESS) {
+		// Whether a call in an interface fails here depends on the templates known so far
+		if (r != SELINT_SUCCESS && !is_in_interface(*cur)) {
 			free_if_call_data(if_data);
 			return r;
 		}
diff --git a/src/runner.c b/src/runner.c
index 1521434..0c13a78 100644
--- a/src/runner.c
+++ b/src/runner.c
@@ -26,6 +26,7 @@
 #include "te_checks.h"
 #include "parse_fc.h"
 #include "parse.h"
+#include "template.h"
 #include "util.h"
 #include "startup.h"
 
@@ -321,6 +322,25 @@ enum selint_error parse_all_files_in_list(struct policy_file_list *files, enum n
 
 }
 
+// Add the declarations of templates called in interfaces.  While parsing the
+// interface only the templates of files parsed earlier are known.
+static void add_interface_template_declarations(const struct policy_file_list *files)
+{
+	for (const struct policy_file_node *file = files->head; file; file = file->next) {
+		char *copy = strdup(file->file->filename);
+		char *mod_name = basename(copy);
+		mod_name[strlen(mod_name) - 3] = '\0'; // Remove suffix
+
+		for (const struct policy_node *cur = file->file->ast; cur; cur = dfs_next(cur)) {
+			if (cur->flavor == NODE_IF_CALL && !get_name_if_in_template(cur)) {
+				add_template_declarations(cur->data.ic_data->name, cur->data.ic_data->args, NULL, mod_name);
+			}
+		}
+
+		free(copy);
+	}
+}
+
 enum selint_error parse_all_fc_files_in_list(struct policy_file_list *files,
                                              const struct string_list *custom_fc_macros)
 {
@@ -428,6 +448,9 @@ enum selint_error run_analysis(struct checks *ck,
 		goto out;
 	}
 
+	add_interface_template_declarations(if_files);
+	add_interface_template_declarations(context_if_files);
+
 	// Make temporary joined list to mark ALL transform interfaces
 	struct policy_file_list *all_if_files = calloc(1, sizeof(struct policy_file_list));
 	if (if_files->tail) {
-- 
2.43.0


From bc74d54d30b2fe5e3fe404e0ae2bc4a1729a1ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 12/37] fix: directories that can not be entered were silently
 left out of the scan

fts(3) reports a failed change of directory as an error on the final visit of
the directory.
---
 src/main.c    | 1 +
 src/startup.c | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a408137..3f3c7a0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -104,6 +104,7 @@ static int is_directory(const FTSENT *file)
 static int is_scan_error(const FTSENT *file)
 {
 	if (file->fts_info != FTS_DNR && file->fts_info != FTS_ERR &&
+	    (file->fts_info != FTS_DP || file->fts_errno == 0) &&
 	    (file->fts_info != FTS_NS || (file->fts_errno == ENOENT && file->fts_level > 0))) {
 		return 0;
 	}
diff --git a/src/startup.c b/src/startup.c
index 09f6525..2844a34 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -50,7 +50,8 @@ IGNORE_CONST_DISCARD_END;
 
 	while (file) {
 
-		if (file->fts_info == FTS_DNR || file->fts_info == FTS_ERR || file->fts_info == FTS_NS) {
+		if (file->fts_info == FTS_DNR || file->fts_info == FTS_ERR || file->fts_info == FTS_NS ||
+		    (file->fts_info == FTS_DP && file->fts_errno != 0)) {
 			incomplete = 1;
 		} else if (file->fts_level != 0 && file->fts_info == FTS_D
 		    && 0 != strcmp(file->fts_name, "perms")) {
@@ -255,6 +256,7 @@ IGNORE_CONST_DISCARD_END;
 			insert_into_mod_layers_map(mod_name, file->fts_parent->fts_name);
 			free(mod_name);
 		} else if (file->fts_info == FTS_DNR || file->fts_info == FTS_ERR ||
+		           (file->fts_info == FTS_DP && file->fts_errno != 0) ||
 		           (file->fts_info == FTS_NS && file->fts_errno != ENOENT)) {
 			ret = SELINT_IO_ERROR;
 		}
-- 
2.43.0


From 1b98be5b5a7a432c50f957f72b2f1c8e21bf737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 13/37] fix: failed allocations silently changed the report

A string, a check or a node of the syntax tree that could not be allocated was
left out, and the run went on and exited successfully.
---
 src/check_hooks.c     | 11 +++++------
 src/file_list.c       |  3 ++-
 src/lex.l             | 17 ++++++++--------
 src/main.c            | 18 ++++++++---------
 src/maps.c            | 29 ++++++++++++++--------------
 src/ordering.c        | 11 ++++++-----
 src/parse.y           |  8 ++++----
 src/parse_fc.c        | 15 ++++++++-------
 src/parse_functions.c | 45 +++++++++++++++++--------------------------
 src/perm_macro.c      |  2 +-
 src/runner.c          | 10 +++++-----
 src/startup.c         |  2 +-
 src/string_list.c     |  7 ++++---
 src/te_checks.c       |  2 +-
 src/template.c        |  5 +++--
 src/tree.c            | 11 +++--------
 src/util.h            | 38 ++++++++++++++++++++++++++++++++++++
 17 files changed, 132 insertions(+), 102 deletions(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 1fd3873..57d98bf 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -21,6 +21,7 @@
 #include <string.h>
 
 #include "check_hooks.h"
+#include "util.h"
 #include "color.h"
 
 int found_issue = 0;
@@ -29,12 +30,10 @@ int suppress_output = 0;
 #define ALLOC_NODE(nl)  if (ck->check_nodes[nl]) { \
 		loc = ck->check_nodes[nl]; \
 		while (loc->next) { loc = loc->next; } \
-		loc->next = malloc(sizeof(struct check_node)); \
-		if (!loc->next) { return SELINT_OUT_OF_MEM; } \
+		loc->next = xmalloc(sizeof(struct check_node)); \
 		loc = loc->next; \
 } else { \
-		ck->check_nodes[nl] = malloc(sizeof(struct check_node)); \
-		if (!ck->check_nodes[nl]) { return SELINT_OUT_OF_MEM; } \
+		ck->check_nodes[nl] = xmalloc(sizeof(struct check_node)); \
 		loc = ck->check_nodes[nl]; \
 }
 
@@ -48,7 +47,7 @@ enum selint_error add_check(enum node_flavor check_flavor, struct checks *ck,
 	ALLOC_NODE(check_flavor);
 
 	loc->check_function = check_function;
-	loc->check_id = strdup(check_id);
+	loc->check_id = xstrdup(check_id);
 	loc->issues_found = 0;
 	loc->next = NULL;
 
@@ -315,7 +314,7 @@ struct check_result *make_check_result(char severity, unsigned int check_id,
 	if (vasprintf(&res->message, format, args) == -1) {
 		res->severity = 'F';
 		res->check_id = F_ID_INTERNAL;
-		res->message = strdup("Failed to generate check result message");
+		res->message = xstrdup("Failed to generate check result message");
 	}
 
 	va_end(args);
diff --git a/src/file_list.c b/src/file_list.c
index 0f9f44d..14a69f8 100644
--- a/src/file_list.c
+++ b/src/file_list.c
@@ -18,6 +18,7 @@
 #include <stdlib.h>
 
 #include "file_list.h"
+#include "util.h"
 
 void file_list_push_back(struct policy_file_list *list,
                          struct policy_file *file)
@@ -38,7 +39,7 @@ struct policy_file *make_policy_file(const char *filename, struct policy_node *a
 {
 	struct policy_file *ret = malloc(sizeof(struct policy_file));
 
-	ret->filename = strdup(filename);
+	ret->filename = xstrdup(filename);
 	ret->ast = ast;
 	return ret;
 }
diff --git a/src/lex.l b/src/lex.l
index 8a0469d..ee16ffa 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -18,6 +18,7 @@
 #include <string.h>
 #include "tree.h"
 #include "parse.h"
+#include "util.h"
 
 
 extern void reset_current_lines(void);
@@ -149,13 +150,13 @@ typebounds { return TYPEBOUNDS; }
 interface { return INTERFACE; }
 template { return TEMPLATE; }
 userdebug_or_eng { return USERDEBUG_OR_ENG; }
-[0-9]+\.[0-9]+(\.[0-9]+)? { yylval->string = strdup(yytext); return VERSION_NO; }
-[0-9]+ { yylval->string = strdup(yytext); return NUMBER; }
-[a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return STRING; }
-[0-9a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return NUM_STRING; }
-[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3} { yylval->string = strdup(yytext); return IPV4; }
-([0-9A-Fa-f]{1,4})?\:([0-9A-Fa-f\:])*\:([0-9A-Fa-f]{1,4})? { yylval->string = strdup(yytext); return IPV6; }
-\"[a-zA-Z0-9_\.\-\:~\$]*\" { yylval->string = strdup(yytext); return QUOTED_STRING; }
+[0-9]+\.[0-9]+(\.[0-9]+)? { yylval->string = xstrdup(yytext); return VERSION_NO; }
+[0-9]+ { yylval->string = xstrdup(yytext); return NUMBER; }
+[a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = xstrdup(yytext); return STRING; }
+[0-9a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = xstrdup(yytext); return NUM_STRING; }
+[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3} { yylval->string = xstrdup(yytext); return IPV4; }
+([0-9A-Fa-f]{1,4})?\:([0-9A-Fa-f\:])*\:([0-9A-Fa-f]{1,4})? { yylval->string = xstrdup(yytext); return IPV6; }
+\"[a-zA-Z0-9_\.\-\:~\$]*\" { yylval->string = xstrdup(yytext); return QUOTED_STRING; }
 \-[\-ldbcsp][ \t] { return FILE_TYPE_SPECIFIER; }
 \( { return OPEN_PAREN; }
 \) { return CLOSE_PAREN; }
@@ -176,7 +177,7 @@ userdebug_or_eng { return USERDEBUG_OR_ENG; }
 \!\= { return NOT_EQUAL; }
 \! { return NOT; }
 \=\= { return EQUAL; }
-\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*$ { yylval->string = strdup(yytext); return SELINT_COMMAND; }
+\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*$ { yylval->string = xstrdup(yytext); return SELINT_COMMAND; }
 \#.*$ { return COMMENT; }
 dnl(.*)?$ ; /* skip m4 comment lines */
 [ \t\n\r] ; /* normally skip whitespace */
diff --git a/src/main.c b/src/main.c
index 3f3c7a0..4535048 100644
--- a/src/main.c
+++ b/src/main.c
@@ -234,7 +234,7 @@ int main(int argc, char **argv)
 					calloc(1, sizeof(struct string_list));
 				cl_disabled_checks = cl_d_cursor;
 			}
-			cl_d_cursor->string = strdup(optarg);
+			cl_d_cursor->string = xstrdup(optarg);
 			break;
 
 		case 'e':
@@ -248,7 +248,7 @@ int main(int argc, char **argv)
 					calloc(1, sizeof(struct string_list));
 				cl_enabled_checks = cl_e_cursor;
 			}
-			cl_e_cursor->string = strdup(optarg);
+			cl_e_cursor->string = xstrdup(optarg);
 			break;
 
 		case 'E':
@@ -450,7 +450,7 @@ int main(int argc, char **argv)
 			file_list_push_back(if_files,
 			                    make_policy_file(file->fts_path,
 			                                     NULL));
-			char *mod_name = strdup(file->fts_name);
+			char *mod_name = xstrdup(file->fts_name);
 			mod_name[file->fts_namelen - 3] = '\0';
 			insert_into_mod_layers_map(mod_name, file->fts_parent->fts_name);
 			free(mod_name);
@@ -462,17 +462,17 @@ int main(int argc, char **argv)
 		           && !is_directory(file)
 		           && !strcmp(file->fts_name, "modules.conf")) {
 			// TODO: Make modules.conf name configurable
-			modules_conf_path = strdup(file->fts_path);
+			modules_conf_path = xstrdup(file->fts_path);
 		} else if (source_flag
 		           && !is_directory(file)
 		           && !strcmp(file->fts_name, "obj_perm_sets.spt")) {
 			// TODO: Make obj_perm_sets.spt name configurable
-			obj_perm_sets_path = strdup(file->fts_path);
+			obj_perm_sets_path = xstrdup(file->fts_path);
 		} else if (source_flag
 		           && !is_directory(file)
 		           && !strcmp(file->fts_name, "access_vectors")) {
 			// TODO: Make access_vectors name configurable
-			access_vector_path = strdup(file->fts_path);
+			access_vector_path = xstrdup(file->fts_path);
 		} else if (is_scan_error(file)) {
 			scan_errors++;
 		} else {
@@ -539,17 +539,17 @@ int main(int argc, char **argv)
                                    && !modules_conf_path
                                    && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "modules.conf")) {
-				modules_conf_path = strdup(file->fts_path);
+				modules_conf_path = xstrdup(file->fts_path);
 			} else if (source_flag
                                    && !obj_perm_sets_path
                                    && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "obj_perm_sets.spt")) {
-				obj_perm_sets_path = strdup(file->fts_path);
+				obj_perm_sets_path = xstrdup(file->fts_path);
 			} else if (source_flag
                                    && !access_vector_path
                                    && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "access_vectors")) {
-				access_vector_path = strdup(file->fts_path);
+				access_vector_path = xstrdup(file->fts_path);
 			} else if (is_scan_error(file)) {
 				scan_errors++;
 			}
diff --git a/src/maps.c b/src/maps.c
index 06042e5..2f641de 100644
--- a/src/maps.c
+++ b/src/maps.c
@@ -15,6 +15,7 @@
 */
 
 #include "maps.h"
+#include "util.h"
 
 #if defined(__clang__) && defined(__clang_major__) && (__clang_major__ >= 4)
 #if (__clang_major__ >= 12)
@@ -95,8 +96,8 @@ void insert_into_decl_map(const char *name, const char *module_name,
 	if (decl == NULL) {     // Item not in hash table already
 
 		decl = malloc(sizeof(struct hash_elem));
-		decl->key = strdup(name);
-		decl->val = strdup(module_name);
+		decl->key = xstrdup(name);
+		decl->val = xstrdup(module_name);
 
 		switch (flavor) {
 		case DECL_TYPE:
@@ -162,8 +163,8 @@ void insert_into_mods_map(const char *mod_name, const char *status)
 
 	if (!mod) {
 		mod = malloc(sizeof(struct hash_elem));
-		mod->key = strdup(mod_name);
-		mod->val = strdup(status);
+		mod->key = xstrdup(mod_name);
+		mod->val = xstrdup(status);
 		HASH_ADD_KEYPTR(hh_mods, mods_map, mod->key, strlen(mod->key),
 		                mod);
 	}
@@ -193,8 +194,8 @@ void insert_into_mod_layers_map(const char *mod_name, const char *layer)
 
 	if (!mod) {
 		mod = malloc(sizeof(struct hash_elem));
-		mod->key = strdup(mod_name);
-		mod->val = strdup(layer);
+		mod->key = xstrdup(mod_name);
+		mod->val = xstrdup(layer);
 		HASH_ADD_KEYPTR(hh_mod_layers, mod_layers_map, mod->key, strlen(mod->key),
 		                mod);
 	}
@@ -225,8 +226,8 @@ void insert_into_ifs_map(const char *if_name, const char *mod_name)
 
 	if (!if_call) {
 		if_call = malloc(sizeof(struct hash_elem));
-		if_call->key = strdup(if_name);
-		if_call->val = strdup(mod_name);
+		if_call->key = xstrdup(if_name);
+		if_call->val = xstrdup(mod_name);
 		HASH_ADD_KEYPTR(hh_ifs, ifs_map, if_call->key,
 		                strlen(if_call->key), if_call);
 	}
@@ -280,7 +281,7 @@ void mark_transform_if(const char *if_name)
 
 	if (!transform_if) {
 		transform_if = malloc(sizeof(struct bool_hash_elem));
-		transform_if->key = strdup(if_name);
+		transform_if->key = xstrdup(if_name);
 		transform_if->val = 1;
 		HASH_ADD_KEYPTR(hh_transform, transform_map, transform_if->key,
 		                strlen(transform_if->key), transform_if);
@@ -310,7 +311,7 @@ void mark_filetrans_if(const char *if_name)
 
 	if (!filetrans_if) {
 		filetrans_if = malloc(sizeof(struct bool_hash_elem));
-		filetrans_if->key = strdup(if_name);
+		filetrans_if->key = xstrdup(if_name);
 		filetrans_if->val = 1;
 		HASH_ADD_KEYPTR(hh_filetrans, filetrans_map, filetrans_if->key,
 		                strlen(filetrans_if->key), filetrans_if);
@@ -340,7 +341,7 @@ void mark_role_if(const char *if_name)
 
 	if (!role_if) {
 		role_if = malloc(sizeof(struct bool_hash_elem));
-		role_if->key = strdup(if_name);
+		role_if->key = xstrdup(if_name);
 		role_if->val = 1;
 		HASH_ADD_KEYPTR(hh_role_if, role_if_map, role_if->key,
 		                strlen(role_if->key), role_if);
@@ -405,7 +406,7 @@ static void insert_into_template_map(const char *name, void *new_node,
 
 	if (template == NULL) {
 		template = malloc(sizeof(struct template_hash_elem));
-		template->name = strdup(name);
+		template->name = xstrdup(name);
 		template->declarations = NULL;
 		template->calls = NULL;
 
@@ -430,7 +431,7 @@ void insert_decl_into_template_map(const char *name, enum decl_flavor flavor,
 		malloc(sizeof(struct declaration_data));
 
 	new_data->flavor = flavor;
-	new_data->name = strdup(declaration);
+	new_data->name = xstrdup(declaration);
 	new_data->attrs = NULL; //Not needed
 
 	struct decl_list *new_node = malloc(sizeof(struct decl_list));
@@ -494,7 +495,7 @@ void insert_into_permmacros_map(const char *name, struct string_list *permission
 
 	if (!perm_macro) {
 		perm_macro = malloc(sizeof(struct sl_hash_elem));
-		perm_macro->key = strdup(name);
+		perm_macro->key = xstrdup(name);
 		perm_macro->val = permissions;
 		HASH_ADD_KEYPTR(hh_permmacros, permmacros_map, perm_macro->key, strlen(perm_macro->key),
 		                perm_macro);
diff --git a/src/ordering.c b/src/ordering.c
index 3cbfa56..5567fe5 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -21,6 +21,7 @@
 #include <stdio.h>
 
 #include "ordering.h"
+#include "util.h"
 #include "maps.h"
 
 #define SECTION_NON_ORDERED "_non_ordered"
@@ -156,7 +157,7 @@ enum selint_error add_section_info(struct section_data *sections,
 	// cur is now the appropriate section_data node.  If section_name is
 	// NULL, then this is a new node
 	if (!cur->section_name) {
-		cur->section_name = strdup(section_name);
+		cur->section_name = xstrdup(section_name);
 	}
 
 	cur->lineno_count++;
@@ -888,13 +889,13 @@ char *get_ordering_reason(struct ordering_metadata *order_data, unsigned int ind
 		if (other_lss == LSS_KERNEL || other_lss == LSS_SYSTEM || other_lss == LSS_OTHER) {
 			enum local_subsection this_lss = get_local_subsection(order_data->mod_name, this_node, variant);
 			if (this_lss == LSS_KERNEL) {
-				followup_str = strdup("  (This interface is in the kernel layer.)");
+				followup_str = xstrdup("  (This interface is in the kernel layer.)");
 			} else if (this_lss == LSS_SYSTEM) {
-				followup_str = strdup("  (This interface is in the system layer.)");
+				followup_str = xstrdup("  (This interface is in the system layer.)");
 			} else if (this_lss == LSS_OTHER) {
-				followup_str = strdup("  (This interface is in a layer other than kernel or system.)");
+				followup_str = xstrdup("  (This interface is in a layer other than kernel or system.)");
 			} else if (this_lss == LSS_KERNEL_MOD) {
-				followup_str = strdup("  (This interface is in the kernel module.)");
+				followup_str = xstrdup("  (This interface is in the kernel module.)");
 			}
 			// Otherwise, it's not an interface call and is hopefully obvious to the user what layer its in
 		}
diff --git a/src/parse.y b/src/parse.y
index 9dce0af..4fe1366 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -443,7 +443,7 @@ xperm_item:
 	|
 	NUMBER { $$ = $1; }
 	|
-	DASH { $$ = strdup("-"); }  // TODO: validate usage: enforce two surrounding increasing elements
+	DASH { $$ = xstrdup("-"); }  // TODO: validate usage: enforce two surrounding increasing elements
 	;
 
 string_list:
@@ -759,7 +759,7 @@ mls_level:
 	;
 
 mls_component:
-	STRING { $$ = strdup($1); free($1); }
+	STRING { $$ = xstrdup($1); free($1); }
 	|
 	STRING PERIOD STRING { size_t len = strlen($1) + strlen($3) + 1 /* PERIOD */ + 1 /* NT */;
 				$$ = malloc(len);
@@ -874,7 +874,7 @@ define_expansion:
 maybe_string_comma:
 	STRING COMMA { $$ = $1; }
 	|
-	COMMA { $$ = strdup(""); }
+	COMMA { $$ = xstrdup(""); }
 	;
 
 gen_user:
@@ -1092,7 +1092,7 @@ static void yyerror(const YYLTYPE *locp, __attribute__((unused)) yyscan_t scanne
 
 		struct check_data data;
 		data.mod_name = get_current_module_name();
-		char *copy = strdup(parsing_filename);
+		char *copy = xstrdup(parsing_filename);
 		data.filename = basename(copy);
 		data.flavor = FILE_TE_FILE; // We don't know but it's unused by display_check_result
 
diff --git a/src/parse_fc.c b/src/parse_fc.c
index 3c9d1a5..4f3160f 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -19,6 +19,7 @@
 #include <stdio.h>
 
 #include "parse_fc.h"
+#include "util.h"
 #include "tree.h"
 
 // "gen_context("
@@ -32,7 +33,7 @@ struct fc_entry *parse_fc_line(char *line)
 
 	memset(out, 0, sizeof(struct fc_entry));
 
-	char *orig_line = strdup(line); // If the object class is omitted, we need to revert
+	char *orig_line = xstrdup(line); // If the object class is omitted, we need to revert
 
 	char *pos = strtok(line, whitespace);
 
@@ -40,7 +41,7 @@ struct fc_entry *parse_fc_line(char *line)
 		goto cleanup;
 	}
 
-	out->path = strdup(pos);
+	out->path = xstrdup(pos);
 
 	pos = strtok(NULL, whitespace);
 
@@ -131,7 +132,7 @@ struct fc_entry *parse_fc_line(char *line)
 			strcat(out->context->range, ":");
 			strcat(out->context->range, maybe_c);
 		} else if (maybe_s) {
-			out->context->range = strdup(maybe_s);
+			out->context->range = xstrdup(maybe_s);
 		} else {
 			out->context->range = NULL;
 		}
@@ -172,7 +173,7 @@ struct sel_context *parse_context(char *context_str)
 		goto cleanup;
 	}
 
-	context->user = strdup(pos);
+	context->user = xstrdup(pos);
 
 	// Role
 	pos = strtok(NULL, ":");
@@ -181,7 +182,7 @@ struct sel_context *parse_context(char *context_str)
 		goto cleanup;
 	}
 
-	context->role = strdup(pos);
+	context->role = xstrdup(pos);
 
 	// Type
 	pos = strtok(NULL, ":");
@@ -190,12 +191,12 @@ struct sel_context *parse_context(char *context_str)
 		goto cleanup;
 	}
 
-	context->type = strdup(pos);
+	context->type = xstrdup(pos);
 
 	pos = strtok(NULL, ":");
 
 	if (pos) {
-		context->range = strdup(pos);
+		context->range = xstrdup(pos);
 		if (strtok(NULL, ":")) {
 			goto cleanup;
 		}
diff --git a/src/parse_functions.c b/src/parse_functions.c
index d43ca81..156aaa3 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -29,15 +29,12 @@ char *module_name = NULL;
 enum selint_error insert_header(struct policy_node **cur, const char *mn,
                                 enum header_flavor flavor, unsigned int lineno)
 {
-	struct header_data *data = (struct header_data *)malloc(sizeof(struct header_data));
-	if (!data) {
-		return SELINT_OUT_OF_MEM;
-	}
+	struct header_data *data = (struct header_data *)xmalloc(sizeof(struct header_data));
 
 	memset(data, 0, sizeof(struct header_data));
 
 	data->flavor = flavor;
-	data->module_name = strdup(mn);
+	data->module_name = xstrdup(mn);
 	if (!data->module_name) {
 		free(data);
 		return SELINT_OUT_OF_MEM;
@@ -60,7 +57,7 @@ void set_current_module_name(const char *mn)
 	if (module_name != NULL) {
 		free(module_name);
 	}
-	module_name = strdup(mn);
+	module_name = xstrdup(mn);
 }
 
 char *get_current_module_name()
@@ -114,15 +111,12 @@ enum selint_error insert_declaration(struct policy_node **cur,
 		}
 	}
 
-	struct declaration_data *data = (struct declaration_data *)malloc(sizeof(struct declaration_data));
-	if (!data) {
-		return SELINT_OUT_OF_MEM;
-	}
+	struct declaration_data *data = (struct declaration_data *)xmalloc(sizeof(struct declaration_data));
 
 	memset(data, 0, sizeof(struct declaration_data));
 
 	data->flavor = flavor;
-	data->name = strdup(name);
+	data->name = xstrdup(name);
 	data->attrs = attrs;
 
 	union node_data nd;
@@ -163,7 +157,7 @@ enum selint_error insert_aliases(struct policy_node **cur,
 			insert_into_decl_map(alias->string, mn, flavor);
 		}
 		union node_data nd;
-		nd.str = strdup(alias->string);
+		nd.str = xstrdup(alias->string);
 		enum selint_error ret = insert_policy_node_child(*cur,
 		                                                 NODE_ALIAS,
 		                                                 nd,
@@ -185,7 +179,7 @@ enum selint_error insert_type_alias(struct policy_node **cur, const char *type,
 
 	union node_data nd;
 
-	nd.str = strdup(type);
+	nd.str = xstrdup(type);
 	enum selint_error ret = insert_policy_node_next(*cur,
 	                                                NODE_TYPE_ALIAS,
 	                                                nd,
@@ -252,7 +246,7 @@ enum selint_error insert_xperm_av_rule(struct policy_node **cur,
 	xav_data->sources = sources;
 	xav_data->targets = targets;
 	xav_data->object_classes = object_classes;
-	xav_data->operation = strdup(operation);
+	xav_data->operation = xstrdup(operation);
 	xav_data->perms = perms;
 
 	union node_data nd;
@@ -314,7 +308,7 @@ enum selint_error insert_role_types(struct policy_node **cur, const char *role,
 
 	struct role_types_data *rtyp_data = (struct role_types_data *)malloc(sizeof(struct role_types_data));
 
-	rtyp_data->role = strdup(role);
+	rtyp_data->role = xstrdup(role);
 	rtyp_data->types = types;
 
 	union node_data nd;
@@ -346,9 +340,9 @@ enum selint_error insert_type_transition(struct policy_node **cur,
 	tt_data->sources = sources;
 	tt_data->targets = targets;
 	tt_data->object_classes = object_classes;
-	tt_data->default_type = strdup(default_type);
+	tt_data->default_type = xstrdup(default_type);
 	if (name) {
-		tt_data->name = strdup(name);
+		tt_data->name = xstrdup(name);
 	} else {
 		tt_data->name = NULL;
 	}
@@ -390,7 +384,7 @@ enum selint_error insert_role_transition(struct policy_node **cur,
 	rt_data->sources = sources;
 	rt_data->targets = targets;
 	rt_data->object_classes = object_classes;
-	rt_data->default_role = strdup(default_role);
+	rt_data->default_role = xstrdup(default_role);
 
 	union node_data nd;
 	nd.rt_data = rt_data;
@@ -446,7 +440,7 @@ enum selint_error insert_interface_call(struct policy_node **cur, const char *if
 {
 	struct if_call_data *if_data = malloc(sizeof(struct if_call_data));
 
-	if_data->name = strdup(if_name);
+	if_data->name = xstrdup(if_name);
 	if_data->args = args;
 
 	const char *template_name = get_name_if_in_template(*cur);
@@ -489,7 +483,7 @@ enum selint_error insert_permissive_statement(struct policy_node **cur,
 {
 	union node_data nd;
 
-	nd.str = strdup(domain);
+	nd.str = xstrdup(domain);
 	enum selint_error ret = insert_policy_node_next(*cur,
 	                                                NODE_PERMISSIVE,
 	                                                nd,
@@ -664,7 +658,7 @@ enum selint_error begin_interface_def(struct policy_node **cur,
 	insert_into_ifs_map(name, get_current_module_name());
 
 	union node_data nd;
-	nd.str = strdup(name);
+	nd.str = xstrdup(name);
 
 	return begin_block(cur, flavor, nd, lineno);
 }
@@ -760,7 +754,7 @@ enum selint_error save_command(struct policy_node *cur, const char *comm)
 	}
 	comm += strlen("selint-");
 	if (0 == strncmp("disable:", comm, 8)) {
-		cur->exceptions = strdup(comm + strlen("disable:"));
+		cur->exceptions = xstrdup(comm + strlen("disable:"));
 	} else {
 		return SELINT_PARSE_ERROR;
 	}
@@ -783,14 +777,11 @@ static enum node_flavor attr_to_node_flavor(enum attr_flavor flavor)
 
 static enum selint_error insert_attribute(struct policy_node **cur, enum attr_flavor flavor, const char *type, struct string_list *attrs, unsigned int lineno)
 {
-	struct attribute_data *data = calloc(1, sizeof(struct attribute_data));
-	if (!data) {
-		return SELINT_OUT_OF_MEM;
-	}
+	struct attribute_data *data = check_alloc(calloc(1, sizeof(struct attribute_data)));
 	union node_data nd;
 	nd.at_data = data;
 
-	data->type = strdup(type);
+	data->type = xstrdup(type);
 	data->attrs = attrs;
 	data->flavor = flavor;
 
diff --git a/src/perm_macro.c b/src/perm_macro.c
index 46db881..f070b86 100644
--- a/src/perm_macro.c
+++ b/src/perm_macro.c
@@ -353,7 +353,7 @@ static void load_permission_macro(const char *name, const struct string_list *pe
 	}
 
 	struct perm_macro *tmp = malloc(sizeof(struct perm_macro));
-	tmp->name = strdup(name);
+	tmp->name = xstrdup(name);
 	tmp->mask_raw = mask_raw;
 
 	// first entry
diff --git a/src/runner.c b/src/runner.c
index 0c13a78..48eb09d 100644
--- a/src/runner.c
+++ b/src/runner.c
@@ -35,7 +35,7 @@
 struct policy_node *parse_one_file(const char *filename, enum node_flavor flavor)
 {
 
-	char *copy = strdup(filename);
+	char *copy = xstrdup(filename);
 	char *mod_name = basename(copy);
 	mod_name[strlen(mod_name) - 3] = '\0'; // Remove suffix
 	set_current_module_name(mod_name);
@@ -327,7 +327,7 @@ enum selint_error parse_all_files_in_list(struct policy_file_list *files, enum n
 static void add_interface_template_declarations(const struct policy_file_list *files)
 {
 	for (const struct policy_file_node *file = files->head; file; file = file->next) {
-		char *copy = strdup(file->file->filename);
+		char *copy = xstrdup(file->file->filename);
 		char *mod_name = basename(copy);
 		mod_name[strlen(mod_name) - 3] = '\0'; // Remove suffix
 
@@ -396,11 +396,11 @@ enum selint_error run_all_checks(struct checks *ck, enum file_flavor flavor,
 
 	while (file) {
 		{
-			char *copy = strdup(file->file->filename);
-			data.filename = strdup(basename(copy));
+			char *copy = xstrdup(file->file->filename);
+			data.filename = xstrdup(basename(copy));
 			free(copy);
 		}
-		data.mod_name = strdup(data.filename);
+		data.mod_name = xstrdup(data.filename);
 		data.config_check_data = ccd;
 
 		char *suffix_ptr = strrchr(data.mod_name, '.');
diff --git a/src/startup.c b/src/startup.c
index 2844a34..7d96313 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -251,7 +251,7 @@ IGNORE_CONST_DISCARD_END;
 			file_list_push_back(context_files,
 			                    make_policy_file(file->fts_path,
 			                                     NULL));
-			char *mod_name = strdup(file->fts_name);
+			char *mod_name = xstrdup(file->fts_name);
 			mod_name[file->fts_namelen - 3] = '\0';
 			insert_into_mod_layers_map(mod_name, file->fts_parent->fts_name);
 			free(mod_name);
diff --git a/src/string_list.c b/src/string_list.c
index 78c253c..8c32583 100644
--- a/src/string_list.c
+++ b/src/string_list.c
@@ -19,6 +19,7 @@
 #include <string.h>
 
 #include "string_list.h"
+#include "util.h"
 int str_in_sl(const char *str, const struct string_list *sl)
 {
 
@@ -44,7 +45,7 @@ struct string_list *copy_string_list(const struct string_list *sl)
 	struct string_list *cur = ret;
 
 	while (sl) {
-		cur->string = strdup(sl->string);
+		cur->string = xstrdup(sl->string);
 		cur->has_incorrect_space = sl->has_incorrect_space;
 
 		if (sl->next) {
@@ -61,7 +62,7 @@ struct string_list *copy_string_list(const struct string_list *sl)
 struct string_list *sl_from_str(const char *string)
 {
 	struct string_list *ret = malloc(sizeof(struct string_list));
-	ret->string = strdup(string);
+	ret->string = xstrdup(string);
 	ret->next = NULL;
 	ret->has_incorrect_space = 0;
 
@@ -71,7 +72,7 @@ struct string_list *sl_from_str(const char *string)
 struct string_list *sl_from_strn(const char *string, size_t len)
 {
 	struct string_list *ret = malloc(sizeof(struct string_list));
-	ret->string = strndup(string, len);
+	ret->string = xstrndup(string, len);
 	ret->next = NULL;
 	ret->has_incorrect_space = 0;
 
diff --git a/src/te_checks.c b/src/te_checks.c
index cce2a5a..94700d9 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -620,7 +620,7 @@ struct check_result *check_module_file_name_mismatch(const struct check_data
 static bool starts_with_module_prefix(const char *name)
 {
 	for (const char *prefix = strchr(name, '_'); prefix; prefix = strchr(prefix + 1, '_')) {
-		char *search_mod = strndup(name, (size_t)(prefix - name));
+		char *search_mod = xstrndup(name, (size_t)(prefix - name));
 		if (look_up_in_mods_map(search_mod)) {
 			free(search_mod);
 			return true;
diff --git a/src/template.c b/src/template.c
index cce8386..9e2ef42 100644
--- a/src/template.c
+++ b/src/template.c
@@ -22,6 +22,7 @@
 
 #include "template.h"
 #include "maps.h"
+#include "util.h"
 
 char *replace_m4(const char *orig, const struct string_list *args)
 {
@@ -86,7 +87,7 @@ static char *replace_m4_or_copy(const char *orig, const struct string_list *args
 {
 	char *ret = replace_m4(orig, args);
 
-	return ret ? ret : strdup(orig);
+	return ret ? ret : xstrdup(orig);
 }
 
 struct string_list *replace_m4_list(const struct string_list *replace_with,
@@ -130,7 +131,7 @@ enum selint_error add_template_declarations(const char *template_name,
 	}
 
 	cur = calloc(1, sizeof(struct string_list));
-	cur->string = strdup(template_name);
+	cur->string = xstrdup(template_name);
 	cur->next = parent_temp_names;
 
 	const struct if_call_list *calls =
diff --git a/src/tree.c b/src/tree.c
index 67239bd..de22c67 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -20,6 +20,7 @@
 #include "tree.h"
 #include "maps.h"
 #include "selint_error.h"
+#include "util.h"
 
 enum selint_error insert_policy_node_child(struct policy_node *parent,
                                            enum node_flavor flavor,
@@ -30,10 +31,7 @@ enum selint_error insert_policy_node_child(struct policy_node *parent,
 		return SELINT_BAD_ARG;
 	}
 
-	struct policy_node *to_insert = malloc(sizeof(struct policy_node));
-	if (!to_insert) {
-		return SELINT_OUT_OF_MEM;
-	}
+	struct policy_node *to_insert = xmalloc(sizeof(struct policy_node));
 
 	to_insert->parent = parent;
 	to_insert->next = NULL;
@@ -71,10 +69,7 @@ enum selint_error insert_policy_node_next(struct policy_node *prev,
 		return SELINT_BAD_ARG;
 	}
 
-	struct policy_node *to_insert = malloc(sizeof(struct policy_node));
-	if (!to_insert) {
-		return SELINT_OUT_OF_MEM;
-	}
+	struct policy_node *to_insert = xmalloc(sizeof(struct policy_node));
 
 	prev->next = to_insert;
 
diff --git a/src/util.h b/src/util.h
index 9dcb271..cd7d18e 100644
--- a/src/util.h
+++ b/src/util.h
@@ -18,6 +18,10 @@
 #define UTIL_H
 
 #include <stdbool.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+#include <sysexits.h>
 
 // ignore conversions discarding const specifier, e.g.
 //     const char []     ->  char *
@@ -57,6 +61,40 @@ bool ends_with(const char *str, size_t str_len, const char *suffix, size_t suffi
 ****************************************************/
 char* trim_right(char *str);
 
+/****************************************************
+* Ends the program if an allocation failed.  Going on without the memory would
+* silently change the result of the analysis.
+* ptr - The allocated memory, or NULL.
+* Return the passed pointer, never NULL.
+****************************************************/
+static inline void *check_alloc(void *ptr)
+{
+	if (!ptr) {
+		fputs("selint: out of memory\n", stderr);
+		exit(EX_SOFTWARE);
+	}
+
+	return ptr;
+}
+
+/****************************************************
+* Like malloc(), strdup() and strndup(), but never return NULL.
+****************************************************/
+static inline void *xmalloc(size_t size)
+{
+	return check_alloc(malloc(size));
+}
+
+static inline char *xstrdup(const char *str)
+{
+	return check_alloc(strdup(str));
+}
+
+static inline char *xstrndup(const char *str, size_t n)
+{
+	return check_alloc(strndup(str, n));
+}
+
 /****************************************************
 *
 *   Conventions in refpolicy style policies
-- 
2.43.0


From b466710be1a09cf3fecc0d35939f688c085eb5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:56 +0000
Subject: [PATCH 14/37] fix: layers of context modules were unknown

The same call was put into the section of another layer when the called module
was only context.
---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 4535048..714659e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -534,6 +534,10 @@ int main(int argc, char **argv)
 					file_list_push_back(context_if_files,
 							    make_policy_file(file->fts_path,
 							    NULL));
+					char *mod_name = xstrdup(file->fts_name);
+					mod_name[file->fts_namelen - 3] = '\0';
+					insert_into_mod_layers_map(mod_name, file->fts_parent->fts_name);
+					free(mod_name);
 				}
 			} else if (source_flag
                                    && !modules_conf_path
-- 
2.43.0


From e4dd409fab5016fc42e84a17ab9b2168c666b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 15/37] fix: module status cut off by a read error was used

---
 src/startup.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/startup.c b/src/startup.c
index 7d96313..c84e6af 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -146,6 +146,10 @@ enum selint_error load_modules_source(const char *modules_conf_path)
 	ssize_t len_read = 0;
 	size_t buf_len = 0;
 	while ((len_read = getline(&line, &buf_len, fd)) != -1) {
+		if (ferror(fd)) {
+			// Only the part of the line before the read error
+			break;
+		}
 		if (len_read <= 1 || line[0] == '#') {
 			continue;
 		}
-- 
2.43.0


From c66cda1496a52572dfb70b1c7244a08fde979dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:32 +0000
Subject: [PATCH 16/37] fix: permission macros using themselves overflowed the
 stack

---
 src/perm_macro.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/perm_macro.c b/src/perm_macro.c
index f070b86..917d767 100644
--- a/src/perm_macro.c
+++ b/src/perm_macro.c
@@ -160,7 +160,15 @@ static const struct pm_ltable pm_ltable_common_file[] = {
 unsigned short popcount(mask_t mask);
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended);
 
-static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
+// the macros being expanded, innermost first
+struct macro_chain {
+	const struct string_list *permissions;
+	const struct macro_chain *outer;
+};
+
+static void expand_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct macro_chain *outer);
+
+static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended, const struct macro_chain *outer)
 {
 	for (size_t i = 0; i < (sizeof pm_ltable_common_file / sizeof *pm_ltable_common_file); ++i) {
 		if (0 == strcmp(permission, pm_ltable_common_file[i].string)) {
@@ -172,7 +180,13 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 
 	const struct string_list *macro_perms = look_up_in_permmacros_map(permission);
 	if (macro_perms) {
-		compute_perm_mask(macro_perms, mask_raw, mask_extended);
+		for (const struct macro_chain *cur = outer; cur; cur = cur->outer) {
+			if (cur->permissions == macro_perms) {
+				// A macro using itself adds nothing new
+				return;
+			}
+		}
+		expand_perm_mask(macro_perms, mask_raw, mask_extended, outer);
 		return;
 	}
 
@@ -181,13 +195,20 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 	*mask_extended |= PM_CF__UNCOVERED;
 }
 
-void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
+static void expand_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct macro_chain *outer)
 {
+	const struct macro_chain chain = { permissions, outer };
+
 	for (; permissions; permissions = permissions->next) {
-		str_to_mask(permissions->string, mask_raw, mask_extended);
+		str_to_mask(permissions->string, mask_raw, mask_extended, &chain);
 	}
 }
 
+void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
+{
+	expand_perm_mask(permissions, mask_raw, mask_extended, NULL);
+}
+
 struct string_builder {
 	char *mem;
 	size_t len;
@@ -283,7 +304,7 @@ static char *permission_strings_matched_str(const struct string_list *permission
 
 	for (; permissions; permissions = permissions->next) {
 		mask_t mask_raw = 0, mask_extended = 0;
-		str_to_mask(permissions->string, &mask_raw, &mask_extended);
+		str_to_mask(permissions->string, &mask_raw, &mask_extended, NULL);
 		if ((mask_raw & mask) == mask_raw) {
 			sb_append_str(sb, permissions->string);
 			sb_append_str(sb, " ");
@@ -301,7 +322,7 @@ static unsigned short permission_strings_matched_count(const struct string_list
 
 	for (; permissions; permissions = permissions->next) {
 		mask_t mask_raw = 0, mask_extended = 0;
-		str_to_mask(permissions->string, &mask_raw, &mask_extended);
+		str_to_mask(permissions->string, &mask_raw, &mask_extended, NULL);
 		if ((mask_raw & mask) == mask_raw) {
 			count++;
 		}
-- 
2.43.0


From 334f635d57e8ab7e6122526efcfa6cafb4cc532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 17/37] fix: layers depended on how directories were given

The layer of an interface file was the name fts has for its parent
directory, which is "." when selint is run on the current directory,
and empty for "layer/" or for files given by name, so that C-001
ordered calls differently than for "layer".
---
 src/main.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index 714659e..16fd137 100644
--- a/src/main.c
+++ b/src/main.c
@@ -20,6 +20,9 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fts.h>
+#include <libgen.h>
+#include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <sysexits.h>
 
@@ -113,6 +116,30 @@ static int is_scan_error(const FTSENT *file)
 	return 1;
 }
 
+// Remember the layer of an interface file, i.e. the name of the directory it is in
+static void insert_layer_of_if_file(const FTSENT *file)
+{
+	char *mod_name = xstrdup(file->fts_name);
+	mod_name[file->fts_namelen - 3] = '\0';
+
+	char *dir = NULL;
+	const char *layer = file->fts_parent->fts_name;
+	if (file->fts_level <= FTS_ROOTLEVEL + 1) {
+		// The directory was given on the command line, maybe as ".", "layer/" or
+		// only as a part of the file name, so its name is not to be had from fts
+		char *path = xstrdup(file->fts_accpath);
+		dir = realpath(dirname(path), NULL);
+		free(path);
+		if (dir) {
+			layer = strrchr(dir, '/') + 1;
+		}
+	}
+	insert_into_mod_layers_map(mod_name, layer);
+
+	free(dir);
+	free(mod_name);
+}
+
 #define WARN_ON_INVALID_CHECK_ID(id, desc)\
 	if (!is_valid_check(id)) {\
 		printf("%sWarning%s: %s, %s, is not a valid check id.\n", color_warning(), color_reset(), id, desc);\
@@ -450,10 +477,7 @@ int main(int argc, char **argv)
 			file_list_push_back(if_files,
 			                    make_policy_file(file->fts_path,
 			                                     NULL));
-			char *mod_name = xstrdup(file->fts_name);
-			mod_name[file->fts_namelen - 3] = '\0';
-			insert_into_mod_layers_map(mod_name, file->fts_parent->fts_name);
-			free(mod_name);
+			insert_layer_of_if_file(file);
 		} else if (suffix && !strcmp(suffix, ".fc")) {
 			file_list_push_back(fc_files,
 			                    make_policy_file(file->fts_path,
@@ -534,10 +558,7 @@ int main(int argc, char **argv)
 					file_list_push_back(context_if_files,
 							    make_policy_file(file->fts_path,
 							    NULL));
-					char *mod_name = xstrdup(file->fts_name);
-					mod_name[file->fts_namelen - 3] = '\0';
-					insert_into_mod_layers_map(mod_name, file->fts_parent->fts_name);
-					free(mod_name);
+					insert_layer_of_if_file(file);
 				}
 			} else if (source_flag
                                    && !modules_conf_path
-- 
2.43.0


From c1a82f91617a7b4653b380902588ae0c8195d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 18/37] fix: exception comments on the module header were a
 syntax error

---
 src/parse.y | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.y b/src/parse.y
index 4fe1366..f7e1001 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -224,6 +224,9 @@ selinux_file:
 
 te_policy:
 	header body
+	|
+	header SELINT_COMMAND { save_command(cur, $2); free($2); }
+	body
 	;
 
 comments:
-- 
2.43.0


From 814c6d56fa447040cb09204919dd8b13fda63ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 19/37] fix: exception comments missed parts of their line or
 hit the line before

---
 src/parse.y           |  6 +++---
 src/parse_functions.c | 10 ++++++++++
 src/parse_functions.h |  9 +++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index f7e1001..93e07d2 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -225,7 +225,7 @@ selinux_file:
 te_policy:
 	header body
 	|
-	header SELINT_COMMAND { save_command(cur, $2); free($2); }
+	header SELINT_COMMAND { save_line_command(cur, $2, @1.first_line); free($2); }
 	body
 	;
 
@@ -277,7 +277,7 @@ lines:
 line:
 	bare_line
 	|
-	bare_line SELINT_COMMAND { save_command(cur, $2); free($2); }
+	bare_line SELINT_COMMAND { save_line_command(cur, $2, @1.first_line); free($2); }
 	;
 
 bare_line:
@@ -581,7 +581,7 @@ require_lines:
 require_line:
 	require_bare
 	|
-	require_bare SELINT_COMMAND { save_command(cur, $2); free($2); }
+	require_bare SELINT_COMMAND { save_line_command(cur, $2, @1.first_line); free($2); }
 	;
 
 require_bare:
diff --git a/src/parse_functions.c b/src/parse_functions.c
index 156aaa3..8a639e7 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -762,6 +762,16 @@ enum selint_error save_command(struct policy_node *cur, const char *comm)
 	return SELINT_SUCCESS;
 }
 
+void save_line_command(struct policy_node *cur, const char *comm, unsigned int first_line)
+{
+	// A statement may have been split up into several nodes, or have no node at all
+	for (; cur && cur->lineno >= first_line; cur = cur->prev) {
+		if (!cur->exceptions) {
+			save_command(cur, comm);
+		}
+	}
+}
+
 static enum node_flavor attr_to_node_flavor(enum attr_flavor flavor)
 {
 	switch (flavor) {
diff --git a/src/parse_functions.h b/src/parse_functions.h
index 887cc8a..39fc29e 100644
--- a/src/parse_functions.h
+++ b/src/parse_functions.h
@@ -357,6 +357,15 @@ enum selint_error end_m4_argument(struct policy_node **cur);
 **********************************/
 enum selint_error save_command(struct policy_node *cur, const char *comm);
 
+/**********************************
+* save_line_command
+* Save an selint control command for all nodes of the statement it follows.
+* cur (in) - The current spot in the tree, the last node of the statement
+* comm (in) - What command string was in the comment
+* first_line (in) - The line the statement starts in
+**********************************/
+void save_line_command(struct policy_node *cur, const char *comm, unsigned int first_line);
+
 /**********************************
 * insert_type_attribute
 * Insert a type_attribute node into the tree
-- 
2.43.0


From 995e7f2217deb579a8fc4821fa8e2b31f565427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 20/37] fix: ifdef in a require block was an internal error,
 counted for the wrong check

---
 src/if_checks.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/if_checks.c b/src/if_checks.c
index 6af2785..699856a 100644
--- a/src/if_checks.c
+++ b/src/if_checks.c
@@ -124,8 +124,8 @@ struct check_result *check_unordered_declaration_in_require(const struct
 	const struct declaration_data *prev_decl_data = NULL;
 	for (const struct policy_node *cur = child; cur; cur = cur->next) {
 		if (cur->flavor != NODE_DECL) {
-			return alloc_internal_error(
-				"Non declaration node in require block");
+			// ifdef block
+			continue;
 		}
 
 		const struct declaration_data *decl_data = cur->data.d_data;
-- 
2.43.0


From 86ec443bad1ae169b68be9890f7fa00c2a4bdf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 21/37] fix: an empty check ID was read past its end

---
 src/check_hooks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 57d98bf..ec884b6 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -136,7 +136,7 @@ int is_valid_check(const char *check_str)
 		return 0;
 	}
 
-	if (check_str[1] != '-') {
+	if (check_str[0] == '\0' || check_str[1] != '-') {
 		return 0;
 	}
 
-- 
2.43.0


From 01ce2338bdc638ff72eaa6c6afbdb34b8d223cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 22/37] fix: an empty path crashed the scan

---
 src/main.c    | 12 ++++++++----
 src/startup.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index 16fd137..9589406 100644
--- a/src/main.c
+++ b/src/main.c
@@ -460,7 +460,7 @@ int main(int argc, char **argv)
 
 	FTS *ftsp = fts_open(paths, FTS_PHYSICAL, NULL);
 
-	FTSENT *file = fts_read(ftsp);
+	FTSENT *file = ftsp ? fts_read(ftsp) : NULL;
 
 	char *modules_conf_path = NULL;
 	char *obj_perm_sets_path = NULL;
@@ -534,7 +534,9 @@ int main(int argc, char **argv)
 		scan_errors++;
 	}
 
-	fts_close(ftsp);
+	if (ftsp) {
+		fts_close(ftsp);
+	}
 
 	struct string_list *context_path_node = context_paths;
 
@@ -543,7 +545,7 @@ int main(int argc, char **argv)
 		paths[1] = NULL;
 
 		ftsp = fts_open(paths, FTS_PHYSICAL, NULL);
-		file = fts_read(ftsp);
+		file = ftsp ? fts_read(ftsp) : NULL;
 
 		while (file) {
 			const char *suffix = (file->fts_pathlen > 3 && !is_directory(file)) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
@@ -586,7 +588,9 @@ int main(int argc, char **argv)
 			scan_errors++;
 		}
 
-		fts_close(ftsp);
+		if (ftsp) {
+			fts_close(ftsp);
+		}
 		context_path_node = context_path_node->next;
 	}
 
diff --git a/src/startup.c b/src/startup.c
index c84e6af..60ca90c 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -45,7 +45,7 @@ IGNORE_CONST_DISCARD_BEGIN;
 	FTS *ftsp = fts_open(paths, FTS_PHYSICAL, NULL);
 IGNORE_CONST_DISCARD_END;
 
-	FTSENT *file = fts_read(ftsp);
+	FTSENT *file = ftsp ? fts_read(ftsp) : NULL;
 	int incomplete = 0;
 
 	while (file) {
@@ -72,7 +72,9 @@ IGNORE_CONST_DISCARD_END;
 	if (errno != 0) {
 		incomplete = 1;
 	}
-	fts_close(ftsp);
+	if (ftsp) {
+		fts_close(ftsp);
+	}
 
 	if (incomplete) {
 		// Valid names might be missing, so no name can be called unknown
@@ -248,7 +250,7 @@ IGNORE_CONST_DISCARD_BEGIN;
 IGNORE_CONST_DISCARD_END;
 
 	enum selint_error ret = SELINT_SUCCESS;
-	FTSENT *file = fts_read(ftsp);
+	FTSENT *file = ftsp ? fts_read(ftsp) : NULL;
 	while (file) {
 		const char *suffix = (file->fts_pathlen > 3 && file->fts_info != FTS_D && file->fts_info != FTS_DP) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 		if (suffix && !strcmp(suffix, ".if")) {
@@ -271,7 +273,9 @@ IGNORE_CONST_DISCARD_END;
 		ret = SELINT_IO_ERROR;
 	}
 
-	fts_close(ftsp);
+	if (ftsp) {
+		fts_close(ftsp);
+	}
 	return ret;
 }
 
-- 
2.43.0


From f22fde509049fb9ebe28a272286f0fb6ec34aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 23/37] fix: aliases made of interface arguments were taken for
 declared names

Like declarations, aliases whose name starts with an argument of the
interface ($1_alias_t) are not names of the module.
---
 src/parse_functions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_functions.c b/src/parse_functions.c
index 8a639e7..9750490 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -147,7 +147,9 @@ enum selint_error insert_aliases(struct policy_node **cur,
 		if (temp_name) {
 			insert_decl_into_template_map(temp_name, flavor,
 			                              alias->string);
-		} else {
+		} else if ('$' != alias->string[0]) {
+			// As for declarations, names made of the arguments of an
+			// interface are not known here
 			char *mn = get_current_module_name();
 			if (!mn) {
 				free_string_list(aliases);
-- 
2.43.0


From c4f0fa3a2fc114b5217f69ef7c549628be48f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 24/37] fix: templates called with interface arguments declared
 names made of them

Calling a template in an interface with $1 declared names like $1_t, so
that every other interface using such a name was reported to lack a
require block for it.
---
 src/template.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/template.c b/src/template.c
index 9e2ef42..8a4f1c6 100644
--- a/src/template.c
+++ b/src/template.c
@@ -161,7 +161,10 @@ enum selint_error add_template_declarations(const char *template_name,
 			free(cur);
 			return SELINT_M4_SUB_FAILURE;
 		}
-		insert_into_decl_map(new_decl, mod_name, decls->decl->flavor);
+		// Names made of the arguments of an interface are not known
+		if ('$' != new_decl[0]) {
+			insert_into_decl_map(new_decl, mod_name, decls->decl->flavor);
+		}
 		free(new_decl);
 		decls = decls->next;
 	}
-- 
2.43.0


From 53395da44260a13ce6d8ebdb8019406caca035dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 25/37] fix: freeing files with several 100000 statements
 overflowed the stack

free_policy_node called itself for every following node.
---
 src/tree.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index de22c67..52a63a7 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -407,8 +407,15 @@ enum selint_error free_policy_node(struct policy_node *to_free)
 	free_policy_node(to_free->first_child);
 	to_free->first_child = NULL;
 
-	free_policy_node(to_free->next);
+	// One by one, a file can have more nodes than there is stack for calls
+	struct policy_node *next = to_free->next;
 	to_free->next = NULL;
+	while (next) {
+		struct policy_node *cur = next;
+		next = cur->next;
+		cur->next = NULL;
+		free_policy_node(cur);
+	}
 
 	to_free->prev = NULL;
 
-- 
2.43.0


From 327f0b29b4f2a35ae4bf085198ad041b4b8f4979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 26/37] fix: repeated permission macros leaked their
 permissions

---
 src/maps.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maps.c b/src/maps.c
index 2f641de..bca5fc8 100644
--- a/src/maps.c
+++ b/src/maps.c
@@ -499,6 +499,9 @@ void insert_into_permmacros_map(const char *name, struct string_list *permission
 		perm_macro->val = permissions;
 		HASH_ADD_KEYPTR(hh_permmacros, permmacros_map, perm_macro->key, strlen(perm_macro->key),
 		                perm_macro);
+	} else {
+		// Keep the first definition
+		free_string_list(permissions);
 	}
 }
 
-- 
2.43.0


From 144dd510d2919392a6617874e81f61a1ae8d8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 27/37] fix: with several support files of a kind the scan
 order decided which was used

---
 src/main.c | 110 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 77 insertions(+), 33 deletions(-)

diff --git a/src/main.c b/src/main.c
index 9589406..2f0995c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -116,6 +116,46 @@ static int is_scan_error(const FTSENT *file)
 	return 1;
 }
 
+// A file with support knowledge: modules.conf, obj_perm_sets.spt or access_vectors
+struct support_file {
+	char *path;
+	char *canonical;
+};
+
+// If there are several of a kind take the first by its canonical path, as the
+// order of the scan is arbitrary.  Returns the number of errors.
+static int choose_support_file(struct support_file *chosen, const FTSENT *file)
+{
+	char *path = xstrdup(file->fts_accpath);
+	char *dir = realpath(dirname(path), NULL);
+	free(path);
+	if (!dir) {
+		printf("%sError%s: Failed to scan %s: %s\n", color_error(), color_reset(), file->fts_path, strerror(errno));
+		return 1;
+	}
+
+	char *canonical = malloc(strlen(dir) + 1 + file->fts_namelen + 1);
+	sprintf(canonical, "%s/%s", dir, file->fts_name);
+	free(dir);
+
+	if (chosen->path && strcmp(chosen->canonical, canonical) <= 0) {
+		free(canonical);
+		return 0;
+	}
+
+	free(chosen->path);
+	free(chosen->canonical);
+	chosen->path = xstrdup(file->fts_path);
+	chosen->canonical = canonical;
+	return 0;
+}
+
+static void free_support_file(struct support_file *file)
+{
+	free(file->path);
+	free(file->canonical);
+}
+
 // Remember the layer of an interface file, i.e. the name of the directory it is in
 static void insert_layer_of_if_file(const FTSENT *file)
 {
@@ -462,9 +502,9 @@ int main(int argc, char **argv)
 
 	FTSENT *file = ftsp ? fts_read(ftsp) : NULL;
 
-	char *modules_conf_path = NULL;
-	char *obj_perm_sets_path = NULL;
-	char *access_vector_path = NULL;
+	struct support_file modules_conf = { NULL, NULL };
+	struct support_file obj_perm_sets = { NULL, NULL };
+	struct support_file access_vectors = { NULL, NULL };
 
 	while (file) {
 		const char *suffix = (file->fts_pathlen > 3 && !is_directory(file)) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
@@ -486,17 +526,17 @@ int main(int argc, char **argv)
 		           && !is_directory(file)
 		           && !strcmp(file->fts_name, "modules.conf")) {
 			// TODO: Make modules.conf name configurable
-			modules_conf_path = xstrdup(file->fts_path);
+			scan_errors += choose_support_file(&modules_conf, file);
 		} else if (source_flag
 		           && !is_directory(file)
 		           && !strcmp(file->fts_name, "obj_perm_sets.spt")) {
 			// TODO: Make obj_perm_sets.spt name configurable
-			obj_perm_sets_path = xstrdup(file->fts_path);
+			scan_errors += choose_support_file(&obj_perm_sets, file);
 		} else if (source_flag
 		           && !is_directory(file)
 		           && !strcmp(file->fts_name, "access_vectors")) {
 			// TODO: Make access_vectors name configurable
-			access_vector_path = xstrdup(file->fts_path);
+			scan_errors += choose_support_file(&access_vectors, file);
 		} else if (is_scan_error(file)) {
 			scan_errors++;
 		} else {
@@ -538,6 +578,10 @@ int main(int argc, char **argv)
 		fts_close(ftsp);
 	}
 
+	const int scanned_modules_conf = modules_conf.path != NULL;
+	const int scanned_obj_perm_sets = obj_perm_sets.path != NULL;
+	const int scanned_access_vectors = access_vectors.path != NULL;
+
 	struct string_list *context_path_node = context_paths;
 
 	while (context_path_node) {
@@ -563,20 +607,20 @@ int main(int argc, char **argv)
 					insert_layer_of_if_file(file);
 				}
 			} else if (source_flag
-                                   && !modules_conf_path
+                                   && !scanned_modules_conf
                                    && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "modules.conf")) {
-				modules_conf_path = xstrdup(file->fts_path);
+				scan_errors += choose_support_file(&modules_conf, file);
 			} else if (source_flag
-                                   && !obj_perm_sets_path
+                                   && !scanned_obj_perm_sets
                                    && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "obj_perm_sets.spt")) {
-				obj_perm_sets_path = xstrdup(file->fts_path);
+				scan_errors += choose_support_file(&obj_perm_sets, file);
 			} else if (source_flag
-                                   && !access_vector_path
+                                   && !scanned_access_vectors
                                    && !is_directory(file)
                                    && 0 == strcmp(file->fts_name, "access_vectors")) {
-				access_vector_path = xstrdup(file->fts_path);
+				scan_errors += choose_support_file(&access_vectors, file);
 			} else if (is_scan_error(file)) {
 				scan_errors++;
 			}
@@ -604,46 +648,46 @@ int main(int argc, char **argv)
 		free_file_list(fc_files);
 		free_file_list(context_te_files);
 		free_file_list(context_if_files);
-		free(obj_perm_sets_path);
-		free(access_vector_path);
-		free(modules_conf_path);
+		free_support_file(&obj_perm_sets);
+		free_support_file(&access_vectors);
+		free_support_file(&modules_conf);
 		return EX_SOFTWARE;
 	}
 
 	// Load object classes and permissions
 	if (source_flag) {
-		if (access_vector_path) {
-			enum selint_error res = load_access_vectors_source(access_vector_path);
+		if (access_vectors.path) {
+			enum selint_error res = load_access_vectors_source(access_vectors.path);
 			if (res != SELINT_SUCCESS) {
-				printf("%sWarning%s: Failed to parse access_vectors from %s: %d\n", color_warning(), color_reset(), access_vector_path, res);
+				printf("%sWarning%s: Failed to parse access_vectors from %s: %d\n", color_warning(), color_reset(), access_vectors.path, res);
 			} else {
-				print_if_verbose("Loaded classes and permissions from %s\n", access_vector_path);
+				print_if_verbose("Loaded classes and permissions from %s\n", access_vectors.path);
 			}
 		} else {
 			printf("%sWarning%s: Failed to locate access_vectors file.\n", color_warning(), color_reset());
 		}
 
-		if (modules_conf_path) {
+		if (modules_conf.path) {
 			enum selint_error res =
-				load_modules_source(modules_conf_path);
+				load_modules_source(modules_conf.path);
 			if (res != SELINT_SUCCESS) {
-				printf("%sWarning%s: Failed to load modules from %s: %d\n", color_warning(), color_reset(), modules_conf_path, res);
+				printf("%sWarning%s: Failed to load modules from %s: %d\n", color_warning(), color_reset(), modules_conf.path, res);
 			} else {
 				print_if_verbose("Loaded modules from %s\n",
-				                 modules_conf_path);
+				                 modules_conf.path);
 			}
 		} else {
 			printf("%sWarning%s: Failed to locate modules.conf file.\n", color_warning(), color_reset());
 		}
 
-		if (obj_perm_sets_path) {
+		if (obj_perm_sets.path) {
 			enum selint_error res =
-				load_obj_perm_sets_source(obj_perm_sets_path);
+				load_obj_perm_sets_source(obj_perm_sets.path);
 			if (res != SELINT_SUCCESS) {
-				printf("%sWarning%s: Failed to permission and class set macros from %s: %d\n", color_warning(), color_reset(), obj_perm_sets_path, res);
+				printf("%sWarning%s: Failed to permission and class set macros from %s: %d\n", color_warning(), color_reset(), obj_perm_sets.path, res);
 			} else {
 				print_if_verbose("Loaded permission and class set macros from %s\n",
-				                 obj_perm_sets_path);
+				                 obj_perm_sets.path);
 			}
 		} else {
 			printf("%sWarning%s: Failed to locate obj_perm_sets.spt file.\n", color_warning(), color_reset());
@@ -683,15 +727,15 @@ int main(int argc, char **argv)
 		free_file_list(fc_files);
 		free_file_list(context_te_files);
 		free_file_list(context_if_files);
-		free(obj_perm_sets_path);
-		free(access_vector_path);
-		free(modules_conf_path);
+		free_support_file(&obj_perm_sets);
+		free_support_file(&access_vectors);
+		free_support_file(&modules_conf);
 		return EX_CONFIG;
 	}
 
-	free(obj_perm_sets_path);
-	free(access_vector_path);
-	free(modules_conf_path);
+	free_support_file(&obj_perm_sets);
+	free_support_file(&access_vectors);
+	free_support_file(&modules_conf);
 
 	enum selint_error res = run_analysis(ck, te_files, if_files, fc_files, context_te_files, context_if_files, custom_fc_macros, &ccd);
 	switch (res) {
-- 
2.43.0


From c46f6930e71f013d0f1065df528b225a2f09905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 28/37] fix: the scan order decided which module a repeated
 name belonged to

---
 src/maps.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/maps.c b/src/maps.c
index bca5fc8..a00caf8 100644
--- a/src/maps.c
+++ b/src/maps.c
@@ -44,6 +44,17 @@ static struct bool_hash_elem *role_if_map = NULL;
 static struct sl_hash_elem *permmacros_map = NULL;
 static struct template_hash_elem *template_map = NULL;
 
+// A name several modules declare belongs to the first of them in alphabetical
+// order, because the order in which their files are scanned must not matter.
+// Values like "__assumed__" are not names of modules.
+static void keep_first_module(struct hash_elem *elem, const char *mod_name)
+{
+	if (0 != strncmp(elem->val, "__", 2) && strcmp(mod_name, elem->val) < 0) {
+		free(elem->val);
+		elem->val = xstrdup(mod_name);
+	}
+}
+
 no_sanitize_unsigned_integer_
 static struct hash_elem *look_up_hash_elem(const char *name, enum decl_flavor flavor)
 {
@@ -138,7 +149,10 @@ void insert_into_decl_map(const char *name, const char *module_name,
 			free(decl);
 			return;
 		}
-	}       //TODO: else report error?
+	} else {
+		//TODO: report error?
+		keep_first_module(decl, module_name);
+	}
 }
 
 const char *look_up_in_decl_map(const char *name, enum decl_flavor flavor)
@@ -198,6 +212,8 @@ void insert_into_mod_layers_map(const char *mod_name, const char *layer)
 		mod->val = xstrdup(layer);
 		HASH_ADD_KEYPTR(hh_mod_layers, mod_layers_map, mod->key, strlen(mod->key),
 		                mod);
+	} else {
+		keep_first_module(mod, layer);
 	}
 
 }
@@ -230,6 +246,8 @@ void insert_into_ifs_map(const char *if_name, const char *mod_name)
 		if_call->val = xstrdup(mod_name);
 		HASH_ADD_KEYPTR(hh_ifs, ifs_map, if_call->key,
 		                strlen(if_call->key), if_call);
+	} else {
+		keep_first_module(if_call, mod_name);
 	}
 }
 
-- 
2.43.0


From c75397af08b2aab69f4c3208dff5c6234c699e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 29/37] fix: the end of the line was taken for a part of file
 contexts without range

---
 src/parse_fc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 4f3160f..2fe2e78 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -14,6 +14,7 @@
 * limitations under the License.
 */
 
+#include <ctype.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -33,6 +34,12 @@ struct fc_entry *parse_fc_line(char *line)
 
 	memset(out, 0, sizeof(struct fc_entry));
 
+	// The newline and blanks before it are not part of the context
+	size_t len = strlen(line);
+	while (len > 0 && isspace((unsigned char)line[len - 1])) {
+		line[--len] = '\0';
+	}
+
 	char *orig_line = xstrdup(line); // If the object class is omitted, we need to revert
 
 	char *pos = strtok(line, whitespace);
@@ -136,8 +143,7 @@ struct fc_entry *parse_fc_line(char *line)
 		} else {
 			out->context->range = NULL;
 		}
-	} else if (strcmp("<<none>>\n", pos) == 0
-	           || strcmp("<<none>>\r\n", pos) == 0) {
+	} else if (strcmp("<<none>>", pos) == 0) {
 		out->context = NULL;
 	} else {
 		out->context = parse_context(pos);
-- 
2.43.0


From a9e93b862f1d64d40548706f706032f8125eb2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 30/37] fix: a comment at the end of a file without a final
 newline was a syntax error

---
 src/lex.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index ee16ffa..9acc5ac 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -177,8 +177,8 @@ userdebug_or_eng { return USERDEBUG_OR_ENG; }
 \!\= { return NOT_EQUAL; }
 \! { return NOT; }
 \=\= { return EQUAL; }
-\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*$ { yylval->string = xstrdup(yytext); return SELINT_COMMAND; }
-\#.*$ { return COMMENT; }
-dnl(.*)?$ ; /* skip m4 comment lines */
+\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)* { yylval->string = xstrdup(yytext); return SELINT_COMMAND; }
+\#.* { return COMMENT; }
+dnl.* ; /* skip m4 comment lines */
 [ \t\n\r] ; /* normally skip whitespace */
 . { yylval->symbol = *yytext; return UNKNOWN_TOKEN; }
-- 
2.43.0


From ed1337ec16660613ce18c90910bdb8b006c08855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 31/37] fix: free the range of a context before the one of
 gen_context() replaces it

A file context such as gen_context(u:r:t:s0,s0) leaked the range of its
first argument, once per line.
---
 src/parse_fc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 2fe2e78..a94b12a 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -132,6 +132,7 @@ struct fc_entry *parse_fc_line(char *line)
 			goto cleanup;
 		}
 		out->context->has_gen_context = 1;
+		free(out->context->range);
 		if (maybe_c) {
 			out->context->range =
 				malloc(strlen(maybe_s) + 1 + strlen(maybe_c) + 1);
-- 
2.43.0


From 9985a6a444b6bfeeeb58e5578dfefa754f2dad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 32/37] fix: do not let the scan order decide which generated
 file the note on S-002 names

The note named the first of base.fc, all_mods.fc and *.mod.fc files the
scan came across, so that the report depended on the order of directory
entries and arguments.
---
 src/fc_checks.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fc_checks.c b/src/fc_checks.c
index 5d0f031..a629b38 100644
--- a/src/fc_checks.c
+++ b/src/fc_checks.c
@@ -50,9 +50,9 @@ struct check_result *check_file_context_types_in_mod(const struct check_data
 		    0 == strcmp("all_mods.fc", data->filename) ||
 		    ends_with(data->filename, strlen(data->filename), ".mod.fc", strlen(".mod.fc"))) {
 			if (!notified) {
-				printf("%sNote%s: Check S-002 is not performed against generated filecontext files (e.g. %s).\n"\
+				printf("%sNote%s: Check S-002 is not performed against generated filecontext files (base.fc, all_mods.fc and *.mod.fc).\n"\
 				       "      This can be disabled with the configuration setting \"skip_checking_generated_fcs\".\n",
-				    color_note(), color_reset(), data->filename);
+				    color_note(), color_reset());
 				notified = true;
 			}
 			return NULL;
-- 
2.43.0


From e13debbc065c29aa9af594990fd5c70eedaa9a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 33/37] fix: C-001: take the section of a type_transition from
 its source types

The section was read through the wrong member of the node data, so it was
the first target type's section the rule was expected in.
---
 src/ordering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index 5567fe5..3766c13 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -207,7 +207,7 @@ const char *get_section(const struct policy_node *node)
 		// from an ordering standpoint?
 		// The case of multiple source types is weird.  For now
 		// just using the first one seems fine.
-		return node->data.av_data->sources->string;
+		return node->data.tt_data->sources->string;
 	case NODE_RT_RULE:
 		return SECTION_NON_ORDERED;
 	case NODE_ROLE_ALLOW:
-- 
2.43.0


From cd361d1252d3e089425c3137e6381cb5a727b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 34/37] fix: C-006: without a configuration file, use the
 default order of flavors

The order was left zeroed, so that types had to come first and everything
else was compared by name, whatever its flavor.
---
 src/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 2f0995c..7c6dde7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -428,7 +428,11 @@ int main(int argc, char **argv)
 		}
 	}
 
-	struct config_check_data ccd = { ORDER_LAX, {}, true, true, NULL };
+	struct config_check_data ccd = {
+		ORDER_LAX,
+		{ DECL_BOOL, DECL_CLASS, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_ATTRIBUTE, DECL_TYPE },
+		true, true, NULL
+	};
 
 	if (config_filename) {
 		char cfg_severity;
-- 
2.43.0


From b9f84086102ded67db641fe3bc8420c69022bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 35/37] fix: selint.conf: name the order ordering_requires
 really defaults to

---
 selint.conf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/selint.conf b/selint.conf
index 83d455b..eaf1e92 100644
--- a/selint.conf
+++ b/selint.conf
@@ -57,7 +57,7 @@ ordering_rules = "refpolicy-lax"
 # The following six flavors must each be used exactly once:
 #   attribute, attribute_role, bool, class, role, type
 # If unset, this defaults to the following order:
-#ordering_requires = { bool, role, attribute_role, attribute, type, class }
+#ordering_requires = { bool, class, role, attribute_role, attribute, type }
 ordering_requires = { bool, attribute, attribute_role, type, class, role }
 
 # Whether to check the order (alphabetically) of requires of the same flavor when running check C-006
-- 
2.43.0


From 4ec0542d07732c213ce1b97a9e5453304e07d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 36/37] fix: C-001: a line that conflicts with no line in order
 is in order

---
 src/ordering.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/ordering.c b/src/ordering.c
index 3766c13..d3a46ae 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -69,6 +69,31 @@ struct ordering_metadata *prepare_ordering_metadata(const struct check_data *dat
 	return ret;
 }
 
+// Is there a node in order that the node at index should not be before or after?
+static bool conflicts_with_sequence(const struct ordering_metadata *ordering,
+                                    int index,
+                                    int node_count,
+                                    enum order_difference_reason (*comp_func)(const struct ordering_metadata *o,
+                                                                              const struct policy_node *first,
+                                                                              const struct policy_node *second))
+{
+	const struct order_node *nodes = ordering->nodes;
+
+	for (int distance = 1; distance <= index || index + distance < node_count; distance++) {
+		if (distance <= index &&
+		    nodes[index - distance].in_order &&
+		    comp_func(ordering, nodes[index - distance].node, nodes[index].node) < 0) {
+			return true;
+		}
+		if (index + distance < node_count &&
+		    nodes[index + distance].in_order &&
+		    comp_func(ordering, nodes[index].node, nodes[index + distance].node) < 0) {
+			return true;
+		}
+	}
+	return false;
+}
+
 void calculate_longest_increasing_subsequence(const struct policy_node *head,
                                               struct ordering_metadata *ordering,
                                               enum order_difference_reason (*comp_func)(const struct ordering_metadata *o,
@@ -117,6 +142,8 @@ void calculate_longest_increasing_subsequence(const struct policy_node *head,
 		cur = ordering_next(cur);
 	}
 
+	const int node_count = index;
+
 	// Mark LIS elements
 	index = nodes[longest_seq - 1].end_of_seq;
 	while (index != -1) {
@@ -124,6 +151,14 @@ void calculate_longest_increasing_subsequence(const struct policy_node *head,
 		index = nodes[index].seq_prev;
 	}
 
+	// The comparison is not transitive for all nodes, so a node might not have
+	// become part of the sequence although it does not conflict with any of it
+	for (index = 0; index < node_count; index++) {
+		if (!nodes[index].in_order && !conflicts_with_sequence(ordering, index, node_count, comp_func)) {
+			nodes[index].in_order = 1;
+		}
+	}
+
 #ifdef DEBUG_INFO
 	for (int i=0; i< ordering->order_node_len; i++) {
 		if(nodes[i].node) {
-- 
2.43.0


From d3338b1f2245d528f96c68c4cae7599b32ecebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 37/37] fix: S-010: expand every permission macro once

A macro that uses another one twice doubled the work at every level, and
macros using each other were expanded along every path, so that a few dozen
declarations kept selint busy for hours.  Remember what was expanded.
---
 src/perm_macro.c | 59 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/perm_macro.c b/src/perm_macro.c
index 917d767..bebd316 100644
--- a/src/perm_macro.c
+++ b/src/perm_macro.c
@@ -160,15 +160,24 @@ static const struct pm_ltable pm_ltable_common_file[] = {
 unsigned short popcount(mask_t mask);
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended);
 
-// the macros being expanded, innermost first
-struct macro_chain {
+// a list of permissions being expanded, and the ones found in it, each once
+struct macro_queue {
 	const struct string_list *permissions;
-	const struct macro_chain *outer;
+	struct macro_queue *next;
 };
 
-static void expand_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct macro_chain *outer);
+static void enqueue_macro(struct macro_queue *queue, const struct string_list *permissions)
+{
+	for (; queue->permissions != permissions; queue = queue->next) {
+		if (queue->next == NULL) {
+			queue->next = malloc(sizeof(struct macro_queue));
+			queue->next->permissions = permissions;
+			queue->next->next = NULL;
+		}
+	}
+}
 
-static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended, const struct macro_chain *outer)
+static void perm_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended, struct macro_queue *queue)
 {
 	for (size_t i = 0; i < (sizeof pm_ltable_common_file / sizeof *pm_ltable_common_file); ++i) {
 		if (0 == strcmp(permission, pm_ltable_common_file[i].string)) {
@@ -180,13 +189,7 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 
 	const struct string_list *macro_perms = look_up_in_permmacros_map(permission);
 	if (macro_perms) {
-		for (const struct macro_chain *cur = outer; cur; cur = cur->outer) {
-			if (cur->permissions == macro_perms) {
-				// A macro using itself adds nothing new
-				return;
-			}
-		}
-		expand_perm_mask(macro_perms, mask_raw, mask_extended, outer);
+		enqueue_macro(queue, macro_perms);
 		return;
 	}
 
@@ -195,18 +198,36 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 	*mask_extended |= PM_CF__UNCOVERED;
 }
 
-static void expand_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct macro_chain *outer)
+// A macro used again, by itself or by another one, adds nothing new, so every
+// macro is expanded once.
+static void drain_macro_queue(struct macro_queue *queue, mask_t *mask_raw, mask_t *mask_extended)
 {
-	const struct macro_chain chain = { permissions, outer };
+	for (struct macro_queue *cur = queue; cur; cur = cur->next) {
+		for (const struct string_list *perm = cur->permissions; perm; perm = perm->next) {
+			perm_to_mask(perm->string, mask_raw, mask_extended, queue);
+		}
+	}
 
-	for (; permissions; permissions = permissions->next) {
-		str_to_mask(permissions->string, mask_raw, mask_extended, &chain);
+	while (queue->next) {
+		struct macro_queue *done = queue->next;
+		queue->next = done->next;
+		free(done);
 	}
 }
 
+static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
+{
+	struct macro_queue queue = { NULL, NULL };
+
+	perm_to_mask(permission, mask_raw, mask_extended, &queue);
+	drain_macro_queue(&queue, mask_raw, mask_extended);
+}
+
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
 {
-	expand_perm_mask(permissions, mask_raw, mask_extended, NULL);
+	struct macro_queue queue = { permissions, NULL };
+
+	drain_macro_queue(&queue, mask_raw, mask_extended);
 }
 
 struct string_builder {
@@ -304,7 +325,7 @@ static char *permission_strings_matched_str(const struct string_list *permission
 
 	for (; permissions; permissions = permissions->next) {
 		mask_t mask_raw = 0, mask_extended = 0;
-		str_to_mask(permissions->string, &mask_raw, &mask_extended, NULL);
+		str_to_mask(permissions->string, &mask_raw, &mask_extended);
 		if ((mask_raw & mask) == mask_raw) {
 			sb_append_str(sb, permissions->string);
 			sb_append_str(sb, " ");
@@ -322,7 +343,7 @@ static unsigned short permission_strings_matched_count(const struct string_list
 
 	for (; permissions; permissions = permissions->next) {
 		mask_t mask_raw = 0, mask_extended = 0;
-		str_to_mask(permissions->string, &mask_raw, &mask_extended, NULL);
+		str_to_mask(permissions->string, &mask_raw, &mask_extended);
 		if ((mask_raw & mask) == mask_raw) {
 			count++;
 		}
-- 
2.43.0

