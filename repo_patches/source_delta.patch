From c6f41ea9056b3e98da5bd424e1d89bb9562f2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:24 +0000
Subject: [PATCH 01/18] fix: report a source file that cannot be read instead
 of compiling garbage or calling it empty

---
 skull/common/io.c | 44 +++++++++++++++++++++++++++++---------------
 skull/real_main.c |  6 ++++++
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/skull/common/io.c b/skull/common/io.c
index d1af053..f827871 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -8,38 +8,52 @@
 
 #include "skull/common/io.h"
 
-#define CHECK_ERRNO(msg) \
-	if (errno) { \
-		perror((msg)); \
-		return NULL; \
-	}
-
 /*
 Return string read from file descriptor `fd`.
+
+Return `NULL` if the file is empty, or if it could not be read. In the latter
+case the error is printed, and `errno` is non-zero.
 */
 char *file_to_string(FILE *fd) {
-	errno = 0;
-	fseek(fd, 0, SEEK_END);
-	CHECK_ERRNO("fseek");
+	if (fseek(fd, 0, SEEK_END)) {
+		perror("fseek");
+		return NULL;
+	}
 
 	const long len = ftell(fd);
-	CHECK_ERRNO("ftell");
+	if (len < 0) {
+		perror("ftell");
+		return NULL;
+	}
 
-	if (!len) return NULL;
+	if (!len) {
+		errno = 0;
+		return NULL;
+	}
 
-	errno = 0;
-	fseek(fd, 0, SEEK_SET);
-	CHECK_ERRNO("fseek");
+	if (fseek(fd, 0, SEEK_SET)) {
+		perror("fseek");
+		return NULL;
+	}
 
 	char *str = Malloc((size_t)len + 1);
+
 	const size_t read = fread(str, 1, (size_t)len, fd);
 
+	if (ferror(fd)) {
+		perror("fread");
+		free(str);
+		errno = EIO;
+		return NULL;
+	}
+
 	if (!read) {
 		free(str);
+		errno = 0;
 		return NULL;
 	}
 
-	str[len] = '\0';
+	str[read] = '\0';
 	return str;
 }
 
diff --git a/skull/real_main.c b/skull/real_main.c
index 0ff9345..e701e22 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
 
@@ -52,6 +53,11 @@ static int compile_file(char *filename) {
 
 	char *file_contents = file_to_string(f);
 	if (!file_contents) {
+		if (errno) {
+			fclose(f);
+			return 1;
+		}
+
 		bool err = false;
 		FMT_WARN(err, WARN_FILE_EMPTY, {0});
 
-- 
2.43.0


From 530128cdcae1c18c05396516ce563162296f4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:09 +0000
Subject: [PATCH 02/18] fix: C backend reports an output file it cannot open or
 write completely

---
 skull/codegen/c/write.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 9ebfc4a..951d387 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -24,16 +24,20 @@ static void print_main_shim(FILE *, const char *, const SkullStateC *);
 
 /*
 Write C code for given `filename` to new file, with ".sk" replaced with ".c".
+
+Return `true` if an error occurs.
 */
 bool write_file_c(const char *filename, SkullStateC *state) {
 	char *out_filename = get_new_filename(filename, "c");
 
-	FILE *f = strcmp(out_filename, "-") == 0 ?
-		stdout :
-		open_file(out_filename, false);
+	const bool is_stdout = strcmp(out_filename, "-") == 0;
+
+	FILE *f = is_stdout ? stdout : open_file(out_filename, false);
 
 	free(out_filename);
 
+	if (!f) return true;
+
 	print_headers(f);
 	print_builtins(f, state);
 	print_globals(f, state);
@@ -42,7 +46,19 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	return false;
+	errno = 0;
+	bool err = fflush(f) || ferror(f);
+	if (!is_stdout && fclose(f)) err = true;
+
+	if (err) {
+		fprintf(
+			stderr,
+			"skull: could not write output: %s\n",
+			strerror(errno ? errno : EIO)
+		);
+	}
+
+	return err;
 }
 
 static void print_headers(FILE *f) {
-- 
2.43.0


From 4fabd5fb3b61790159c3361658886be9c213a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:09 +0000
Subject: [PATCH 03/18] fix: -q only suppresses warnings, as documented

---
 skull/common/errors.c | 45 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/skull/common/errors.c b/skull/common/errors.c
index 908f795..c9bcdd6 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -15,7 +15,7 @@
 
 static char *fmt_message_internal(ErrorType, ErrorCode, Message []);
 static void message_stringify(Message *const);
-static void write_error_msg(char *);
+static void write_error_msgs(void);
 static char *get_location_str(const Message *);
 static char *get_error_msg(const Message[], size_t, ErrorCode);
 
@@ -29,6 +29,9 @@ const char *fatal_msg = "%s: Compilation error: ";
 
 Vector *error_msgs;
 
+// the messages in `error_msgs` that are warnings, in the same order
+static Vector *warning_msgs;
+
 static const char *errors[] = {
 	[ERR_UNEXPECTED_TOKEN] = "unexpected token: \"%s\"",
 	[ERR_EOF_NO_BRACKET] = "Reached EOF, expected closing bracket",
@@ -114,8 +117,15 @@ static const unsigned MAX_ERRORS = sizeof(errors) / sizeof(char *);
 void fmt_message(ErrorType type, ErrorCode id, Message msgs[]) {
 	char *msg = fmt_message_internal(type, id, msgs);
 
-	if (!error_msgs) error_msgs = make_vector();
+	if (!error_msgs) {
+		error_msgs = make_vector();
+
+		if (warning_msgs) free_vector(warning_msgs, NULL);
+		warning_msgs = make_vector();
+	}
+
 	vector_push(error_msgs, msg);
+	if (type == ERROR_WARN) vector_push(warning_msgs, msg);
 }
 
 /*
@@ -246,10 +256,9 @@ void message_stringify(Message *const msg) {
 }
 
 void write_and_free_errors(void) {
-	if (error_msgs) {
-		free_vector(error_msgs, (void(*)(void *))write_error_msg);
-		error_msgs = NULL;
-	}
+	if (error_msgs) write_error_msgs();
+
+	free_errors();
 }
 
 void free_errors(void) {
@@ -257,9 +266,27 @@ void free_errors(void) {
 		free_vector(error_msgs, free);
 		error_msgs = NULL;
 	}
+
+	if (warning_msgs) {
+		free_vector(warning_msgs, NULL);
+		warning_msgs = NULL;
+	}
 }
 
-static void write_error_msg(char *msg) {
-	if (!BUILD_DATA.quiet) fprintf(stderr, "%s", msg);
-	free(msg);
+/*
+Write all messages, skipping the warnings if they are suppressed ("-q").
+*/
+static void write_error_msgs(void) {
+	size_t warnings = 0;
+
+	for (size_t i = 0; i < error_msgs->length; i++) {
+		const char *msg = vector_at(error_msgs, i);
+
+		if (msg == vector_at(warning_msgs, warnings)) {
+			warnings++;
+			if (BUILD_DATA.quiet) continue;
+		}
+
+		fprintf(stderr, "%s", msg);
+	}
 }
-- 
2.43.0


From 69946d8cd4e5f45c77e7450cfce17f65686b1a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:18 +0000
Subject: [PATCH 04/18] fix: wait for the linker itself, and treat a killed or
 unknown linker as a failure

---
 skull/codegen/llvm/write.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 3d5367f..1cd3a8a 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -207,24 +207,36 @@ static PhaseResult emit_native_binary(void) {
 }
 
 static int sh(char *argv[]) {
-	errno = 0;
 	const pid_t pid = fork();
-	if (errno) {
+	if (pid < 0) {
 		perror("fork");
 		return 1;
 	}
 
 	if (pid == 0) {
-		errno = 0;
 		execvp(argv[0], argv);
-		if (errno) {
-			perror("execvp");
-			return 1;
-		}
+
+		// never return in the child, it would continue as a second compiler
+		perror("execvp");
+		_exit(127);
 	}
 
 	int status = 0;
-	wait(&status);
+	pid_t waited = 0;
+
+	do {
+		waited = waitpid(pid, &status, 0);
+	} while (waited < 0 && errno == EINTR);
+
+	if (waited < 0) {
+		perror("waitpid");
+		return 1;
+	}
+
+	if (!WIFEXITED(status)) {
+		fprintf(stderr, "skull: \"%s\" did not exit normally\n", argv[0]);
+		return 1;
+	}
 
 	return WEXITSTATUS(status);
 }
-- 
2.43.0


From f07304da74f4507020ffb9fc58da52a94764a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:18 +0000
Subject: [PATCH 05/18] fix: -o names the binary when linking; always remove
 the temporary object, and keep request settings intact

---
 skull/cli.c                |  2 +-
 skull/codegen/llvm/write.c | 93 ++++++++++++++++++++++++--------------
 2 files changed, 59 insertions(+), 36 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index f39794f..6b9452b 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -53,7 +53,7 @@ int main(int argc, char *argv[]) {
 	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
 	err = real_main(2, (char *[]){ NULL, binary_name, NULL });
 	free(binary_name);
-	free(BUILD_DATA.out_file);
+	cleanup();
 
 	return err;
 }
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 1cd3a8a..1bbc720 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -37,15 +37,20 @@ static bool setup_llvm_target_machine(SkullStateLLVM *);
 static PhaseResult output_llvm_ir(const char *, const SkullStateLLVM *);
 static PhaseResult verify_llvm(const SkullStateLLVM *);
 static PhaseResult optimize_llvm(SkullStateLLVM *);
-static PhaseResult emit_stage_1(const char *, SkullStateLLVM *);
-static PhaseResult emit_native_binary(void);
+static PhaseResult emit_stage_1(
+	const char *,
+	const char *,
+	SkullStateLLVM *
+);
+static PhaseResult emit_native_binary(const char *);
+static char *get_stage_1_filename(void);
 static bool add_start_shim(SkullStateLLVM *);
 static bool llvm_insert_builtins(SkullStateLLVM *);
 static bool will_build_binary(void);
 static int sh(char *[]);
 static int shell(char *);
 static char *get_binary_name(void);
-static bool check_directory(char *);
+static bool check_directory(const char *);
 
 /*
 Writer for LLVM backend. Can emit LLVM, native binary, or assembler based
@@ -64,10 +69,14 @@ bool write_llvm(const char *filename, SkullStateLLVM *state) {
 	result = optimize_llvm(state);
 	if (result != PHASE_NEXT) return result;
 
-	result = emit_stage_1(filename, state);
-	if (result != PHASE_NEXT) return result;
+	char *out_file = get_stage_1_filename();
+
+	result = emit_stage_1(filename, out_file, state);
+	if (result == PHASE_NEXT) result = emit_native_binary(out_file);
+
+	free(out_file);
 
-	return emit_native_binary();
+	return result;
 }
 
 static PhaseResult verify_llvm(const SkullStateLLVM *state) {
@@ -148,7 +157,26 @@ static PhaseResult output_llvm_ir(
 	return PHASE_DONE;
 }
 
+/*
+Return name of the file which the first stage will write to. When building a
+binary, this is a temporary object file, and not the file specified with "-o".
+*/
+static char *get_stage_1_filename(void) {
+	if (BUILD_DATA.out_file && (
+		!will_build_binary() || strcmp(BUILD_DATA.out_file, "-") == 0
+	)) {
+		return strdup(BUILD_DATA.out_file);
+	}
+
+	return gen_filename(
+		BUILD_DATA.filename,
+		BUILD_DATA.asm_backend ? "s" : "o"
+	);
+}
+
 static char *get_binary_name(void) {
+	if (BUILD_DATA.out_file) return strdup(BUILD_DATA.out_file);
+
 	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
 	char *last_dot = strrchr(binary_name, '.');
 	binary_name[last_dot - binary_name] = '\0';
@@ -159,14 +187,13 @@ static char *get_binary_name(void) {
 /*
 Return true if an error occurs.
 */
-static bool check_directory(char *binary_name) {
+static bool check_directory(const char *binary_name) {
 	if (is_directory(binary_name)) {
 		fprintf(
 			stderr,
 			"skull: \"%s\" is a directory not a file\n",
 			binary_name
 		);
-		free(binary_name);
 		return true;
 	}
 
@@ -174,36 +201,35 @@ static bool check_directory(char *binary_name) {
 }
 
 /*
-Using previously compiled object file and C shim for built-in helpers, create
-an executable binary.
+Using previously compiled object file `object` and C shim for built-in helpers,
+create an executable binary. The object file is removed afterwards.
 
 Eventually this will use JIT compilation to compile the shim into the existing
 LLVM module, but that is for later.
 */
-static PhaseResult emit_native_binary(void) {
+static PhaseResult emit_native_binary(const char *object) {
 	char *binary_name = get_binary_name();
 	bool err = check_directory(binary_name);
 
-	if (err) return PHASE_ERR;
+	if (!err) {
+		char *shim = uvsnprintf(
+			"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
+			object,
+			binary_name,
+			BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
+		);
 
-	char *shim = uvsnprintf(
-		"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
-		BUILD_DATA.out_file,
-		binary_name,
-		BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
-	);
-	free(binary_name);
+		err = shell(shim);
+		free(shim);
+	}
 
-	const bool exit_code = shell(shim);
+	free(binary_name);
 
 	errno = 0;
-	remove(BUILD_DATA.out_file);
+	remove(object);
 	if (errno) perror("remove");
 
-	free(shim);
-	free(BUILD_DATA.extra_args);
-
-	return exit_code ? PHASE_ERR : PHASE_DONE;
+	return err ? PHASE_ERR : PHASE_DONE;
 }
 
 static int sh(char *argv[]) {
@@ -304,21 +330,18 @@ Based on BUILD_DATA (cli flags), emit either:
 * Object file
 * Assembly file (to stdout or file)
 */
-static PhaseResult emit_stage_1(const char *filename, SkullStateLLVM *state) {
+static PhaseResult emit_stage_1(
+	const char *filename,
+	const char *out_file,
+	SkullStateLLVM *state
+) {
 	if (BUILD_DATA.preprocess) {
 		return output_llvm_ir(filename, state);
 	}
 
 	if (setup_llvm_target_machine(state)) return PHASE_ERR;
 
-	if (!BUILD_DATA.out_file) {
-		BUILD_DATA.out_file = gen_filename(
-			BUILD_DATA.filename,
-			BUILD_DATA.asm_backend ? "s" : "o"
-		);
-	}
-
-	if (!BUILD_DATA.asm_backend && strcmp(BUILD_DATA.out_file, "-") == 0) {
+	if (!BUILD_DATA.asm_backend && strcmp(out_file, "-") == 0) {
 		fprintf(stderr, "skull: cannot print binary file to stdout\n");
 		return PHASE_ERR;
 	}
@@ -328,7 +351,7 @@ static PhaseResult emit_stage_1(const char *filename, SkullStateLLVM *state) {
 	const bool err = LLVMTargetMachineEmitToFile(
 		state->target_machine,
 		state->module,
-		BUILD_DATA.out_file,
+		(char *)out_file,
 		BUILD_DATA.asm_backend ? LLVMAssemblyFile : LLVMObjectFile,
 		&err_msg
 	);
-- 
2.43.0


From 51cbde34543c2467b68fa0bb74c130768729e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:01 +0000
Subject: [PATCH 06/18] fix: only accept files that end in ".sk", other names
 made the binary overwrite unrelated files

---
 skull/cli.c       | 9 ---------
 skull/real_main.c | 7 +++++--
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index 6b9452b..381f887 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -7,7 +7,6 @@
 
 #include "skull/build_data.h"
 #include "skull/common/malloc.h"
-#include "skull/common/str.h"
 #include "skull/real_main.h"
 #include "skull/version.h"
 
@@ -42,14 +41,6 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	if (!strrstr(BUILD_DATA.filename, ".sk")) {
-		fprintf(
-			stderr, "skull: missing required \".sk\" extension, exiting\n"
-		);
-		cleanup();
-		return 1;
-	}
-
 	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
 	err = real_main(2, (char *[]){ NULL, binary_name, NULL });
 	free(binary_name);
diff --git a/skull/real_main.c b/skull/real_main.c
index e701e22..737de41 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -1,6 +1,7 @@
 #include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
+#include <string.h>
 
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
@@ -40,11 +41,13 @@ int real_main(int argc, char *argv[]) {
 Output compiled version of `filename` (file type depends on backend).
 */
 static int compile_file(char *filename) {
-	if (!strrstr(filename, ".sk")) {
+	const char *extension = strrstr(filename, ".sk");
+
+	if (!extension || extension[strlen(".sk")]) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-	if (strrstr(filename, ".sk") == filename || strrstr(filename, "/.sk")) {
+	if (extension == filename || extension[-1] == '/') {
 		DIE("\".sk\" is not a valid name, exiting");
 	}
 
-- 
2.43.0


From 7da43b70d43c60e2d328e02b753526453c0813a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:01 +0000
Subject: [PATCH 07/18] fix: name the right file in messages and outputs when
 several files are compiled

---
 skull/real_main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skull/real_main.c b/skull/real_main.c
index 737de41..6b8ef6b 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -41,6 +41,8 @@ int real_main(int argc, char *argv[]) {
 Output compiled version of `filename` (file type depends on backend).
 */
 static int compile_file(char *filename) {
+	BUILD_DATA.filename = filename;
+
 	const char *extension = strrstr(filename, ".sk");
 
 	if (!extension || extension[strlen(".sk")]) {
-- 
2.43.0


From 2756744b883754e7c5a9444f245c55b3a258719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:01 +0000
Subject: [PATCH 08/18] fix: look for modules imported by a file in the root
 directory next to that file

---
 skull/semantic/import.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skull/semantic/import.c b/skull/semantic/import.c
index d64c403..9f904e5 100644
--- a/skull/semantic/import.c
+++ b/skull/semantic/import.c
@@ -63,6 +63,9 @@ static char *current_file_dir(void) {
 	if (slash && directory != slash) {
 		*slash = '\0';
 	}
+	else if (slash) {
+		directory[1] = '\0';
+	}
 	else {
 		directory[0] = '.';
 		directory[1] = '\0';
-- 
2.43.0


From d66a6eb2cdf50a6054b1e8182b52e21fdb690be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:14 +0000
Subject: [PATCH 09/18] fix: file names reach the linker as they are instead of
 being expanded by the shell

---
 skull/codegen/llvm/write.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 1bbc720..75e0130 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -22,6 +22,7 @@
 #include "skull/codegen/llvm/write.h"
 #include "skull/codegen/shared.h"
 #include "skull/common/io.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -49,6 +50,7 @@ static bool llvm_insert_builtins(SkullStateLLVM *);
 static bool will_build_binary(void);
 static int sh(char *[]);
 static int shell(char *);
+static char *shell_quote(const char *);
 static char *get_binary_name(void);
 static bool check_directory(const char *);
 
@@ -212,13 +214,19 @@ static PhaseResult emit_native_binary(const char *object) {
 	bool err = check_directory(binary_name);
 
 	if (!err) {
+		char *quoted_object = shell_quote(object);
+		char *quoted_binary_name = shell_quote(binary_name);
+
 		char *shim = uvsnprintf(
-			"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
-			object,
-			binary_name,
+			"cc -nostartfiles %s -o %s %s -I/usr/include/skull -lm",
+			quoted_object,
+			quoted_binary_name,
 			BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
 		);
 
+		free(quoted_object);
+		free(quoted_binary_name);
+
 		err = shell(shim);
 		free(shim);
 	}
@@ -271,6 +279,28 @@ static int shell(char *cmd) {
 	return sh((char *[]){ (char[]){"/bin/sh"}, (char[]){"-c"}, cmd, NULL });
 }
 
+/*
+Return copy of `str` which the shell will expand to exactly `str`.
+*/
+static char *shell_quote(const char *str) {
+	// every single quote gets replaced with 4 characters: '\''
+	char *quoted = Malloc((strlen(str) * 4) + 3);
+	char *out = quoted;
+
+	*out++ = '\'';
+	for (; *str; str++) {
+		if (*str == '\'') {
+			memcpy(out, "'\\''", 4);
+			out += 4;
+		}
+		else *out++ = *str;
+	}
+	*out++ = '\'';
+	*out = '\0';
+
+	return quoted;
+}
+
 /*
 Setup LLVM target machine. Return true if error occurs.
 */
-- 
2.43.0


From 7439ae286c5c1c17a699121ddab4ccdcc303337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:41 +0000
Subject: [PATCH 10/18] fix: running out of memory in strdup ends the compile
 with a message

---
 skull/cli.c                |  4 ++--
 skull/codegen/c/expr.c     |  7 ++++---
 skull/codegen/c/flow.c     | 11 ++++++-----
 skull/codegen/c/types.c    | 12 ++++++------
 skull/codegen/llvm/write.c |  6 +++---
 skull/codegen/shared.c     |  5 +++--
 skull/common/errors.c      |  7 ++++---
 skull/common/malloc.c      | 11 +++++++++++
 skull/common/malloc.h      |  1 +
 skull/semantic/func.c      |  4 ++--
 skull/semantic/import.c    |  2 +-
 11 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index 381f887..e085fb8 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -41,7 +41,7 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
+	char *binary_name = Strdup(BUILD_DATA.filename); // NOLINT
 	err = real_main(2, (char *[]){ NULL, binary_name, NULL });
 	free(binary_name);
 	cleanup();
@@ -122,7 +122,7 @@ static int handle_args(int argc, char *argv[]) {
 			}
 
 			free(BUILD_DATA.out_file);
-			BUILD_DATA.out_file = strdup(argv[1]);
+			BUILD_DATA.out_file = Strdup(argv[1]);
 			argc--;
 			argv++;
 			break;
diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index d7532ac..9d3a709 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -5,6 +5,7 @@
 #include <string.h>
 
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -23,7 +24,7 @@ CExpr gen_expr_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_CONST:
 			return gen_expr_const_c(expr);
 		case EXPR_IDENTIFIER:
-			return strdup(expr->symbol->var->name);
+			return Strdup(expr->symbol->var->name);
 		case EXPR_ADD:
 		case EXPR_SUB:
 		case EXPR_MULT:
@@ -67,14 +68,14 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("%li", i);
 	}
 	if (expr->type == &TYPE_FLOAT) {
-		if (!expr->value._int) return strdup("0.0");
+		if (!expr->value._int) return Strdup("0.0");
 
 		// here we are using the hex representation of the float to guarantee
 		// that there is no loss in percision when stringifying.
 		return uvsnprintf("%a", expr->value._float);
 	}
 	if (expr->type == &TYPE_BOOL) {
-		return strdup(expr->value._bool ? "1" : "0");
+		return Strdup(expr->value._bool ? "1" : "0");
 	}
 	if (expr->type == &TYPE_RUNE) {
 		return uvsnprintf("0x%X", expr->value.rune);
diff --git a/skull/codegen/c/flow.c b/skull/codegen/c/flow.c
index 9022c0f..5272c95 100644
--- a/skull/codegen/c/flow.c
+++ b/skull/codegen/c/flow.c
@@ -5,6 +5,7 @@
 #include "skull/codegen/c/core.h"
 #include "skull/codegen/c/expr.h"
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/semantic/symbol.h"
 
 #include "skull/codegen/c/flow.h"
@@ -12,7 +13,7 @@
 static CBlock gen_control_block_c(const AstNode *, const char *, SkullStateC *);
 
 CStmt gen_stmt_return_c(const AstNode *node, SkullStateC *state) {
-	if (!node->expr) return strdup("return;");
+	if (!node->expr) return Strdup("return;");
 
 	CExpr expr_str = gen_expr_c(node->expr, state);
 	CStmt stmt = uvsnprintf("return %s;", expr_str);
@@ -24,25 +25,25 @@ CStmt gen_stmt_return_c(const AstNode *node, SkullStateC *state) {
 CStmt gen_stmt_noop_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("(void)0;");
+	return Strdup("(void)0;");
 }
 
 CStmt gen_stmt_unreachable_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("while (1) {}");
+	return Strdup("while (1) {}");
 }
 
 CStmt gen_stmt_break_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("break;");
+	return Strdup("break;");
 }
 
 CStmt gen_stmt_continue_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("continue;");
+	return Strdup("continue;");
 }
 
 CBlock gen_control_if_c(const AstNode *node, SkullStateC *state) {
diff --git a/skull/codegen/c/types.c b/skull/codegen/c/types.c
index 20c0697..2b4eccb 100644
--- a/skull/codegen/c/types.c
+++ b/skull/codegen/c/types.c
@@ -5,12 +5,12 @@
 #include "skull/codegen/c/types.h"
 
 char *__attribute__((pure)) skull_type_to_c_type(const Type *type) {
-	if (type == &TYPE_INT) return strdup(TYPE_INT_C);
-	if (type == &TYPE_FLOAT) return strdup(TYPE_FLOAT_C);
-	if (type == &TYPE_RUNE) return strdup(TYPE_RUNE_C);
-	if (type == &TYPE_STR) return strdup(TYPE_STR_C);
-	if (type == &TYPE_BOOL) return strdup(TYPE_BOOL_C);
-	if (type == &TYPE_VOID) return strdup(TYPE_VOID_C);
+	if (type == &TYPE_INT) return Strdup(TYPE_INT_C);
+	if (type == &TYPE_FLOAT) return Strdup(TYPE_FLOAT_C);
+	if (type == &TYPE_RUNE) return Strdup(TYPE_RUNE_C);
+	if (type == &TYPE_STR) return Strdup(TYPE_STR_C);
+	if (type == &TYPE_BOOL) return Strdup(TYPE_BOOL_C);
+	if (type == &TYPE_VOID) return Strdup(TYPE_VOID_C);
 	if (type->inner) {
 		char *inner = skull_type_to_c_type(type->inner);
 
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 75e0130..3396be2 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -167,7 +167,7 @@ static char *get_stage_1_filename(void) {
 	if (BUILD_DATA.out_file && (
 		!will_build_binary() || strcmp(BUILD_DATA.out_file, "-") == 0
 	)) {
-		return strdup(BUILD_DATA.out_file);
+		return Strdup(BUILD_DATA.out_file);
 	}
 
 	return gen_filename(
@@ -177,9 +177,9 @@ static char *get_stage_1_filename(void) {
 }
 
 static char *get_binary_name(void) {
-	if (BUILD_DATA.out_file) return strdup(BUILD_DATA.out_file);
+	if (BUILD_DATA.out_file) return Strdup(BUILD_DATA.out_file);
 
-	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
+	char *binary_name = Strdup(BUILD_DATA.filename); // NOLINT
 	char *last_dot = strrchr(binary_name, '.');
 	binary_name[last_dot - binary_name] = '\0';
 
diff --git a/skull/codegen/shared.c b/skull/codegen/shared.c
index 8b59ddf..bab07a9 100644
--- a/skull/codegen/shared.c
+++ b/skull/codegen/shared.c
@@ -3,6 +3,7 @@
 
 #include "skull/common/io.h"
 #include "skull/build_data.h"
+#include "skull/common/malloc.h"
 
 #include "skull/codegen/shared.h"
 
@@ -10,10 +11,10 @@ char *get_new_filename(const char *filename, const char *extension) {
 	if (BUILD_DATA.out_file && (
 		BUILD_DATA.preprocess || BUILD_DATA.c_backend
 	)) {
-		return strdup(BUILD_DATA.out_file);
+		return Strdup(BUILD_DATA.out_file);
 	}
 	if (BUILD_DATA.preprocess) {
-		return strdup("-");
+		return Strdup("-");
 	}
 
 	return gen_filename(filename, extension);
diff --git a/skull/common/errors.c b/skull/common/errors.c
index c9bcdd6..66fd3ec 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -6,6 +6,7 @@
 
 #include "skull/build_data.h"
 #include "skull/common/color.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/common/vector.h"
 #include "skull/semantic/variable.h"
@@ -204,7 +205,7 @@ static char *get_error_msg(
 	size_t num_of_percents, // NOLINT
 	ErrorCode id
 ) {
-	if (num_of_percents == 0) return strdup(errors[id]);
+	if (num_of_percents == 0) return Strdup(errors[id]);
 
 	if (num_of_percents == 1) {
 		return uvsnprintf(
@@ -244,9 +245,9 @@ value. This is due to `0` being falsey, and thus not being able to be checked.
 */
 void message_stringify(Message *const msg) {
 	if (msg->var)
-		msg->real = strdup(msg->var->name);
+		msg->real = Strdup(msg->var->name);
 	else if (msg->type)
-		msg->real = strdup(msg->type->name);
+		msg->real = Strdup(msg->type->name);
 	else if (msg->str32)
 		msg->real = c32stombs(msg->str32, NULL);
 	else if (msg->i)
diff --git a/skull/common/malloc.c b/skull/common/malloc.c
index 86acf6e..b9f8bb8 100644
--- a/skull/common/malloc.c
+++ b/skull/common/malloc.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <string.h>
 
 #include "skull/common/malloc.h"
 
@@ -41,5 +42,15 @@ void *Realloc(void *ptr, size_t size) {
 	return new_ptr;
 }
 
+/*
+`NULL` safe wrapper for `strdup`
+*/
+char *Strdup(const char *str) {
+	char *copy = strdup(str);
+	DIE_IF_MALLOC_FAILS(copy);
+
+	return copy;
+}
+
 #undef DIE_IF_MALLOC_FAILS
 
diff --git a/skull/common/malloc.h b/skull/common/malloc.h
index 839894f..a398b6e 100644
--- a/skull/common/malloc.h
+++ b/skull/common/malloc.h
@@ -5,3 +5,4 @@
 void *Malloc(size_t);
 void *Calloc(size_t, size_t);
 void *Realloc(void *, size_t);
+char *Strdup(const char *);
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 1a8f63d..0ad9f1e 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -117,12 +117,12 @@ static bool post_validate_stmt_func_decl(
 		!!terminal_node->expr;
 
 	if (!returned_value && func->return_type != &TYPE_VOID) {
-		FMT_ERROR(ERR_EXPECTED_RETURN, { .real = strdup(symbol->name) });
+		FMT_ERROR(ERR_EXPECTED_RETURN, { .real = Strdup(symbol->name) });
 
 		return false;
 	}
 	if (returned_value && func->return_type == &TYPE_VOID) {
-		FMT_ERROR(ERR_NO_VOID_RETURN, { .real = strdup(symbol->name) });
+		FMT_ERROR(ERR_NO_VOID_RETURN, { .real = Strdup(symbol->name) });
 
 		return false;
 	}
diff --git a/skull/semantic/import.c b/skull/semantic/import.c
index 9f904e5..437a4e0 100644
--- a/skull/semantic/import.c
+++ b/skull/semantic/import.c
@@ -58,7 +58,7 @@ static char *filename_for_module(char *module_name) {
 }
 
 static char *current_file_dir(void) {
-	char *directory = strdup(BUILD_DATA.filename);
+	char *directory = Strdup(BUILD_DATA.filename);
 	char *slash = strrchr(directory, '/');
 	if (slash && directory != slash) {
 		*slash = '\0';
-- 
2.43.0


From d81099174fb24495f457138a7a4e6e70c1bbb007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 11/18] fix: report source text that ends in the middle of a
 statement instead of crashing or failing silently

---
 skull/parse/ast_node.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index ad4c617..08461fd 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -132,13 +132,16 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	}
 
 	AstNode *var_def_node = push_ast_node(ctx, first, AST_NODE_VAR_DEF);
+	const Token *assign_token = ctx->token;
 	next_token(ctx);
 
 	AstNodeExpr *expr = parse_expression(ctx);
 	if (ctx->err) return RESULT_ERROR;
 
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = &(ctx->token ? ctx->token : assign_token)->location
+		});
 		return RESULT_ERROR;
 	}
 
@@ -211,11 +214,14 @@ static ParserResult parse_var_assign(ParserCtx *ctx) {
 	next_token(ctx);
 
 	AstNode *var_assign_node = push_ast_node(ctx, last, AST_NODE_VAR_ASSIGN);
+	const Token *assign_token = ctx->token;
 	next_token(ctx);
 
 	AstNodeExpr *expr = parse_expression(ctx);
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = &(ctx->token ? ctx->token : assign_token)->location
+		});
 
 		return RESULT_ERROR;
 	}
@@ -272,7 +278,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 
 	if (is_external || is_export) next_token(ctx);
 
-	if (!AST_TOKEN_CMP2(ctx->token,
+	if (!ctx->token || !AST_TOKEN_CMP2(ctx->token,
 		TOKEN_IDENTIFIER,
 		TOKEN_PAREN_OPEN)
 	) {
@@ -410,10 +416,7 @@ static Vector *parse_function_proto_params(ParserCtx *ctx) {
 }
 
 static void parse_condition(ParserCtx *ctx, NodeType node_type) {
-	if (!ctx->token || !ctx->token->next) {
-		ctx->err = true;
-		return;
-	}
+	const Token *keyword = ctx->token;
 
 	AstNode *cond_node = push_ast_node(ctx, ctx->token, node_type);
 	next_token(ctx);
@@ -421,7 +424,9 @@ static void parse_condition(ParserCtx *ctx, NodeType node_type) {
 	AstNodeExpr *expr = parse_expression(ctx);
 
 	if (!expr || ctx->err) {
-		FMT_ERROR(ERR_INVALID_EXPR, { .tok = ctx->token });
+		FMT_ERROR(ERR_INVALID_EXPR, {
+			.tok = ctx->token ? ctx->token : keyword
+		});
 		ctx->err = true;
 
 		return;
@@ -448,7 +453,8 @@ static void parse_while(ParserCtx *ctx) {
 }
 
 static void parse_namespace(ParserCtx *ctx) {
-	if (!ctx->token || !ctx->token->next) {
+	if (!ctx->token->next) {
+		FMT_ERROR(ERR_UNEXPECTED_TOKEN, { .tok = ctx->token });
 		ctx->err = true;
 		return;
 	}
-- 
2.43.0


From a1fcf5c2634b2b65006f269c8a7d0c541d2ce9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:38 +0000
Subject: [PATCH 12/18] fix: fail when the working directory needed for debug
 info cannot be read

---
 skull/codegen/backend.c     |  5 ++++-
 skull/codegen/llvm/debug.c  | 16 ++++++++--------
 skull/codegen/llvm/shared.c |  5 ++++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/skull/codegen/backend.c b/skull/codegen/backend.c
index bb2a775..3729e3d 100644
--- a/skull/codegen/backend.c
+++ b/skull/codegen/backend.c
@@ -11,7 +11,10 @@ bool run_backend(
 	const char *filename
 ) {
 	void *state = NULL;
-	if (backend->setup) state = backend->setup(semantic_state);
+	if (backend->setup) {
+		state = backend->setup(semantic_state);
+		if (!state) return true;
+	}
 
 	if (backend->gen_module) backend->gen_module(node, state);
 
diff --git a/skull/codegen/llvm/debug.c b/skull/codegen/llvm/debug.c
index b8c1f2b..92ecc01 100644
--- a/skull/codegen/llvm/debug.c
+++ b/skull/codegen/llvm/debug.c
@@ -50,6 +50,14 @@ LLVMDIBuilderRef setup_debug_info(
 	const char *filename,
 	const SkullStateLLVM *state
 ) {
+	char cwd[PATH_MAX];
+
+	errno = 0;
+	if (!getcwd(cwd, PATH_MAX)) {
+		perror("getcwd");
+		return NULL;
+	}
+
 	LLVMDIBuilderRef di_builder = LLVMCreateDIBuilder(state->module);
 	DEBUG_INFO.builder = di_builder;
 
@@ -59,14 +67,6 @@ LLVMDIBuilderRef setup_debug_info(
 	DI_TYPE_RUNE = type_to_llvm_di_type(&TYPE_RUNE);
 	DI_TYPE_STR = type_to_llvm_di_type(&TYPE_STR);
 
-	char cwd[PATH_MAX];
-
-	errno = 0;
-	if (!getcwd(cwd, PATH_MAX)) {
-		perror("getcwd");
-		return NULL;
-	}
-
 	LLVMMetadataRef di_file = LLVMDIBuilderCreateFile(
 		di_builder,
 		filename, strlen(filename),
diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index faacb7b..70bb7e5 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -60,7 +60,10 @@ SkullStateLLVM *setup_llvm_state(SemanticState *semantic_state) {
 	state->current_func = state->main_func;
 	state->semantic = semantic_state;
 
-	if (BUILD_DATA.debug) setup_debug_info(filename, state);
+	if (BUILD_DATA.debug && !setup_debug_info(filename, state)) {
+		free_llvm_state(state);
+		return NULL;
+	}
 
 	return state;
 }
-- 
2.43.0


From 133936166ba1cc96d8102d58db2d3cabac405471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:55 +0000
Subject: [PATCH 13/18] fix: writing output to stdout reports failures and
 leaves stdout open for the next file

---
 skull/codegen/c/write.c    |  5 +++-
 skull/codegen/llvm/write.c | 57 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 951d387..b018990 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -38,6 +38,10 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 
 	if (!f) return true;
 
+	// stdout might still be marked as failed from a previous file
+	clearerr(f);
+	errno = 0;
+
 	print_headers(f);
 	print_builtins(f, state);
 	print_globals(f, state);
@@ -46,7 +50,6 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	errno = 0;
 	bool err = fflush(f) || ferror(f);
 	if (!is_stdout && fclose(f)) err = true;
 
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 3396be2..7f36d12 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -53,6 +53,7 @@ static int shell(char *);
 static char *shell_quote(const char *);
 static char *get_binary_name(void);
 static bool check_directory(const char *);
+static PhaseResult write_stdout(const char *, size_t);
 
 /*
 Writer for LLVM backend. Can emit LLVM, native binary, or assembler based
@@ -140,6 +141,17 @@ static PhaseResult output_llvm_ir(
 		char *out_filename = get_new_filename(filename, "ll");
 
 		char *msg = NULL;
+
+		if (strcmp(out_filename, "-") == 0) {
+			free(out_filename);
+
+			msg = LLVMPrintModuleToString(state->module);
+			const PhaseResult result = write_stdout(msg, strlen(msg));
+
+			LLVMDisposeMessage(msg);
+			return result;
+		}
+
 		LLVMBool did_fail = LLVMPrintModuleToFile(
 			state->module,
 			out_filename,
@@ -159,6 +171,25 @@ static PhaseResult output_llvm_ir(
 	return PHASE_DONE;
 }
 
+/*
+Write `len` bytes of `data` to stdout. LLVM closes the files it writes to, which
+stdout has to survive: there might be more files to compile.
+*/
+static PhaseResult write_stdout(const char *data, size_t len) {
+	errno = 0;
+	const bool ok = fwrite(data, 1, len, stdout) == len && !fflush(stdout);
+
+	if (!ok) {
+		fprintf(
+			stderr,
+			"skull: could not write output: %s\n",
+			strerror(errno ? errno : EIO)
+		);
+	}
+
+	return ok ? PHASE_DONE : PHASE_ERR;
+}
+
 /*
 Return name of the file which the first stage will write to. When building a
 binary, this is a temporary object file, and not the file specified with "-o".
@@ -378,6 +409,32 @@ static PhaseResult emit_stage_1(
 
 	char *err_msg = NULL;
 
+	if (strcmp(out_file, "-") == 0) {
+		LLVMMemoryBufferRef mem_buf = NULL;
+
+		const bool failed = LLVMTargetMachineEmitToMemoryBuffer(
+			state->target_machine,
+			state->module,
+			LLVMAssemblyFile,
+			&err_msg,
+			&mem_buf
+		);
+
+		if (failed) {
+			fprintf(stderr, "skull: \"%s\"\n", err_msg);
+			LLVMDisposeMessage(err_msg);
+			return PHASE_ERR;
+		}
+
+		const PhaseResult result = write_stdout(
+			LLVMGetBufferStart(mem_buf),
+			LLVMGetBufferSize(mem_buf)
+		);
+
+		LLVMDisposeMemoryBuffer(mem_buf);
+		return result;
+	}
+
 	const bool err = LLVMTargetMachineEmitToFile(
 		state->target_machine,
 		state->module,
-- 
2.43.0


From bf915677530f1ccbc4b82a3f835ce76dda709580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:08 +0000
Subject: [PATCH 14/18] fix: reject a function, alias or namespace name used as
 a variable

scope_find_var() read symbol->var of symbols that are not variables, so
"x := f" with f a function took whatever the union held for a Variable and
could crash.
---
 skull/semantic/scope.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index c0fb55f..387be27 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -89,6 +89,7 @@ Symbol *scope_find_var(SemanticState *state, const Token *const token) {
 	Symbol *const symbol = scope_find_name(state->scope, var_name);
 
 	if (!symbol ||
+		symbol->type != SYMBOL_VAR ||
 		!symbol->var ||
 		!symbol->var->is_defined
 	) {
-- 
2.43.0


From a418d345e6fa454245a7b828f161ae830fe82e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:34 +0000
Subject: [PATCH 15/18] fix: reject a unary operator without an operand

parse_single_expr() accepted "x := not" followed by a newline and left the
right hand side NULL, which crashed the semantic pass.
---
 skull/parse/ast_node.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 08461fd..6c9a601 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -723,10 +723,18 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	AstNodeExpr *rhs = parse_root_expr(ctx);
+	if (!rhs) {
+		if (!ctx->err) FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = last });
+
+		ctx->err = true;
+		return NULL;
+	}
+
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_root_expr(ctx)
+		.rhs = rhs
 	};
 
 	return expr;
-- 
2.43.0


From c40605afa70f62ee0763ead8529267310fcb5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:34 +0000
Subject: [PATCH 16/18] fix: report a file of blanks only as empty

Blanks without a newline gave one token without text, which the classifier
dereferenced.
---
 skull/pipeline.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skull/pipeline.c b/skull/pipeline.c
index 8f1e2d4..334636a 100644
--- a/skull/pipeline.c
+++ b/skull/pipeline.c
@@ -35,6 +35,15 @@ int run_pipeline(const char *filename, char *file_contents) {
 		return true;
 	}
 
+	if (!token->begin) {
+		FMT_ERROR(WARN_FILE_EMPTY, {0});
+
+		free_tokens(token);
+		free(_file_contents);
+		free(file_contents);
+		return true;
+	}
+
 	classify_tokens(token);
 
 	AstNode *node = parse_ast_tree(token);
-- 
2.43.0


From a035ab83c1d7a76c4de437367f2ccaf4ccac4d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:24 +0000
Subject: [PATCH 17/18] fix: reject a source file with a NUL byte instead of
 ignoring what follows it

---
 skull/common/io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skull/common/io.c b/skull/common/io.c
index f827871..13429b6 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -53,6 +53,13 @@ char *file_to_string(FILE *fd) {
 		return NULL;
 	}
 
+	if (memchr(str, '\0', read)) {
+		fprintf(stderr, "skull: file contains a NUL byte\n");
+		free(str);
+		errno = EINVAL;
+		return NULL;
+	}
+
 	str[read] = '\0';
 	return str;
 }
-- 
2.43.0


From 5c778e996561a387ad6188d6da884f617d0ffcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:20 +0000
Subject: [PATCH 18/18] fix: messages no longer end up in the output file when
 stderr is closed

---
 skull/cli.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/skull/cli.c b/skull/cli.c
index e085fb8..23a62e9 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -1,9 +1,11 @@
 #include <errno.h>
+#include <fcntl.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdnoreturn.h>
 #include <string.h>
+#include <unistd.h>
 
 #include "skull/build_data.h"
 #include "skull/common/malloc.h"
@@ -14,6 +16,7 @@
 #define RELEASE 0
 #endif
 
+static bool reserve_standard_fds(void);
 static int usage(void);
 static int version(void);
 static void handle_env(void);
@@ -27,6 +30,8 @@ static noreturn void bail(int);
 static bool build_data_valid(void);
 
 int main(int argc, char *argv[]) {
+	if (!reserve_standard_fds()) return 1;
+
 	if (argc == 1) return usage();
 
 	handle_env();
@@ -49,6 +54,27 @@ int main(int argc, char *argv[]) {
 	return err;
 }
 
+/*
+If stdin, stdout or stderr are closed, the next file that is opened takes their
+place, and messages end up in output files. Occupy them with something that
+cannot be used instead.
+
+Return `true` if all of them are in use.
+*/
+static bool reserve_standard_fds(void) {
+	for (int fd = STDIN_FILENO; fd <= STDERR_FILENO; fd++) {
+		if (fcntl(fd, F_GETFD) >= 0 || errno != EBADF) continue;
+
+		const int mode = fd == STDIN_FILENO ? O_WRONLY : O_RDONLY;
+		if (open("/dev/null", mode) != fd) {
+			perror("open");
+			return false;
+		}
+	}
+
+	return true;
+}
+
 static void handle_env(void) {
 	const char *color = getenv("COLOR");
 	BUILD_DATA.color = color && *color == '1';
-- 
2.43.0

