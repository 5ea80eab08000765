From fb8b6572aeafc83a5f9e35e44fe3a4be1639be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 01/47] fix: drop abandoned expression values when a goto
 leaves a procedure

A goto out of a procedure called in the middle of an expression left the
already evaluated operands of this expression on the stack: a later print
showed them as its own values.
---
 simulator/processor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a8f9459..7734833 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -435,7 +435,9 @@ void Processor::roll_back(unsigned goto_frame)
         if (prev_fp == goto_frame) {
             frame_ptr = fp;
             frame_release();
-            stack.pop();
+            // Drop the place for result, as well as values of expressions
+            // which have been abandoned.
+            stack.erase(stack_base);
             return;
         }
         fp = prev_fp;
-- 
2.43.0


From 7bcd23d9f9cef9c7b239773add3b96d40e2cb639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 02/47] fix: pass constant after a standard function designator
 correctly

A constant as actual parameter does not set nid, so after a parameter like
ln(x) the stale nid made the constant look like a standard function name.
---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6696895..3ba035d 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2139,7 +2139,7 @@ _L8702:
         if (aflag == 0) {
             if (store[tlsc - 2] == rlsc && (fflag == 0 || pass_formals) &&
                 jflag == 0 && nflag == 1) {
-                if (nid > nlscop) {
+                if (kflag != 0 || nid > nlscop) { /*nid is stale for constant*/
                     if (pflag == 1 && fflag == 0) /*non-formal procedure:*/
                         test_first_occurrence();
                     /*PORD construction:*/
-- 
2.43.0


From 55f14b2a09bf9eeca148040f588352e2d6dc54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:58 +0000
Subject: [PATCH 03/47] fix: accept a signed operand after a logical operator
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The delimiters ∧ ∨ ⊃ ≡ did not announce a new operand, so in T ∧ -x < y the
sign was compiled as subtraction.
---
 compiler/x1algc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 3ba035d..5d5d25b 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2007,6 +2007,7 @@ _L76: /*~,^,`,=>,_=*/
         oh = 83 - dl;
         goto _L8202;
     }
+    oflag = 1; /*sign of the next operand is not an operation*/
     production_of_object_program(83 - dl, &V);
     fill_t_list_with_delimiter();
     goto _L1;
-- 
2.43.0


From 7b851b1fb85150c9b2d8a6e630080c30fc4d420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:36 +0000
Subject: [PATCH 04/47] fix: detect overflow of integer exponentiation
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The product was computed modulo 2**32, so 2↑40 silently gave 0.
---
 simulator/virtual_stack.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 68a6440..8d849c4 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -276,13 +276,20 @@ void Stack_Cell::subtract(const Stack_Cell &another)
 //
 static int power(int x, unsigned n)
 {
-    int result = 1;
+    const int64_t limit = BITS(26);
+    int64_t result      = 1;
+    int64_t factor      = x;
     while (n) {
         if (n & 1) {
-            result *= x;
+            result *= factor;
         }
         n = n >> 1;
-        x *= x;
+        if (n) {
+            factor *= factor;
+        }
+        if (result > limit || result < -limit || factor > limit) {
+            throw std::runtime_error("Overflow in integer arithmetic");
+        }
     }
     return result;
 }
-- 
2.43.0


From 1de8dfab02caf7505ec6624460d1ddc0a0fe15f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:36 +0000
Subject: [PATCH 05/47] fix: detect overflow when a real value is rounded to
 integer

A value beyond the range of int was silently replaced by garbage.
---
 simulator/opcodes.cpp   |  4 ++--
 simulator/processor.cpp |  2 +-
 simulator/x1_arch.cpp   | 13 +++++++++++++
 simulator/x1_arch.h     |  1 +
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8435906..65a8baa 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -535,7 +535,7 @@ bool Processor::call_opc(unsigned opc)
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
-                                                 : (int)roundl(x1_to_ieee(idxs[i].get_real()));
+                                                 : round_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
             elt_addr += idx * dimsize;
@@ -976,7 +976,7 @@ bool Processor::call_opc(unsigned opc)
                 stack.push_real_value(load_real(actual + i));
                 break;
             case 21: // real to integer
-                stack.push_int_value(integer_to_x1(roundl(x1_to_ieee(load_real(actual + 2 * i)))));
+                stack.push_int_value(integer_to_x1(round_to_integer(x1_to_ieee(load_real(actual + 2 * i)))));
                 break;
             case 12: // integer to real
                 stack.push_real_value(
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 7734833..bfc5477 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -533,7 +533,7 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
         if (src.is_int_value()) {
             result = src.get_int();
         } else if (src.is_real_value()) {
-            result = integer_to_x1((int)roundl(x1_to_ieee(src.get_real())));
+            result = integer_to_x1(round_to_integer(x1_to_ieee(src.get_real())));
         } else {
             throw std::runtime_error("Cannot store address");
         }
diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index a5d6037..e8fb6a4 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -136,6 +136,19 @@ int x1_to_integer(Word input)
     }
 }
 
+//
+// Round real value to the nearest integer.
+//
+int round_to_integer(long double input)
+{
+    const long double result = roundl(input);
+
+    if (!(fabsl(result) <= BITS(26))) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+    return (int)result;
+}
+
 //
 // Print CPU instruction with mnemonics.
 //
diff --git a/simulator/x1_arch.h b/simulator/x1_arch.h
index f7e0b8a..7f4a647 100644
--- a/simulator/x1_arch.h
+++ b/simulator/x1_arch.h
@@ -56,6 +56,7 @@ long double x1_to_ieee(Real word);
 // Convert integer value between native and X1 formats.
 //
 Word integer_to_x1(int d);
+int round_to_integer(long double d);
 int x1_to_integer(Word word);
 
 //
-- 
2.43.0


From d1e5945d4f3b175547770f224fd1d6c42ebe19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 06/47] fix: report a compiler killed by a signal

---
 simulator/machine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 68047a3..c572cc5 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -309,6 +309,11 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         throw std::runtime_error("Lost child process #" + std::to_string(pid));
     }
 
+    if (WIFSIGNALED(wait_status)) {
+        throw std::runtime_error("Compiler killed by signal " +
+                                 std::to_string(WTERMSIG(wait_status)));
+    }
+
     int exit_code = WEXITSTATUS(wait_status);
     switch (exit_code) {
     case STATUS_OK:
-- 
2.43.0


From 14577c0deadf3d2b741e63d0e204f69712ca5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 07/47] fix: do not flush inherited streams when the compiler
 cannot be started

---
 simulator/machine.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index c572cc5..fa359d1 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -280,17 +280,19 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         // Child process.
         //
 
+        // Leave by means of _exit(), so that buffered output (trace) is not written twice.
+
         // Open input file for verification.
         int in_fd = open(input_filenames[0].c_str(), O_RDONLY);
         if (in_fd < 0) {
-            exit(STATUS_CANNOT_READ_INPUT);
+            _exit(STATUS_CANNOT_READ_INPUT);
         }
         close(in_fd);
 
         // Create output file.
         int out_fd = open(output_filename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
         if (out_fd < 0) {
-            exit(STATUS_CANNOT_WRITE_OUTPUT);
+            _exit(STATUS_CANNOT_WRITE_OUTPUT);
         }
         dup2(out_fd, STDOUT_FILENO);
         close(out_fd);
@@ -298,7 +300,7 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         // Start the compiler.
         auto argv = build_argv(prog_path, input_filenames);
         execvp(argv[0], get_argv(argv));
-        exit(STATUS_CANNOT_RUN_PROGRAM);
+        _exit(STATUS_CANNOT_RUN_PROGRAM);
     }
 
     //
-- 
2.43.0


From 027900f4eca684c13a8242ab02544ebb83379a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 08/47] fix: detect unreadable object file and object file
 without entry address

---
 simulator/machine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index fa359d1..884b229 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -396,6 +396,12 @@ void Machine::load_object_program(const std::string &obj_filename)
             throw std::runtime_error("Bad line: '" + line + "'");
         }
     }
+    if (input.bad()) {
+        throw std::runtime_error("Error reading " + obj_filename);
+    }
+    if (entry_table.empty()) {
+        throw std::runtime_error("No entry address in " + obj_filename);
+    }
 }
 
 //
-- 
2.43.0


From 6e7173ecd93eb582f8203afeef1c785a7daa7020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 09/47] fix: do not run the compiler when its output cannot be
 redirected

---
 simulator/machine.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 884b229..22c4906 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -294,8 +294,12 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         if (out_fd < 0) {
             _exit(STATUS_CANNOT_WRITE_OUTPUT);
         }
-        dup2(out_fd, STDOUT_FILENO);
-        close(out_fd);
+        if (out_fd != STDOUT_FILENO) {
+            if (dup2(out_fd, STDOUT_FILENO) < 0) {
+                _exit(STATUS_CANNOT_WRITE_OUTPUT);
+            }
+            close(out_fd);
+        }
 
         // Start the compiler.
         auto argv = build_argv(prog_path, input_filenames);
-- 
2.43.0


From 477a036477312ff1bcc662d85e4b90e852590388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 10/47] fix: keep simultaneous runs from mixing up object
 programs

---
 simulator/machine.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 22c4906..86837e2 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -82,8 +82,24 @@ void Machine::compile_and_run()
             add_input_file(default_library);
         }
         const auto obj_filename = input_path.stem().string() + ".x1";
-        compile(input_files, obj_filename);
-        load_object_program(obj_filename);
+
+        // Compile to a private file first: another simulator can be compiling
+        // a program of the same name in this directory.
+        const auto private_filename = obj_filename + "." + std::to_string(getpid());
+        std::error_code status;
+        try {
+            compile(input_files, private_filename);
+            load_object_program(private_filename);
+        } catch (...) {
+            // Keep output of the compiler: it contains diagnostics.
+            std::filesystem::rename(private_filename, obj_filename, status);
+            throw;
+        }
+        std::filesystem::rename(private_filename, obj_filename, status);
+        if (status) {
+            std::filesystem::remove(private_filename, status);
+            throw std::runtime_error("Cannot write " + obj_filename);
+        }
 
     } else if (extension == ".x1") {
         //
-- 
2.43.0


From 479454c39083fdda7ce7d2abb18b5aa8b83dbe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 11/47] fix: report a trace file that cannot be written

---
 simulator/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index b9880c0..d04a2f2 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -84,7 +84,12 @@ int main(int argc, char *argv[])
 
         case 'T':
             // Redirect tracing to given file.
-            Machine::redirect_trace(optarg);
+            try {
+                Machine::redirect_trace(optarg);
+            } catch (std::exception &ex) {
+                std::cerr << "Error: " << ex.what() << std::endl;
+                exit(EXIT_FAILURE);
+            }
             Machine::get_trace_stream() << "X1 Algol Simulator Version: " << VERSION_STRING << "\n";
             continue;
 
-- 
2.43.0


From 1b2102dfbf9c11a2c784bbe4fec6ac71e326388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:37 +0000
Subject: [PATCH 12/47] fix: report failure to write output of the program

---
 simulator/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index d04a2f2..8b8842f 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -117,6 +117,10 @@ int main(int argc, char *argv[])
         }
         machine.compile_and_run();
 
+        if (!std::cout.flush()) {
+            throw std::runtime_error("Cannot write to standard output");
+        }
+
     } catch (std::exception &ex) {
         std::cerr << "Error: " << ex.what() << std::endl;
         exit(EXIT_FAILURE);
-- 
2.43.0


From cb5a9e841377649ecada244fadc5ebf4aed81618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:37 +0000
Subject: [PATCH 13/47] fix: report failure to write the object program

---
 compiler/x1algc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 5d5d25b..5901637 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3882,6 +3882,10 @@ int main(int argc, char *argv[])
     for (ii = mcpe; ii < FORLIM; ii++)
         printf("%5d%10d\n", ii, store[ii]);
     free(input_line);
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("Cannot write object program");
+        exit(EXIT_FAILURE);
+    }
     exit(EXIT_SUCCESS);
 }
 
-- 
2.43.0


From c0f36f762fea5f9fffd6a409d8ef0d6d85bc5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:37 +0000
Subject: [PATCH 14/47] fix: do not compile the same source line again when the
 next one cannot be read

---
 compiler/x1algc.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 5901637..3403776 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -203,8 +203,14 @@ _L1:
             input_eof_seen = true;
             return 123; /*space*/
         }
-        if (getline(&input_line, &input_line_len, source_tape))
-            ;
+        if (getline(&input_line, &input_line_len, source_tape) < 0) {
+            if (!feof(source_tape)) {
+                perror("Cannot read source");
+                exit(EXIT_FAILURE);
+            }
+            input_eof_seen = true;
+            return 123; /*space*/
+        }
         input_pos = 0;
         /*writeln('---');*/
         /*for debug*/
@@ -3534,6 +3540,10 @@ int main(int argc, char *argv[])
     PASCAL_MAIN(argc, argv);
     lib_tape = NULL;
     input_line = calloc(1, 1);
+    if (input_line == NULL) {
+        perror(prog_name);
+        exit(EXIT_FAILURE);
+    }
 
     /*initialization of word_del_table*/
     /*HT*/
-- 
2.43.0


From 6816976883b6cad30f46d334bb3f2d8a2b9a98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:38 +0000
Subject: [PATCH 15/47] fix: make objfile report unreadable source and
 unwritable output

---
 library/objfile.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/library/objfile.cc b/library/objfile.cc
index 6f1c84a..439610b 100644
--- a/library/objfile.cc
+++ b/library/objfile.cc
@@ -389,6 +389,15 @@ void usage(const char * prog_name) {
            "    -w                      Output in word-based format\n");
 }
 
+// Exit, having made sure that the output is complete.
+void finish() {
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("Could not write object file");
+        exit(EXIT_FAILURE);
+    }
+    exit(EXIT_SUCCESS);
+}
+
 int main(int argc, char*argv[]) {
     int i;
     int len = 0, num;
@@ -469,6 +478,10 @@ int main(int argc, char*argv[]) {
         fill_result_list(opc, w);
         ++len;
     }
+    if (ferror(src)) {
+        perror("Could not read source");
+        exit(EXIT_FAILURE);
+    }
     fprintf(stderr, "Making MCP %d, length %d\n", num, len);
     for (i = 0; i < 13; ++i)
         bit_string_maker (1<<10|(num>>i & 1));
@@ -480,7 +493,7 @@ int main(int argc, char*argv[]) {
         for (size_t i = 0; i < store.size(); ++i) {
             printf("store[mcpb + %zu] = %010o;\n", i+1, store[i]);
         }
-        exit(EXIT_SUCCESS);
+        finish();
     }
     std::string s = "30";
     while (!store.empty()) {
@@ -494,4 +507,5 @@ int main(int argc, char*argv[]) {
     }
     if (!s.empty())
         puts(s.c_str());
+    finish();
 }
-- 
2.43.0


From 9a21a0d7b5bcd5f6d7267a772617931f8b0fe2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:18 +0000
Subject: [PATCH 16/47] fix: keep stack addresses of actual parameters intact
 beyond 32767 cells

---
 simulator/processor.cpp     | 6 +++---
 simulator/virtual_stack.cpp | 6 +-----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index bfc5477..8be8a03 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -376,7 +376,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
     // the block in which the corresponding procedure statement is given." (E.W.Dijkstra)
     //
     auto parent_level   = get_block_level();
-    auto parent_display = parent_level << 15 | frame_ptr;
+    auto parent_display = parent_level << 20 | frame_ptr;
 
     for (unsigned i = 0; i < num_args; i++) {
         // Allocate formal parameters: two cells per parameter.
@@ -514,8 +514,8 @@ void Processor::get_arg_display(unsigned const dynamic_addr, unsigned &block_lev
     auto const addr           = address_in_stack(dynamic_addr);
     auto const formal_display = stack.get(addr + 1).get_int();
 
-    block_level  = formal_display >> 15;
-    prev_display = formal_display & BITS(15);
+    block_level  = formal_display >> 20;
+    prev_display = formal_display & BITS(20);
 }
 
 //
diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 8d849c4..fb650c3 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -550,11 +550,7 @@ void Virtual_Stack::push(const Stack_Cell &item)
 
 void Virtual_Stack::push(Cell_Type type, uint64_t value)
 {
-    storage.push_back({});
-    auto &item = storage.back();
-    item.type  = type;
-    item.value = value;
-    Machine::trace_stack(storage.size() - 1, item.to_string(), "Push");
+    push(Stack_Cell{ type, value });
 }
 
 //
-- 
2.43.0


From e027a13859c43c9e4099cb68015717c67089347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:23 +0000
Subject: [PATCH 17/47] fix: detect subscripts which are out of bounds by a
 multiple of 2^20

---
 simulator/opcodes.cpp   | 24 +++++++++++-------------
 simulator/processor.cpp | 15 +++++++++++++++
 simulator/processor.h   |  1 +
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 65a8baa..752b32f 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -524,35 +524,35 @@ bool Processor::call_opc(unsigned opc)
         // 2+ndim: number of words in the array, negated
         unsigned addr = storage_fn.get_addr();
         int location  = x1_to_integer(load_word(addr));
-        int base      = load_word(addr + 1);
+        auto lower    = array_offset(location, load_word(addr + 1));
         int limit     = x1_to_integer(load_word(addr + 2 + ndim));
         // The limit must look like a negative number with a reasonable absolute value.
         if (limit >= 0 || -limit > 0xfffff) {
             throw std::runtime_error("A wrong number of indexes for an array");
         }
-        int elt_addr = base;
-        int idx0     = 0; // for the error message
+        int64_t linear = 0;
+        int idx0       = 0; // for the error message
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
                                                  : round_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
-            elt_addr += idx * dimsize;
+            linear += (int64_t)idx * dimsize;
         }
-        elt_addr &= BITS(20); // 16 rather than 15 is to catch "negative" addresses
-        if (elt_addr < location || elt_addr + limit >= location) {
+        if (linear < lower || linear + limit >= lower) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
             if (ndim == 1) {
                 ostr << "Index " << idx0 << " is ";
             } else {
-                ostr << "Indexing (linearized " << elt_addr - base << ") ";
+                ostr << "Indexing (linearized " << linear << ") ";
             }
-            ostr << "beyond limits for array [" << (location - base) / elsize << ':'
-                 << (location - base - limit) / elsize - 1 << ']';
+            ostr << "beyond limits for array [" << lower / elsize << ':'
+                 << (lower - limit) / elsize - 1 << ']';
             throw std::runtime_error(ostr.str());
         }
+        unsigned elt_addr = location + (linear - lower);
         if (storage_fn.is_int_addr())
             stack.push_int_addr(elt_addr);
         else
@@ -927,8 +927,7 @@ bool Processor::call_opc(unsigned opc)
         // value array positioning
         unsigned storage_fn = address_in_stack(core.S);
         unsigned actual     = stack.get(storage_fn).get_addr();
-        unsigned zero_base =
-            stack.get(storage_fn + 1).get_addr() & 0xFFFF; // remove stray high bits
+        int offset        = array_offset(actual, stack.get(storage_fn + 1).get_addr());
         unsigned elt_size = stack.get(storage_fn + 2).get_int();
         Cell_Type ct = elt_size % 2 == 1 ? Cell_Type::INTEGER_ADDRESS : Cell_Type::REAL_ADDRESS;
         // Element size correctors for type conversion.
@@ -964,8 +963,7 @@ bool Processor::call_opc(unsigned opc)
         }
         unsigned words = -x1_to_integer(stack.get(storage_fn + pos).get_int());
         stack.set(storage_fn, Stack_Cell{ ct, stack_base + STACK_BASE });
-        int offset = actual - zero_base;
-        offset     = offset * mul / div;
+        offset = offset * mul / div;
         stack.set(storage_fn + 1, Stack_Cell{ ct, stack_base - offset + STACK_BASE });
         for (unsigned i = 0; i < words; ++i) {
             switch (elt_size) {
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 8be8a03..2172155 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -914,6 +914,21 @@ void Processor::make_storage_function_frame(int elt_size)
     increment_stack_base(nitems * (ndim + 3));
 }
 
+//
+// Get linearized lower bound of an array, given the address of its first word
+// and the address of the (possibly non-existing) element with all indexes 0.
+// Address of the zero element can be negative, with a stray high bit in case
+// of a statically allocated array.
+//
+int Processor::array_offset(unsigned location, Word zero_element)
+{
+    auto const nbits = (location < STACK_BASE) ? 26 : 27;
+    auto const value = zero_element & BITS(nbits);
+    auto const zero  = (value >> (nbits - 1)) ? (int)value - (1 << nbits) : (int)value;
+
+    return (int)location - zero;
+}
+
 Word Processor::load_word(unsigned addr)
 {
     if (addr < STACK_BASE)
diff --git a/simulator/processor.h b/simulator/processor.h
index 4bbba6f..438875c 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -194,6 +194,7 @@ private:
     void make_storage_function_frame(int elt_size);
     void make_value_array_function_frame(int elt_size);
     Word load_word(unsigned addr);
+    static int array_offset(unsigned location, Word zero_element);
 
     // Apply given operation to the retrieved address of formal parameter.
     void apply_operation(Formal_Op post_op, unsigned addr, Cell_Type type);
-- 
2.43.0


From b30cf111d942ea2511c4bc26232eefc66f207f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:27 +0000
Subject: [PATCH 18/47] fix: declare empty arrays and refuse too large ones

---
 simulator/opcodes.cpp   |  6 +++---
 simulator/processor.cpp | 14 +++++++++-----
 simulator/x1_arch.h     |  8 ++++++++
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 752b32f..9e20263 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -527,7 +527,7 @@ bool Processor::call_opc(unsigned opc)
         auto lower    = array_offset(location, load_word(addr + 1));
         int limit     = x1_to_integer(load_word(addr + 2 + ndim));
         // The limit must look like a negative number with a reasonable absolute value.
-        if (limit >= 0 || -limit > 0xfffff) {
+        if (!is_negative(load_word(addr + 2 + ndim)) || -limit > 0xfffff) {
             throw std::runtime_error("A wrong number of indexes for an array");
         }
         int64_t linear = 0;
@@ -911,7 +911,7 @@ bool Processor::call_opc(unsigned opc)
         // It is the negated array length.
         for (pos = 2; pos < 32; ++pos)
             if (stack.get(addr + pos).is_int_value() &&
-                x1_to_integer(stack.get(addr + pos).get_int()) < 0)
+                is_negative(stack.get(addr + pos).get_int()))
                 break;
         if (pos == 32)
             throw std::runtime_error("Runaway array storage function frame");
@@ -950,7 +950,7 @@ bool Processor::call_opc(unsigned opc)
         // It is the negated array length.
         for (pos = 2; pos < 8; ++pos)
             if (stack.get(storage_fn + pos).is_int_value() &&
-                x1_to_integer(stack.get(storage_fn + pos).get_int()) < 0)
+                is_negative(stack.get(storage_fn + pos).get_int()))
                 break;
         if (pos == 8)
             throw std::runtime_error("Runaway value array storage function frame");
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 2172155..adac784 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -896,15 +896,19 @@ void Processor::make_storage_function_frame(int elt_size)
         stack.push_real_addr(0);
     stack.push_null(); // future "0 element" address
     unsigned zero_base = stack.count() - 1;
-    int offset         = 0;
-    int stride         = elt_size;
+    int64_t offset     = 0;
+    int64_t stride     = elt_size;
     for (int i = 0; i < ndim; ++i) {
         stack.push_int_value(stride);
         offset += stride * dims[i].first;
-        stride *= (dims[i].second - dims[i].first + 1);
+        stride *= std::max(dims[i].second - dims[i].first + 1, 0);
+        if (stride >= (int64_t)BITS(26) || std::abs(offset) >= (int64_t)BITS(26)) {
+            throw std::runtime_error("Too large array");
+        }
     }
     stack.set_int_value(zero_base, integer_to_x1(offset));
-    stack.push_int_value(integer_to_x1(-stride));
+    // Negated length of an empty array is minus zero.
+    stack.push_int_value(integer_to_x1(stride) ^ BITS(27));
     // Replicate the storage function (nitems-1) times.
     for (int i = 0; i < nitems - 1; ++i) {
         for (int j = 0; j < ndim + 3; ++j) {
@@ -961,7 +965,7 @@ void Processor::make_value_array_function_frame(int elt_size)
             w = val * 10 + elt_size;
         }
         stack.push_int_value(w);
-        seen_limit |= val < 0 && -val <= 32767;
+        seen_limit |= is_negative(w) && -val <= 32767;
     }
     if (!seen_limit) {
         throw std::runtime_error("Too many dimensions for value array");
diff --git a/simulator/x1_arch.h b/simulator/x1_arch.h
index 7f4a647..052b0d7 100644
--- a/simulator/x1_arch.h
+++ b/simulator/x1_arch.h
@@ -90,6 +90,14 @@ enum {
     X1_FALSE = 1,
 };
 
+//
+// Check for negative number, including minus zero.
+//
+inline bool is_negative(Word word)
+{
+    return (word >> 26) & 1;
+}
+
 //
 // Negate a number.
 //
-- 
2.43.0


From cad325a420af9fed06a977fd1a31682dbfeadd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:43 +0000
Subject: [PATCH 19/47] fix: refuse programs whose variables do not fit in the
 store

---
 compiler/x1algc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 3403776..27cf923 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2640,6 +2640,8 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw - arrd;
+            if ((long long)(arrd + 1) * store[tlsc - 1] >= d15)
+                stop(98, "Store too small for the program");
             if (dl == 101) /*[*/
                 fill_t_list(-(((arrd + 1) * store[tlsc - 1]) & (d26 - 1)));
             else
@@ -3307,6 +3309,9 @@ Static Void program_loader()
         }
         V.ll = read_crf_item(&V);
     }
+    /*static variables must not overlap the program:*/
+    if (gvc > mcpe)
+        stop(98, "Store too small for the program");
     /*load result list RLI:*/
     V.ll            = rlsc;
     V.read_location = rnsb;
-- 
2.43.0


From af1a0f004651a7567c62a033379c2c5b304f97a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 20/47] fix: collate XEEN argument in representation of the
 machine

---
 simulator/opcodes.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 9e20263..8680140 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1070,7 +1070,9 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_XEEN: {
         // Read console switches.
-        auto bitmask = stack.pop_integer();
+        // Representation of zero is a row of 27 ones here.
+        auto argument = stack.pop_integer();
+        auto bitmask  = (argument == 0) ? BITS(27) : integer_to_x1(argument);
         stack.push_int_value(machine.read_console_switches(std::cin, bitmask));
         break;
     }
-- 
2.43.0


From 262cb9a9876ac7206f38d644b3e93696f305b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:22 +0000
Subject: [PATCH 21/47] fix: refuse console switches which are not up to 27
 binary digits

---
 simulator/input.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index 8e3e563..d058def 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -2,6 +2,7 @@
 #include <istream>
 #include <streambuf>
 #include <limits>
+#include <stdexcept>
 
 #include "machine.h"
 
@@ -120,6 +121,12 @@ unsigned Machine::read_console_switches(std::istream &input_stream, unsigned bit
             try {
                 std::string line;
                 if (std::getline(input_stream, line)) {
+                    // Ignore spaces around the number.
+                    line.erase(line.find_last_not_of(" \t\r") + 1);
+                    line.erase(0, line.find_first_not_of(" \t"));
+                    if (line.size() > 27 || line.find_first_not_of("01") != std::string::npos) {
+                        throw std::invalid_argument("Not a binary number");
+                    }
                     console_switches = std::stoul(line, nullptr, 2);
                     switches_are_valid = true;
                     break;
-- 
2.43.0


From 1c608039729c3308dbec6c7272f124629be6ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 22/47] fix: skip strings in switch declarations as a whole

---
 compiler/x1algc.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 27cf923..53fd7d7 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -742,6 +742,18 @@ Local Void block_introduction(struct LOC_prescan *LINK)
     augment_prescan_list(LINK);
 } /*block_introduction*/
 
+Local void skip_string()
+{
+    do {
+        if (dl == 102) /*|<*/
+            qc++;
+        if (dl == 103) /*|>*/
+            qc--;
+        if (qc > 0)
+            read_next_symbol();
+    } while (qc != 0);
+} /*skip_string*/
+
 Static Void prescan()
 { /*body of prescan*/
     /*HK*/
@@ -806,14 +818,7 @@ _L3:
         goto _L1;
     }
     if (dl == 102) { /*|<*/
-        do {
-            if (dl == 102) /*|<*/
-                qc++;
-            if (dl == 103) /*|>*/
-                qc--;
-            if (qc > 0)
-                read_next_symbol();
-        } while (qc != 0);
+        skip_string();
         goto _L2;
     }
     if (dl == 104) { /*begin*/
@@ -872,6 +877,8 @@ _L4:
 _L5:
     read_until_next_delimiter();
 _L6:
+    if (dl == 102) /*|<*/
+        skip_string();
     if (dl != 91) /*;*/
         goto _L4;
     goto _L2;
-- 
2.43.0


From a1e4c4705bbce781cd82eca6685ddd25d7d16959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 23/47] fix: do not mistake failure to read input for the end
 of input

---
 simulator/input.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index d058def..b5c3b79 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <iostream>
 #include <istream>
 #include <streambuf>
@@ -14,6 +15,16 @@ bool Machine::is_interactive = _isatty(0);
 bool Machine::is_interactive = isatty(0);
 #endif
 
+//
+// Input which cannot be read must not be mistaken for the end of input.
+//
+static void check_input_failure()
+{
+    if (std::ferror(stdin)) {
+        throw std::runtime_error("Cannot read input");
+    }
+}
+
 class ReplaceTenWithEStreamBuf : public std::streambuf {
 public:
     explicit ReplaceTenWithEStreamBuf(std::istream& inp) : in_stream(inp.rdbuf()) {}
@@ -83,6 +94,7 @@ long double Machine::input_real(std::istream &orig_stream)
         }
         long double x{};
         input_stream >> x;
+        check_input_failure();
 
         if (input_stream) {
             // Number is valid.
@@ -120,7 +132,7 @@ unsigned Machine::read_console_switches(std::istream &input_stream, unsigned bit
             }
             try {
                 std::string line;
-                if (std::getline(input_stream, line)) {
+                if (std::getline(input_stream, line) && !std::ferror(stdin)) {
                     // Ignore spaces around the number.
                     line.erase(line.find_last_not_of(" \t\r") + 1);
                     line.erase(0, line.find_first_not_of(" \t"));
@@ -136,6 +148,7 @@ unsigned Machine::read_console_switches(std::istream &input_stream, unsigned bit
             }
 
             // Cannot parse the input.
+            check_input_failure();
             if (input_stream.eof()) {
                 throw std::runtime_error("No input");
             }
@@ -160,7 +173,8 @@ int Machine::input_char(std::istream &stream)
 again:
     if (!stream.get(ch)) {
         // End of file.
-eof:    return 0377;
+eof:    check_input_failure();
+        return 0377;
     }
     if (ch >= '0' && ch <= '9') {
         // Digits.
-- 
2.43.0


From 7ae79495752f263dcf61215572a3a82274d647e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 24/47] fix: output tabulation before input is awaited

---
 simulator/opcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8680140..f4f8b44 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1061,7 +1061,7 @@ bool Processor::call_opc(unsigned opc)
     }
 
     case OPC_TAB:
-        std::cout << '\t';
+        std::cout << '\t' << std::flush;
         break;
 
     case OPC_NLCR:
-- 
2.43.0


From 4e97b984c2ec1278f39020961e13e86a69b502fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 25/47] fix: output complaint about bad number before the rest
 of the line is awaited

---
 simulator/input.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index b5c3b79..e6ed3a8 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -108,7 +108,7 @@ long double Machine::input_real(std::istream &orig_stream)
         if (!is_interactive) {
             throw std::runtime_error("Bad input");
         }
-        std::cout << "Bad input, try again.\n";
+        std::cout << "Bad input, try again.\n" << std::flush;
         input_stream.clear();
 
         // Remove bad input and try again.
@@ -155,7 +155,7 @@ unsigned Machine::read_console_switches(std::istream &input_stream, unsigned bit
             if (!is_interactive) {
                 throw std::runtime_error("Bad input");
             }
-            std::cout << "Bad input, try again.\n";
+            std::cout << "Bad input, try again.\n" << std::flush;
             input_stream.clear();
         }
     }
-- 
2.43.0


From ab7af0cf8b12dc3eb47ecb5c66ec5b5f5c0e9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 26/47] fix: print two-digit exponents with FLOT, check the
 exponent after rounding

---
 simulator/machine.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 86837e2..7ee9219 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -561,6 +561,20 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
     }
 
     int exponent = (x == 0) ? 0 : 1 + floor(log10l(x));
+
+    // Scale to range [0, 1).
+    if (exponent != 0) {
+        x /= powl(10.0, exponent);
+    }
+
+    // Round.
+    x += 0.5 / powl(10.0, n);
+    if (x >= 1) {
+        x /= 10;
+        exponent++;
+    }
+
+    // The rounded exponent must fit into m digits.
     switch (m) {
     case 1:
         if (exponent > 9 || exponent < -9) {
@@ -568,7 +582,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         }
         break;
     case 2:
-        if (exponent > 9 || exponent < -99) {
+        if (exponent > 99 || exponent < -99) {
             goto again;
         }
         break;
@@ -577,18 +591,6 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         break;
     }
 
-    // Scale to range [0, 1).
-    if (exponent != 0) {
-        x /= powl(10.0, exponent);
-    }
-
-    // Round.
-    x += 0.5 / powl(10.0, n);
-    if (x >= 1) {
-        x /= 10;
-        exponent++;
-    }
-
     // Print mantissa.
     out << sign_symbol << '.';
     for (int count = 0; count < n; count++) {
-- 
2.43.0


From 4ebf0e5a71f0eef5e4d383af4b7f1bf8b401ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 27/47] fix: keep the carry when the exponent of a real
 constant is applied

---
 compiler/x1algc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 53fd7d7..ad18931 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -634,7 +634,8 @@ _L3: /*float*/
         do {
             fnw *= 5;
             inw = (fnw & 7) * d23 + inw * 5 / 8;
-            fnw /= 8;
+            fnw = fnw / 8 + inw / d26;
+            inw &= d26 - 1;
             if (fnw < d25) {
                 inw *= 2;
                 fnw = fnw * 2 + inw / d26;
-- 
2.43.0


From 35f3ccb7f81fb66b33b32d2f306a95da7e126647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 28/47] fix: refuse real constants that are too small for the
 format

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index ad18931..c053b3e 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -672,6 +672,8 @@ _L3: /*float*/
     }
     if (bexp > 4095)
         stop(4, "Real too large");
+    if (bexp < 0)
+        stop(4, "Real too small");
     inw   = inw / 4096 * 4096 + bexp;
     dflag = 1;
 _L4:
-- 
2.43.0


From 01cb2222eee4b18c6d7b0fcbaef0639aaf3829ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:17 +0000
Subject: [PATCH 29/47] fix: extend the future list far enough before an entry
 is filled

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index c053b3e..04dd855 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1313,7 +1313,7 @@ Local Void fill_future_list(int place, int value)
     /*FU*/
     int i, FORLIM;
 
-    if (place >= klib) {
+    while (place >= klib) {
         if (nlib + nlsc + 16 >= plib)
             stop(6, "fill_future_list: Store capacity too small");
         FORLIM = klib;
-- 
2.43.0


From d4712077b5180e8f6e0b59ffc607bae6215e5058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 30/47] fix: report a trace that cannot be written completely

---
 simulator/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index 8b8842f..ec7e302 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -120,6 +120,9 @@ int main(int argc, char *argv[])
         if (!std::cout.flush()) {
             throw std::runtime_error("Cannot write to standard output");
         }
+        if (!Machine::get_trace_stream().flush()) {
+            throw std::runtime_error("Cannot write trace");
+        }
 
     } catch (std::exception &ex) {
         std::cerr << "Error: " << ex.what() << std::endl;
-- 
2.43.0


From fcb47117d5aa9ed85c5abd51a3504887599320ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 31/47] fix: keep files from taking the place of closed
 standard descriptors

---
 simulator/main.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index ec7e302..73720ed 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -1,3 +1,4 @@
+#include <fcntl.h>
 #include <getopt.h>
 
 #include <cstring>
@@ -38,12 +39,27 @@ static void print_usage(std::ostream &out, const char *prog_name)
     out << "    -d, --debug             Enable tracing\n";
 }
 
+//
+// Occupy closed standard descriptors, so that no file opened later is taken for one of them.
+// Reading from or writing to them fails, as it should.
+//
+static void reserve_standard_descriptors()
+{
+    for (int fd = 0; fd <= 2; fd++) {
+        if (fcntl(fd, F_GETFD) < 0) {
+            open("/dev/null", fd == 0 ? O_WRONLY : O_RDONLY);
+        }
+    }
+}
+
 //
 // Main routine of the simulator,
 // when invoked from a command line.
 //
 int main(int argc, char *argv[])
 {
+    reserve_standard_descriptors();
+
     // Get the program name.
     const char *prog_name = strrchr(argv[0], '/');
     if (prog_name == nullptr) {
-- 
2.43.0


From 3ad4bf4a696c2242b4f9bd6bd1a0f12ffab1a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 32/47] fix: refuse programs nested too deeply for the
 translation list

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 04dd855..d999cd6 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -683,6 +683,8 @@ _L5:;
 
 Static Void fill_t_list(int n)
 {
+    if (tlsc >= mcpb)
+        stop(17, "Program nested too deeply");
     store[tlsc] = n;
     tlsc++;
 } /*fill_t_list*/
-- 
2.43.0


From 61c6c62f76e8250d3b1d7c83c9338e6a5119c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 33/47] fix: do not mistake failure to process input for bad
 input

---
 simulator/input.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index e6ed3a8..77ec353 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -18,9 +18,9 @@ bool Machine::is_interactive = isatty(0);
 //
 // Input which cannot be read must not be mistaken for the end of input.
 //
-static void check_input_failure()
+static void check_input_failure(const std::istream &stream)
 {
-    if (std::ferror(stdin)) {
+    if (stream.bad() || std::ferror(stdin)) {
         throw std::runtime_error("Cannot read input");
     }
 }
@@ -94,7 +94,7 @@ long double Machine::input_real(std::istream &orig_stream)
         }
         long double x{};
         input_stream >> x;
-        check_input_failure();
+        check_input_failure(input_stream);
 
         if (input_stream) {
             // Number is valid.
@@ -148,7 +148,7 @@ unsigned Machine::read_console_switches(std::istream &input_stream, unsigned bit
             }
 
             // Cannot parse the input.
-            check_input_failure();
+            check_input_failure(input_stream);
             if (input_stream.eof()) {
                 throw std::runtime_error("No input");
             }
@@ -173,7 +173,7 @@ int Machine::input_char(std::istream &stream)
 again:
     if (!stream.get(ch)) {
         // End of file.
-eof:    check_input_failure();
+eof:    check_input_failure(stream);
         return 0377;
     }
     if (ch >= '0' && ch <= '9') {
-- 
2.43.0


From 49b95734d6d50cf57c84dfd46da5732d022e224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 34/47] fix: do not read a library tape after it has been
 closed

---
 compiler/x1algc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index d999cd6..ea11594 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3417,6 +3417,7 @@ Static Void program_loader()
             V.ll = read_bit_string(13, &V);
         }
         fclose(lib_tape);
+        lib_tape = NULL;
     }
     /*program loading completed:*/
     typ_address(mcpe);
-- 
2.43.0


From e7bd896ffb8c76682a48f931a147dd01263f29bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 35/47] fix: check block level when a goto leaves blocks

---
 simulator/opcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index f4f8b44..27b305e 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -227,7 +227,7 @@ bool Processor::call_opc(unsigned opc)
         // goto adjustment
         // Exit to block level given in register B.
         frame_ptr = last_frame_ptr;
-        roll_back(display[core.B]);
+        roll_back(get_display(core.B));
         break;
 
     case OPC_SSI: {
-- 
2.43.0


From 2f290bc65c96f695bdcc4ad4eabe4e1f37f09898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 36/47] fix: check that the stack is not empty when its top is
 used

---
 simulator/virtual_stack.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/simulator/virtual_stack.h b/simulator/virtual_stack.h
index 03c2cc6..bec3803 100644
--- a/simulator/virtual_stack.h
+++ b/simulator/virtual_stack.h
@@ -1,6 +1,7 @@
 #ifndef X1_VIRTUAL_STACK_H
 #define X1_VIRTUAL_STACK_H
 
+#include <stdexcept>
 #include <vector>
 
 #include "x1_arch.h"
@@ -77,10 +78,22 @@ public:
     unsigned count() const { return storage.size(); }
 
     // Get the top of the stack.
-    Stack_Cell &top() { return storage.back(); }
+    Stack_Cell &top()
+    {
+        if (storage.size() == 0) {
+            throw std::runtime_error("Stack is empty");
+        }
+        return storage.back();
+    }
 
     // Remove all items (but don't deallocate).
-    void erase(unsigned ptr) { storage.erase(storage.begin() + ptr, storage.end()); }
+    void erase(unsigned ptr)
+    {
+        if (ptr > storage.size()) {
+            throw std::runtime_error("Cannot erase beyond top of stack");
+        }
+        storage.erase(storage.begin() + ptr, storage.end());
+    }
 
     // Remove one item from stack, and return it as cell.
     Stack_Cell pop();
-- 
2.43.0


From 4ab5305f20fd69bd7de5f88aeed822d55f6d6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 37/47] fix: stop at damaged names, arrays, library words and
 storage functions instead of accessing foreign storage

---
 compiler/x1algc.c     | 12 ++++++++----
 simulator/opcodes.cpp |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index ea11594..2faea0c 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1396,13 +1396,15 @@ Local Void label_declaration()
     /*FY*/
     int id1, id2, i, w;
 
-    id1 = store[nlib + nid];
+    id1 = Rstore(nlib + nid);
     if (((id1 / d15) & 1) == 0) /*preceding applied occurrences*/
         fill_future_list(flib + (id1 & (d15 - 1)), rlsc);
     else
         store[nlib + nid] = id1 - d15 + d24 + rlsc;
     /*first occurrence*/
     id1 = store[nlib + nid - 1];
+    if (id1 == 0)
+        stop(7, "Identifier expected");
     if ((id1 & (d3 - 1)) == 0) { /*at most 4 letters/digits*/
         i = 4;
         id1 /= d3;
@@ -1563,7 +1565,7 @@ Local Void reservation_of_arrays()
             store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
             pnlv += 256; /*at most 5 indices*/
         }
-        if ((store[rlab - 2] & (d3 - 1)) == 0)
+        if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
@@ -1581,7 +1583,7 @@ Local Void reservation_of_arrays()
                 fill_result_list(94, 0);
             }
         }
-        if ((store[rlab - 2] & (d3 - 1)) == 0)
+        if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
@@ -2410,7 +2412,7 @@ _L101: /*]*/
         arra = nlib + nlsc;
         do {
             Wstore(arra - 1, arrb + pnlv);
-            if ((store[arra - 2] & (d3 - 1)) == 0)
+            if ((Rstore(arra - 2) & (d3 - 1)) == 0)
                 arra -= 2;
             else
                 arra -= 3;
@@ -3138,6 +3140,8 @@ Local int read_binary_word(struct LOC_program_loader *LINK)
             w -= 366;
             /*011xxxxxxx*/
         }
+        if (w < 0 || w > 112)
+            stop(25, "Bad operation in bit string");
         return (opc_table[w]);
     } /*0*/
     else {
diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 27b305e..0081727 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -543,6 +543,9 @@ bool Processor::call_opc(unsigned opc)
         if (linear < lower || linear + limit >= lower) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
+            if (elsize == 0) {
+                throw std::runtime_error("Bad storage function of an array");
+            }
             if (ndim == 1) {
                 ostr << "Index " << idx0 << " is ";
             } else {
-- 
2.43.0


From 433c1943d14126d0e5bff3b81caba8a7a2473fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:01 +0000
Subject: [PATCH 38/47] fix: stop at damaged references to library procedures

---
 compiler/x1algc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 2faea0c..9435dee 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3297,8 +3297,8 @@ Static Void program_loader()
         /*at least 5 letters or digits*/
         if (((idm / d15) & 1) == 0) { /*MCP is used*/
             mcp_count++;
-            store[mlib + ((store[flib + (idm & (d15 - 1))] - rlib) & (d15 - 1))] =
-                -(flib + (idm & (d15 - 1)));
+            Wstore(mlib + ((Rstore(flib + (idm & (d15 - 1))) - rlib) & (d15 - 1)),
+                   -(flib + (idm & (d15 - 1))));
         }
     }
     /*determine secondary need using the cross-reference list:*/
-- 
2.43.0


From 17a362b35fe3625ffd31b1fbd5d5ab8cfb252a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:33 +0000
Subject: [PATCH 39/47] fix: formal procedures are called in the environment
 they were passed in, and can be passed on

---
 simulator/processor.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index adac784..fb53c9b 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -585,16 +585,28 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
 
 //
 // Get address of procedure parameter at dynamic address.
+// Set display[] to the environment in which the procedure has been passed
+// as actual parameter: that is where its non-local variables are.
 //
 unsigned Processor::get_formal_proc(unsigned dynamic_addr)
 {
-    unsigned const arg_descr = arg_descriptor(dynamic_addr);
-    unsigned const arg_addr  = arg_descr & BITS(15);
-    switch (arg_descr >> 15 & 077) {
-    case 040:
-        return arg_addr;
-    default:
-        throw std::runtime_error("Unknown descriptor of formal procedure: " + to_octal(arg_descr));
+    for (;;) {
+        unsigned const arg_descr = arg_descriptor(dynamic_addr);
+        unsigned const arg_addr  = arg_descr & BITS(15);
+        unsigned arg_level, arg_frame;
+        get_arg_display(dynamic_addr, arg_level, arg_frame);
+        update_display(arg_level, arg_frame);
+        switch (arg_descr >> 15 & 077) {
+        case 040:
+            return arg_addr;
+        case 006:
+            // Indirection: argument points to another argument in parent's frame.
+            dynamic_addr = (arg_descr >> 22) | (arg_addr << 5);
+            break;
+        default:
+            throw std::runtime_error("Unknown descriptor of formal procedure: " +
+                                     to_octal(arg_descr));
+        }
     }
 }
 
-- 
2.43.0


From 9ef70b169bf5fbc1b0e7edd0e28c939d7c4ef5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 40/47] fix: a result beyond the range of long double is an
 overflow, not a small number

---
 simulator/x1_arch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index e8fb6a4..61de152 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -36,6 +36,11 @@ Real ieee_to_x1(long double input)
         input = -input;
     }
 
+    if (!std::isfinite(input)) {
+        // Beyond the range of long double.
+        throw std::runtime_error("Overflow in real arithmetic");
+    }
+
     // Split into mantissa and exponent.
     int exponent;
     long double mantissa = frexpl(input, &exponent);
-- 
2.43.0


From d9f219a7d0ed80fee66b77d956aaa6dba36520d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:38 +0000
Subject: [PATCH 41/47] fix: --debug takes no argument

It is documented without one, as the short form -d, but swallowed the
word that follows it.
---
 simulator/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index 73720ed..6bed583 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -14,7 +14,7 @@ static const struct option long_options[] = {
     { "help",           no_argument,        nullptr,    'h' },
     { "version",        no_argument,        nullptr,    'V' },
     { "trace",          required_argument,  nullptr,    'T' },
-    { "debug",          required_argument,  nullptr,    'd' },
+    { "debug",          no_argument,        nullptr,    'd' },
     { nullptr },
     // clang-format on
 };
-- 
2.43.0


From 8dc23a15c2979f8cff0ca8d88b3a52ffa271959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:38 +0000
Subject: [PATCH 42/47] fix: from5track reports output it could not write

---
 library/from5track.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/from5track.cc b/library/from5track.cc
index ae3989d..0643a11 100644
--- a/library/from5track.cc
+++ b/library/from5track.cc
@@ -82,4 +82,8 @@ int main() {
                    p | (word & 077777), parity(word) ? " !" : "" );
         }
     }
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("Could not write output");
+        exit(EXIT_FAILURE);
+    }
 }
-- 
2.43.0


From fad11d8d65b1d2663cf03bee4e50cd59d208c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:38 +0000
Subject: [PATCH 43/47] fix: from5track reports a read error instead of taking
 half of a number

---
 library/from5track.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/from5track.cc b/library/from5track.cc
index 0643a11..a3950bd 100644
--- a/library/from5track.cc
+++ b/library/from5track.cc
@@ -3,7 +3,7 @@
 
 int read_byte() {
     int byte;
-    if (0 >= scanf("%d", &byte) || byte < 0 || byte > 31) {
+    if (0 >= scanf("%d", &byte) || ferror(stdin) || byte < 0 || byte > 31) {
         printf("Short or bad tape\n");
         exit(EXIT_FAILURE);
     }
@@ -19,7 +19,7 @@ int parity(unsigned long a) {
 bool read_header(int& mcp, int& len) {
     int byte;
     bool p;
-    if (0 >= scanf("%d", &byte) || byte != 31) {
+    if (0 >= scanf("%d", &byte) || ferror(stdin) || byte != 31) {
         printf("Header expected\n");
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From beeb5934b2308ba47e4e49991c6f870a6659e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 44/47] fix: skip a Z beyond the ninth character of an
 identifier like any other letter

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 9435dee..9da88fc 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -550,7 +550,7 @@ Static Void read_until_next_delimiter()
                 marker = (fnw & (d6 - 1)) * d21;
                 fnw    = fnw / d6 + d21 * 63;
             }
-            while (dl < 62)
+            while (dl <= 62)
                 read_next_symbol();
         }
         goto _L4;
-- 
2.43.0


From 1a67aea9b6466efd94bcd6dc13cae674a3e041c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:11 +0000
Subject: [PATCH 45/47] fix: print a line break in a string once

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 9da88fc..377d836 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -211,6 +211,8 @@ _L1:
             input_eof_seen = true;
             return 123; /*space*/
         }
+        // End of line is announced below, once.
+        input_line[strcspn(input_line, "\n")] = '\0';
         input_pos = 0;
         /*writeln('---');*/
         /*for debug*/
-- 
2.43.0


From e6547d93e63ec19f0cc91d4a6267d7a426056643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:01 +0000
Subject: [PATCH 46/47] fix: report a line that cannot be written to a terminal

---
 simulator/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index 6bed583..d1280dc 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -1,6 +1,7 @@
 #include <fcntl.h>
 #include <getopt.h>
 
+#include <cstdio>
 #include <cstring>
 #include <iostream>
 
@@ -60,6 +61,11 @@ int main(int argc, char *argv[])
 {
     reserve_standard_descriptors();
 
+    // All output is flushed explicitly. With line buffering, as by default on a terminal,
+    // fwrite() would not report a failure to write a line.
+    static char output_buffer[BUFSIZ];
+    setvbuf(stdout, output_buffer, _IOFBF, sizeof(output_buffer));
+
     // Get the program name.
     const char *prog_name = strrchr(argv[0], '/');
     if (prog_name == nullptr) {
-- 
2.43.0


From 70dde8021d7837ad3cb83c3a5e6476002ec8bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:22 +0000
Subject: [PATCH 47/47] fix: report that there is no memory for the command
 line

---
 simulator/main.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index d1280dc..61ef0e6 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -54,10 +54,9 @@ static void reserve_standard_descriptors()
 }
 
 //
-// Main routine of the simulator,
-// when invoked from a command line.
+// Parse the command line and run the program.
 //
-int main(int argc, char *argv[])
+static int run(int argc, char *argv[])
 {
     reserve_standard_descriptors();
 
@@ -153,3 +152,18 @@ int main(int argc, char *argv[])
 
     return machine.get_exit_status();
 }
+
+//
+// Main routine of the simulator,
+// when invoked from a command line.
+//
+int main(int argc, char *argv[])
+{
+    try {
+        return run(argc, argv);
+    } catch (std::exception &ex) {
+        // No memory for the command line.
+        std::cerr << "Error: " << ex.what() << std::endl;
+        return EXIT_FAILURE;
+    }
+}
-- 
2.43.0

