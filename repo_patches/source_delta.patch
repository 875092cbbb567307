From 0e4c64777fb240b3530e14780bb6ffe2b982a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:44 +0000
Subject: [PATCH 01/51] fix: report overflow when raising an integer to a power
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The product was computed in a 32-bit integer, which silently wrapped
around: print(2↑32) printed 0.
---
 simulator/virtual_stack.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 68a6440..8aeff01 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -273,18 +273,30 @@ void Stack_Cell::subtract(const Stack_Cell &another)
 
 //
 // Iterative function to calculate integer pow(x, n).
+// Throw exception when the result does not fit into integer.
 //
-static int power(int x, unsigned n)
+static int power(int x0, unsigned n)
 {
-    int result = 1;
-    while (n) {
+    int64_t const limit = BITS(26);
+    int64_t result      = 1;
+    int64_t x           = x0;
+    for (;;) {
         if (n & 1) {
             result *= x;
+            if (result > limit || result < -limit) {
+                throw std::runtime_error("Overflow in integer arithmetic");
+            }
         }
         n = n >> 1;
+        if (n == 0) {
+            return result;
+        }
+        // The square is going to be a factor of the result.
         x *= x;
+        if (x > limit) {
+            throw std::runtime_error("Overflow in integer arithmetic");
+        }
     }
-    return result;
 }
 
 //
-- 
2.43.0


From 7aee0a76060d2b322f874aec8a3546f52e3859fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:05 +0000
Subject: [PATCH 02/51] fix: report overflow when a real does not fit into an
 integer

Conversion of a real beyond the integer range (assignment, array index,
value array) went through a cast with undefined result and stored garbage
instead of stopping with an error.
---
 simulator/opcodes.cpp   |  4 ++--
 simulator/processor.cpp |  2 +-
 simulator/x1_arch.cpp   | 13 +++++++++++++
 simulator/x1_arch.h     |  5 +++++
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8435906..dcb738e 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -535,7 +535,7 @@ bool Processor::call_opc(unsigned opc)
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
-                                                 : (int)roundl(x1_to_ieee(idxs[i].get_real()));
+                                                 : x1_to_integer(ieee_to_x1_integer(x1_to_ieee(idxs[i].get_real())));
             if (i == 0)
                 idx0 = idx;
             elt_addr += idx * dimsize;
@@ -976,7 +976,7 @@ bool Processor::call_opc(unsigned opc)
                 stack.push_real_value(load_real(actual + i));
                 break;
             case 21: // real to integer
-                stack.push_int_value(integer_to_x1(roundl(x1_to_ieee(load_real(actual + 2 * i)))));
+                stack.push_int_value(ieee_to_x1_integer(x1_to_ieee(load_real(actual + 2 * i))));
                 break;
             case 12: // integer to real
                 stack.push_real_value(
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a8f9459..2955d66 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -531,7 +531,7 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
         if (src.is_int_value()) {
             result = src.get_int();
         } else if (src.is_real_value()) {
-            result = integer_to_x1((int)roundl(x1_to_ieee(src.get_real())));
+            result = ieee_to_x1_integer(x1_to_ieee(src.get_real()));
         } else {
             throw std::runtime_error("Cannot store address");
         }
diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index a5d6037..51cb4a0 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -125,6 +125,19 @@ Word integer_to_x1(int input)
     return result;
 }
 
+//
+// Round real value to nearest integer in X1 format.
+// Throw exception when the result does not fit.
+//
+Word ieee_to_x1_integer(long double input)
+{
+    input = roundl(input);
+    if (!(fabsl(input) <= BITS(26))) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+    return integer_to_x1((int)input);
+}
+
 int x1_to_integer(Word input)
 {
     if (input & ONEBIT(26)) {
diff --git a/simulator/x1_arch.h b/simulator/x1_arch.h
index f7e0b8a..d6b86db 100644
--- a/simulator/x1_arch.h
+++ b/simulator/x1_arch.h
@@ -58,6 +58,11 @@ long double x1_to_ieee(Real word);
 Word integer_to_x1(int d);
 int x1_to_integer(Word word);
 
+//
+// Round real value to nearest integer in X1 format.
+//
+Word ieee_to_x1_integer(long double d);
+
 //
 // Print X1 word.
 //
-- 
2.43.0


From f20eca15096f84cfc77bab6609c43af738d14ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:20 +0000
Subject: [PATCH 03/51] fix: report overflow when a power exceeds the range of
 long double
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

ieee_to_x1() converted infinity to garbage: print(10.0↑5000) printed
9.094947017729e-13.
---
 simulator/x1_arch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index 51cb4a0..0b094bd 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -31,6 +31,9 @@ Real x1_words_to_real(Word hi, Word lo)
 //
 Real ieee_to_x1(long double input)
 {
+    if (!std::isfinite(input)) {
+        throw std::runtime_error("Overflow in real arithmetic");
+    }
     const bool negate_flag = std::signbit(input);
     if (negate_flag) {
         input = -input;
-- 
2.43.0


From 2007d3fea4f6a8fa067427c3e7559dc87bd04183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 04/51] fix: reject real constants that are too small
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The Pascal original stops with error 4 when the binary exponent of a
constant is out of range on either side. The C version lost the lower
bound: 1⏨-620 was compiled as 1.04⏨613.
---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6696895..33676d3 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -663,6 +663,8 @@ _L3: /*float*/
             bexp++;
         }
     }
+    if (bexp < 0)
+        stop(4, "Real too small");
     if (bexp > 4095)
         stop(4, "Real too large");
     inw   = inw / 4096 * 4096 + bexp;
-- 
2.43.0


From df11dab1404d785f89155de4d9e22549a131c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:45 +0000
Subject: [PATCH 05/51] fix: deep recursion beyond 32768 stack cells

The frame pointer saved for formal parameters was cut to 15 bits, so a
recursion deeper than 32768 cells of the (1048576 cells long) stack took
parameters from a wrong frame.
---
 simulator/processor.cpp | 6 +++---
 simulator/processor.h   | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 2955d66..31052db 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -376,7 +376,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
     // the block in which the corresponding procedure statement is given." (E.W.Dijkstra)
     //
     auto parent_level   = get_block_level();
-    auto parent_display = parent_level << 15 | frame_ptr;
+    auto parent_display = parent_level << FRAME_PTR_BITS | frame_ptr;
 
     for (unsigned i = 0; i < num_args; i++) {
         // Allocate formal parameters: two cells per parameter.
@@ -512,8 +512,8 @@ void Processor::get_arg_display(unsigned const dynamic_addr, unsigned &block_lev
     auto const addr           = address_in_stack(dynamic_addr);
     auto const formal_display = stack.get(addr + 1).get_int();
 
-    block_level  = formal_display >> 15;
-    prev_display = formal_display & BITS(15);
+    block_level  = formal_display >> FRAME_PTR_BITS;
+    prev_display = formal_display & BITS(FRAME_PTR_BITS);
 }
 
 //
diff --git a/simulator/processor.h b/simulator/processor.h
index 4bbba6f..ad6aa7f 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -89,6 +89,10 @@ private:
     // Stack contents is mapped to this virtual address.
     static unsigned const STACK_BASE = 0100000;
 
+    // Width of frame pointer in the info about parent display (PARD),
+    // enough for any index in the stack.
+    static unsigned const FRAME_PTR_BITS = 20;
+
     // Apply this operation when returning from implicit subroutine (on EIS).
     // Indexed by stack base.
     std::unordered_map<unsigned, Formal_Op> eis_operation;
-- 
2.43.0


From a6c52f85508130825dd40d3a882eb4a57a3431ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:45 +0000
Subject: [PATCH 06/51] fix: detect stack overflow on every push

Frames are created with push(type, value), which did not check the limit:
infinite recursion ran until the host memory was exhausted.
---
 simulator/virtual_stack.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 8aeff01..63ab474 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -555,6 +555,9 @@ void Virtual_Stack::push(const Stack_Cell &item)
 
 void Virtual_Stack::push(Cell_Type type, uint64_t value)
 {
+    if (storage.size() >= SIZE_LIMIT) {
+        throw std::runtime_error("Stack overflow");
+    }
     storage.push_back({});
     auto &item = storage.back();
     item.type  = type;
-- 
2.43.0


From ab3004e1f2c53c776946e275fa98a2a4c262c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:26 +0000
Subject: [PATCH 07/51] fix: compute element addresses of arrays without
 truncation

The address of an element was cut to 20 bits, so that an index wrong by
a multiple of 2^20 accessed another element instead of being reported,
and the base of a value array was cut to 16 bits, so that passing by value
an array located deep in the stack made its elements inaccessible.
---
 simulator/opcodes.cpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index dcb738e..7d8db16 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -6,6 +6,15 @@
 #include "machine.h"
 #include "opc.h"
 
+//
+// Address of element with index 0 is kept in array storage function modulo 2^26.
+// It lies outside of the array when the bounds do not include zero.
+//
+static int sign_extend_base(Word word)
+{
+    return (int)((word & BITS(26)) ^ ONEBIT(25)) - (int)ONEBIT(25);
+}
+
 //
 // Invoke a run-time routine by code.
 //
@@ -518,30 +527,29 @@ bool Processor::call_opc(unsigned opc)
         // The storage function of an array is described by 3+ndim words.
         // For a 1-dimensional array, "offset: contents":
         // 0: address of the first memory word the array occupies
-        // 1: base address for indexing from 0 (for a left bound >= 0)
-        //    (with the high bit set for a left bound < 0 - a 1's complement artifact)
+        // 1: base address for indexing from 0, modulo 2^26
         // 2..2+ndim-1: element or dimension sizes in words
         // 2+ndim: number of words in the array, negated
         unsigned addr = storage_fn.get_addr();
         int location  = x1_to_integer(load_word(addr));
-        int base      = load_word(addr + 1);
+        int base      = sign_extend_base(load_word(addr + 1));
         int limit     = x1_to_integer(load_word(addr + 2 + ndim));
         // The limit must look like a negative number with a reasonable absolute value.
         if (limit >= 0 || -limit > 0xfffff) {
             throw std::runtime_error("A wrong number of indexes for an array");
         }
-        int elt_addr = base;
-        int idx0     = 0; // for the error message
+        int64_t elt_addr = base;
+        int idx0         = 0; // for the error message
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
                                                  : x1_to_integer(ieee_to_x1_integer(x1_to_ieee(idxs[i].get_real())));
             if (i == 0)
                 idx0 = idx;
-            elt_addr += idx * dimsize;
+            elt_addr += (int64_t)idx * dimsize;
         }
-        elt_addr &= BITS(20); // 16 rather than 15 is to catch "negative" addresses
-        if (elt_addr < location || elt_addr + limit >= location) {
+        int64_t offset = (elt_addr - location) & BITS(26);
+        if (offset >= -limit) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
             if (ndim == 1) {
@@ -554,9 +562,9 @@ bool Processor::call_opc(unsigned opc)
             throw std::runtime_error(ostr.str());
         }
         if (storage_fn.is_int_addr())
-            stack.push_int_addr(elt_addr);
+            stack.push_int_addr(location + offset);
         else
-            stack.push_real_addr(elt_addr);
+            stack.push_real_addr(location + offset);
         break;
     }
 
@@ -927,8 +935,7 @@ bool Processor::call_opc(unsigned opc)
         // value array positioning
         unsigned storage_fn = address_in_stack(core.S);
         unsigned actual     = stack.get(storage_fn).get_addr();
-        unsigned zero_base =
-            stack.get(storage_fn + 1).get_addr() & 0xFFFF; // remove stray high bits
+        int zero_base       = sign_extend_base(stack.get(storage_fn + 1).get_addr());
         unsigned elt_size = stack.get(storage_fn + 2).get_int();
         Cell_Type ct = elt_size % 2 == 1 ? Cell_Type::INTEGER_ADDRESS : Cell_Type::REAL_ADDRESS;
         // Element size correctors for type conversion.
@@ -964,7 +971,7 @@ bool Processor::call_opc(unsigned opc)
         }
         unsigned words = -x1_to_integer(stack.get(storage_fn + pos).get_int());
         stack.set(storage_fn, Stack_Cell{ ct, stack_base + STACK_BASE });
-        int offset = actual - zero_base;
+        int offset = (int)actual - zero_base;
         offset     = offset * mul / div;
         stack.set(storage_fn + 1, Stack_Cell{ ct, stack_base - offset + STACK_BASE });
         for (unsigned i = 0; i < words; ++i) {
-- 
2.43.0


From 19955b18072d7e3a9566d60b81bdbe48912e6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:05 +0000
Subject: [PATCH 08/51] fix: choose correct layout in FLOT for large exponents

Exponents 10...99 do fit into two digits. An exponent which does not fit
only after rounding of the mantissa was printed truncated.
---
 simulator/machine.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 68047a3..2c27167 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -535,7 +535,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         }
         break;
     case 2:
-        if (exponent > 9 || exponent < -99) {
+        if (exponent > 99 || exponent < -99) {
             goto again;
         }
         break;
@@ -554,6 +554,10 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
     if (x >= 1) {
         x /= 10;
         exponent++;
+        if ((m == 1 && exponent > 9) || (m == 2 && exponent > 99)) {
+            // Exponent became too large because of rounding.
+            goto again;
+        }
     }
 
     // Print mantissa.
-- 
2.43.0


From cd53432650548f484a7d7256a206511e08bab4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:54 +0000
Subject: [PATCH 09/51] fix: call formal procedures in their own environment

A procedure passed as parameter was entered without restoring the display
of the place where it was passed, so that its non-local variables were taken
from a wrong activation. A procedure which is passed on through several
procedures could not be called with parameters at all.
---
 simulator/processor.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 31052db..3cde78f 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -583,16 +583,27 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
 
 //
 // Get address of procedure parameter at dynamic address.
+// Set up display[] for the context in which the procedure was passed as argument.
 //
 unsigned Processor::get_formal_proc(unsigned dynamic_addr)
 {
-    unsigned const arg_descr = arg_descriptor(dynamic_addr);
-    unsigned const arg_addr  = arg_descr & BITS(15);
-    switch (arg_descr >> 15 & 077) {
-    case 040:
-        return arg_addr;
-    default:
-        throw std::runtime_error("Unknown descriptor of formal procedure: " + to_octal(arg_descr));
+    for (;;) {
+        unsigned const arg_descr = arg_descriptor(dynamic_addr);
+        unsigned const arg_addr  = arg_descr & BITS(15);
+        unsigned arg_level, arg_frame;
+        get_arg_display(dynamic_addr, arg_level, arg_frame);
+        update_display(arg_level, arg_frame);
+
+        switch (arg_descr >> 15 & 077) {
+        case 006:
+            // Indirection: argument point to another argument in parent's frame.
+            dynamic_addr = (arg_descr >> 22) | (arg_addr << 5);
+            break;
+        case 040:
+            return arg_addr;
+        default:
+            throw std::runtime_error("Unknown descriptor of formal procedure: " + to_octal(arg_descr));
+        }
     }
 }
 
-- 
2.43.0


From 4e28c683d32218dcc23e9bfb8928492e041bc4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:54 +0000
Subject: [PATCH 10/51] fix: option --debug takes no argument

It swallowed the name of the input file.
---
 simulator/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index b9880c0..d059f0a 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -13,7 +13,7 @@ static const struct option long_options[] = {
     { "help",           no_argument,        nullptr,    'h' },
     { "version",        no_argument,        nullptr,    'V' },
     { "trace",          required_argument,  nullptr,    'T' },
-    { "debug",          required_argument,  nullptr,    'd' },
+    { "debug",          no_argument,        nullptr,    'd' },
     { nullptr },
     // clang-format on
 };
-- 
2.43.0


From b9396772c387aaf054e3b68ef931737133d18126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:04 +0000
Subject: [PATCH 11/51] fix: report a compiler terminated by a signal

It was taken for a successful compilation, and the object file left over
or truncated was executed.
---
 simulator/machine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 2c27167..fa9fdb7 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -309,6 +309,10 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         throw std::runtime_error("Lost child process #" + std::to_string(pid));
     }
 
+    if (WIFSIGNALED(wait_status)) {
+        throw std::runtime_error("Compiler terminated by signal " +
+                                 std::to_string(WTERMSIG(wait_status)));
+    }
     int exit_code = WEXITSTATUS(wait_status);
     switch (exit_code) {
     case STATUS_OK:
-- 
2.43.0


From 57dde331d43f642bf07938a3bac92569b4abbf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:13 +0000
Subject: [PATCH 12/51] fix: round shift instruction also performed a clear
 shift

A break was missing, so the register was shifted a second time.
---
 simulator/processor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 3cde78f..79e8c70 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -278,6 +278,7 @@ bool Processor::step()
             core.L = core.S & ONEBIT(26);
             break;
         }
+        break;
     }
 
     case 077'00: {
-- 
2.43.0


From 73413f36b79f0414fa30dc147e54e0a3cd16e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:54 +0000
Subject: [PATCH 13/51] fix: reject malformed setting of console switches

Only a prefix of the line was parsed: 12 was taken for 1, and numbers
longer than 27 bits, even negative ones, were accepted.
---
 simulator/input.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index 8e3e563..093c085 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -120,9 +120,15 @@ unsigned Machine::read_console_switches(std::istream &input_stream, unsigned bit
             try {
                 std::string line;
                 if (std::getline(input_stream, line)) {
-                    console_switches = std::stoul(line, nullptr, 2);
-                    switches_are_valid = true;
-                    break;
+                    size_t len;
+                    auto value = std::stoul(line, &len, 2);
+                    if (line.find_first_not_of("01 \t\r") == std::string::npos &&
+                        line.find_first_not_of(" \t\r", len) == std::string::npos &&
+                        value <= BITS(27)) {
+                        console_switches = value;
+                        switches_are_valid = true;
+                        break;
+                    }
                 }
             } catch (...) {
                 // No valid number.
-- 
2.43.0


From 3cb5a9ad513a3af0bb8f64f0a3c5e8c3c2040309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:57 +0000
Subject: [PATCH 14/51] fix: XEEN with zero or negative argument

According to the documentation, the mask is in one's complement,
and zero is represented by 27 ones.
---
 simulator/opcodes.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 7d8db16..8ebc073 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1079,7 +1079,11 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_XEEN: {
         // Read console switches.
-        auto bitmask = stack.pop_integer();
+        // Argument 0 is represented by a row of 27 ones.
+        auto bitmask = integer_to_x1(stack.pop_integer());
+        if (bitmask == 0) {
+            bitmask = BITS(27);
+        }
         stack.push_int_value(machine.read_console_switches(std::cin, bitmask));
         break;
     }
-- 
2.43.0


From 19469085f5d0599cd50c1a46f01ac95c02bf5d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 15/51] fix: reject programs nested too deep for the
 translation list

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 33676d3..475d856 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -676,6 +676,8 @@ _L5:;
 
 Static Void fill_t_list(int n)
 {
+    if (tlsc >= bim)
+        stop(25, "Too deep nesting");
     store[tlsc] = n;
     tlsc++;
 } /*fill_t_list*/
-- 
2.43.0


From 3ce6b706168ffa1caa74119bbe1da8ddf881457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:34 +0000
Subject: [PATCH 16/51] fix: make room for all entries of the future list

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 475d856..fab36ad 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1301,7 +1301,7 @@ Local Void fill_future_list(int place, int value)
     /*FU*/
     int i, FORLIM;
 
-    if (place >= klib) {
+    while (place >= klib) {
         if (nlib + nlsc + 16 >= plib)
             stop(6, "fill_future_list: Store capacity too small");
         FORLIM = klib;
-- 
2.43.0


From 0e3cfe5490faf733922338730398804ba65ed5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 17/51] fix: reject programs whose static variables overlap the
 code

---
 compiler/x1algc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index fab36ad..7c67752 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2637,6 +2637,8 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw - arrd;
+            if (arrd >= klie || (arrd + 1L) * store[tlsc - 1] > klie)
+                stop(25, "Too large array");
             if (dl == 101) /*[*/
                 fill_t_list(-(((arrd + 1) * store[tlsc - 1]) & (d26 - 1)));
             else
@@ -2654,6 +2656,8 @@ _L1102: /*static bounds, constants only:*/
                 tlsc++;
             } while (store[tlsc - 1] > 0);
             gvc -= store[tlsc - 1];
+            if (gvc > klie)
+                stop(25, "Too many variables");
             tlsc = arrb;
             if ((store[nlib + arrd - 2] & (d3 - 1)) == 0)
                 arrd -= 2;
@@ -3304,6 +3308,8 @@ Static Void program_loader()
         }
         V.ll = read_crf_item(&V);
     }
+    if (gvc > mcpe)
+        stop(25, "Too many variables");
     /*load result list RLI:*/
     V.ll            = rlsc;
     V.read_location = rnsb;
-- 
2.43.0


From 00cf3461a3799554e24a508cba13f858fbd0fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:43 +0000
Subject: [PATCH 18/51] fix: keep the carry when scaling real constants up

---
 compiler/x1algc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 7c67752..7ec695f 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -628,7 +628,8 @@ _L3: /*float*/
         do {
             fnw *= 5;
             inw = (fnw & 7) * d23 + inw * 5 / 8;
-            fnw /= 8;
+            fnw = fnw / 8 + inw / d26;
+            inw &= d26 - 1;
             if (fnw < d25) {
                 inw *= 2;
                 fnw = fnw * 2 + inw / d26;
-- 
2.43.0


From f207dc44abd6e56a1a1f2fa31edbeae117addbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:57 +0000
Subject: [PATCH 19/51] fix: step-until limit sees the stored value of the
 controlled variable

---
 simulator/opcodes.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8ebc073..51c99b6 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -201,25 +201,29 @@ bool Processor::call_opc(unsigned opc)
         if (stack.get(frame_ptr + Frame_Offset::RESULT).is_null()) {
             // First iteration: the actual value of the step is ignored,
             // we're only interested in its sign.
-            // The initial value is now on top of the stack, pending FOR7 check.
+            // The initial value is now on top of the stack.
         } else {
             // A subsequent iteration: load and increment the controlled variable.
             auto var   = stack.pop();
             auto value = load_value(var);
             value.add(incr);
-            // Prepare the stack for storing the new value of the variable.
             stack.push(var);
             stack.push(value);
         }
+        // Store the new value: the limit may depend on the controlled variable.
+        // Leave the stored (possibly rounded) value on the stack, pending FOR7 check.
+        auto value = stack.pop();
+        auto var   = stack.top();
+        store_value(var, value);
+        stack.push(load_value(var));
         stack.set_int_value(frame_ptr + Frame_Offset::RESULT, integer_to_x1(step_dir));
         break;
     }
 
     case OPC_FOR7: {
-        auto limit = stack.pop();
-        auto value = stack.pop();
-        auto var   = stack.pop();
-        store_value(var, value);
+        auto limit   = stack.pop();
+        auto value   = stack.pop();
+        auto var     = stack.pop();
         int step_dir = x1_to_integer(stack.get(frame_ptr + Frame_Offset::RESULT).get_int());
         if ((step_dir > 0 && limit.is_less(value)) || (step_dir < 0 && value.is_less(limit))) {
             // Element exhausted.
-- 
2.43.0


From 0d030441226c917ee0ca4388b9bd16e395c1e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:44 +0000
Subject: [PATCH 20/51] fix: round a real index of a switch designator

---
 simulator/opcodes.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 51c99b6..76488b8 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -245,8 +245,15 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_SSI: {
         // store switch index
-        auto index = stack.pop().get_int();
-        machine.mem_store(060, index);
+        auto index = stack.pop();
+        Word value;
+        if (index.is_real_value()) {
+            // Round to nearest integer.
+            value = ieee_to_x1_integer(x1_to_ieee(index.get_real()));
+        } else {
+            value = index.get_int();
+        }
+        machine.mem_store(060, value);
         break;
     }
     case OPC_CAC:
-- 
2.43.0


From 7353b0e4f116306ab0fa89c723bacf329109f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 21/51] fix: go to out of an expression left partial results on
 the stack

---
 simulator/processor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 79e8c70..fbd6341 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -436,7 +436,9 @@ void Processor::roll_back(unsigned goto_frame)
         if (prev_fp == goto_frame) {
             frame_ptr = fp;
             frame_release();
-            stack.pop();
+            // Drop the place for result, together with partial results
+            // of the expressions which have been abandoned.
+            stack.erase(stack_base);
             return;
         }
         fp = prev_fp;
-- 
2.43.0


From 5cb9df51a427e840fc0625ee7650ef3b6c3c090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 22/51] fix: standard procedure called as a formal one left a
 cell on the stack

The implicit subroutine of a standard procedure has no result, so nothing
has to be kept when it is called by a procedure statement.
---
 simulator/opcodes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 76488b8..43d2e18 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -104,6 +104,12 @@ bool Processor::call_opc(unsigned opc)
         frame_ptr = stack_base + Frame_Offset::FP - Frame_Offset::ARG;
         OT        = frame_release();
 
+        if (stack.top().is_null()) {
+            // Standard procedure called as a formal one: drop empty result.
+            stack.pop();
+            break;
+        }
+
         // Apply operation with given item.
         stack.top() = item;
         apply_operation(post_op);
-- 
2.43.0


From 3788c2a6ba34b268300d2af3c318b4df4f298c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:40 +0000
Subject: [PATCH 23/51] fix: standard procedures without parameters passed as
 actual parameters

There is no formal parameter to take when read, NLCR, TAB or stop is called.
---
 simulator/opcodes.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 43d2e18..b886b98 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1025,15 +1025,17 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_TFP: {
         // take formal parameter
-        auto block_level = get_block_level();
-        if (block_level == 0) {
-            // Allocate a block level.
-            auto prev_fp = stack.get(frame_ptr + Frame_Offset::FP).get_addr();
-            auto prev_bn = stack.get(prev_fp + Frame_Offset::BN).get_int();
-            block_level  = prev_bn + 1;
-            set_block_level(block_level);
-            update_display(block_level, frame_ptr);
+        if (get_block_level() != 0 || stack_base == frame_ptr + Frame_Offset::ARG) {
+            // Called without parameters, like read or NLCR.
+            break;
         }
+        // Allocate a block level.
+        auto prev_fp     = stack.get(frame_ptr + Frame_Offset::FP).get_addr();
+        auto prev_bn     = stack.get(prev_fp + Frame_Offset::BN).get_int();
+        auto block_level = prev_bn + 1;
+        set_block_level(block_level);
+        update_display(block_level, frame_ptr);
+
         // Get argument.
         eis_operation[stack_base] = Formal_Op::REMOVE_ARG;
         take_formal((Frame_Offset::ARG << 5) + block_level, Formal_Op::PUSH_VALUE);
-- 
2.43.0


From 97fe447feae9fc37ef9da216348017f414b5f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 24/51] fix: dynamic arrays declared after own arrays were not
 positioned

---
 compiler/x1algc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 7ec695f..8d738a5 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2667,7 +2667,11 @@ _L1102: /*static bounds, constants only:*/
         } while (arrd != arra);
         read_until_next_delimiter(); /*,*/
     } while (dl == 87);
-    goto _L91; /*;*/
+    if (dl != 91) /*;*/
+        goto _L91;
+    /*more array declarations may follow, not reserved yet*/
+    eflag = 0;
+    goto _L1;
 _L1103:        /*dynamic bounds,arithmetic expressions:*/
     ic  = 0;
     aic = 0;
-- 
2.43.0


From 06ab3a46b2502d048d0358da88115f6c65ae3157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:09 +0000
Subject: [PATCH 25/51] fix: arrays with large bounds

The extents of a dynamic array were multiplied with 32 bits, so that the
elements of an array too large for the store could share their places.
Passing by value failed when the array had a lower bound near 2^24 or more
than 32767 words.
---
 simulator/opcodes.cpp   |  4 ++--
 simulator/processor.cpp | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index b886b98..e968cfa 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -952,7 +952,7 @@ bool Processor::call_opc(unsigned opc)
         // value array positioning
         unsigned storage_fn = address_in_stack(core.S);
         unsigned actual     = stack.get(storage_fn).get_addr();
-        int zero_base       = sign_extend_base(stack.get(storage_fn + 1).get_addr());
+        unsigned zero_base  = stack.get(storage_fn + 1).get_addr();
         unsigned elt_size = stack.get(storage_fn + 2).get_int();
         Cell_Type ct = elt_size % 2 == 1 ? Cell_Type::INTEGER_ADDRESS : Cell_Type::REAL_ADDRESS;
         // Element size correctors for type conversion.
@@ -988,7 +988,7 @@ bool Processor::call_opc(unsigned opc)
         }
         unsigned words = -x1_to_integer(stack.get(storage_fn + pos).get_int());
         stack.set(storage_fn, Stack_Cell{ ct, stack_base + STACK_BASE });
-        int offset = (int)actual - zero_base;
+        int offset = sign_extend_base(actual - zero_base);
         offset     = offset * mul / div;
         stack.set(storage_fn + 1, Stack_Cell{ ct, stack_base - offset + STACK_BASE });
         for (unsigned i = 0; i < words; ++i) {
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index fbd6341..954e18e 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -908,14 +908,18 @@ void Processor::make_storage_function_frame(int elt_size)
         stack.push_real_addr(0);
     stack.push_null(); // future "0 element" address
     unsigned zero_base = stack.count() - 1;
-    int offset         = 0;
-    int stride         = elt_size;
+    int64_t offset     = 0;
+    int64_t stride     = elt_size;
     for (int i = 0; i < ndim; ++i) {
         stack.push_int_value(stride);
         offset += stride * dims[i].first;
         stride *= (dims[i].second - dims[i].first + 1);
+        if (stride > 0xfffff || stride < -0xfffff) {
+            throw std::runtime_error("Too large array");
+        }
     }
-    stack.set_int_value(zero_base, integer_to_x1(offset));
+    // Base address is kept modulo 2^26.
+    stack.set_int_value(zero_base, integer_to_x1(offset & BITS(26)));
     stack.push_int_value(integer_to_x1(-stride));
     // Replicate the storage function (nitems-1) times.
     for (int i = 0; i < nitems - 1; ++i) {
@@ -958,7 +962,7 @@ void Processor::make_value_array_function_frame(int elt_size)
             w = val * 10 + elt_size;
         }
         stack.push_int_value(w);
-        seen_limit |= val < 0 && -val <= 32767;
+        seen_limit |= val < 0 && -val <= 0xfffff;
     }
     if (!seen_limit) {
         throw std::runtime_error("Too many dimensions for value array");
-- 
2.43.0


From 1077780d6404e001697c633c08aae9811642f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 26/51] fix: round real arguments of machine procedures and
 real array bounds

---
 simulator/opcodes.cpp       | 16 ++++++++--------
 simulator/processor.cpp     |  4 ++--
 simulator/virtual_stack.cpp | 12 ++++++++++++
 simulator/virtual_stack.h   |  3 +++
 4 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index e968cfa..a718d27 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1099,7 +1099,7 @@ bool Processor::call_opc(unsigned opc)
     case OPC_XEEN: {
         // Read console switches.
         // Argument 0 is represented by a row of 27 ones.
-        auto bitmask = integer_to_x1(stack.pop_integer());
+        auto bitmask = integer_to_x1(stack.pop_rounded());
         if (bitmask == 0) {
             bitmask = BITS(27);
         }
@@ -1108,7 +1108,7 @@ bool Processor::call_opc(unsigned opc)
     }
     case OPC_SPACE: {
         // Print N spaces.
-        auto a = stack.pop_integer();
+        auto a = stack.pop_rounded();
         while (a-- > 0) {
             std::cout << ' ';
         }
@@ -1132,11 +1132,11 @@ bool Processor::call_opc(unsigned opc)
             m = 2;
         } else if (stack.count() == stack_base + 2) {
             // Invoked with three arguments: FLOT(n, m, x);
-            m = stack.pop_integer();
+            m = stack.pop_rounded();
         } else {
             throw std::runtime_error("Wrong arguments for FLOT()");
         }
-        auto n = stack.pop_integer();
+        auto n = stack.pop_rounded();
         Machine::print_floating_point(std::cout, n, m, x);
         std::cout << std::flush;
         break;
@@ -1144,8 +1144,8 @@ bool Processor::call_opc(unsigned opc)
     case OPC_FIXT: {
         // Print number in fixed-point representation, with sign.
         auto x = stack.pop_ieee();
-        auto m = stack.pop_integer();
-        auto n = stack.pop_integer();
+        auto m = stack.pop_rounded();
+        auto n = stack.pop_rounded();
         Machine::print_fixed_point(std::cout, n, m, x, true);
         std::cout << std::flush;
         break;
@@ -1153,8 +1153,8 @@ bool Processor::call_opc(unsigned opc)
     case OPC_ABSFIXT: {
         // Print absolute value in fixed-point representation, no sign.
         auto x = stack.pop_ieee();
-        auto m = stack.pop_integer();
-        auto n = stack.pop_integer();
+        auto m = stack.pop_rounded();
+        auto n = stack.pop_rounded();
         Machine::print_fixed_point(std::cout, n, m, x, false);
         std::cout << std::flush;
         break;
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 954e18e..a1db005 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -897,8 +897,8 @@ void Processor::make_storage_function_frame(int elt_size)
     int ndim   = (stack.count() - stack_base) / 2;
     std::vector<std::pair<int, int>> dims;
     for (int i = 0; i < ndim; ++i) {
-        int right = stack.pop_integer();
-        int left  = stack.pop_integer();
+        int right = stack.pop_rounded();
+        int left  = stack.pop_rounded();
         dims.push_back(std::make_pair(left, right));
     }
     std::reverse(dims.begin(), dims.end());
diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 63ab474..6484465 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -470,6 +470,18 @@ int Virtual_Stack::pop_integer()
     }
 }
 
+//
+// Pop arithmetic value. Real value is rounded, as in assignment
+// to an integer variable.
+//
+int Virtual_Stack::pop_rounded()
+{
+    if (storage.size() > 0 && storage.back().is_real_value()) {
+        return x1_to_integer(ieee_to_x1_integer(pop_ieee()));
+    }
+    return pop_integer();
+}
+
 //
 // Remove one item from stack, and return it as memory address.
 //
diff --git a/simulator/virtual_stack.h b/simulator/virtual_stack.h
index 03c2cc6..f459b06 100644
--- a/simulator/virtual_stack.h
+++ b/simulator/virtual_stack.h
@@ -95,6 +95,9 @@ public:
     // Remove one item from stack, and return it as standard integer value.
     int pop_integer();
 
+    // Pop arithmetic value, rounded to integer.
+    int pop_rounded();
+
     // Remove one item from stack, and return it as memory address.
     unsigned pop_addr();
 
-- 
2.43.0


From 0665255fdda906d75137795d1999ff35385a93a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:59 +0000
Subject: [PATCH 27/51] fix: FIXT blanked zeroes of the fraction and kept a
 leading zero

---
 simulator/machine.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index fa9fdb7..ae38cd3 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -480,11 +480,14 @@ void Machine::print_fixed_point(std::ostream &out, int n, int m, long double x0,
         assert(digit >= 0 && digit <= 9);
         x -= digit;
 
-        if (count + 1 == n) {
+        if (count + 1 == n && m == 0) {
+            // Zero at the units position.
             suppress_zeroes = false;
         }
-        if (count == n && m > 0) {
+        if (count == n) {
+            // Start of the fractional part.
             out << '.';
+            suppress_zeroes = false;
         }
         if (digit == 0 && suppress_zeroes) {
             out << ' ';
-- 
2.43.0


From bfb312fc2898b1bbcd02a9ecfae55fd8f9e2c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 28/51] fix: exponent in FLOT of numbers just below a power of
 ten

---
 simulator/machine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index ae38cd3..63eb1cc 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -534,7 +534,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         x           = -x;
     }
 
-    int exponent = (x == 0) ? 0 : 1 + floor(log10l(x));
+    int exponent = (x == 0) ? 0 : 1 + floorl(log10l(x));
     switch (m) {
     case 1:
         if (exponent > 9 || exponent < -9) {
-- 
2.43.0


From 4393bccd854292caea1dfa3ed220045b4dc1179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 29/51] fix: read swallowed the sign or point of the next
 number

---
 simulator/input.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index 093c085..184f627 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -85,6 +85,15 @@ long double Machine::input_real(std::istream &orig_stream)
 
         if (input_stream) {
             // Number is valid.
+            // The symbol after it has been taken from the input.
+            // Give it back when it belongs to the next number, as in 1-2.
+            auto *buf = input_stream.rdbuf();
+            if (buf->in_avail() > 0) {
+                int ch = buf->sgetc();
+                if (ch == '+' || ch == '-' || ch == '.' || ch == 'e' || ch == 'E') {
+                    orig_stream.rdbuf()->sputbackc(ch);
+                }
+            }
             return x;
         }
 
-- 
2.43.0


From 399f0afb0e67ff2f7fd206e744350378f5699ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 30/51] fix: text after end confused the prescan

---
 compiler/x1algc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 8d738a5..1d6dbab 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -837,8 +837,13 @@ _L3:
         if (vht != 0)
             stop(23, "In prescan after end");
         tlsc--; /*remove corresponding begin from t_list*/
-        if (tlsc > tlib)
-            goto _L1;
+        if (tlsc > tlib) {
+            do { /*skip text after end*/
+                read_next_symbol();
+            } while (dl != 91 && dl != 84 && dl != 105); /*;, else, end*/
+            bflag = 0;
+            goto _L3;
+        }
         goto _L7; /*end of prescan*/
     }
     if (dl <= 105) /*dl = |>*/
-- 
2.43.0


From 89093ede89bb2a8adc431867b8ea5b09a8787a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 31/51] fix: vertical bar and underline read with RESYM were
 written as letters

---
 simulator/encoding.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/simulator/encoding.cpp b/simulator/encoding.cpp
index 5a9e666..ba58993 100644
--- a/simulator/encoding.cpp
+++ b/simulator/encoding.cpp
@@ -21,5 +21,15 @@ static const char *algol_to_utf8[128] = {
 //
 void algol_putc(int ch, std::ostream &out)
 {
-    out << algol_to_utf8[ch & 0177];
+    switch (ch) {
+    case 162:
+        out << '|';
+        break;
+    case 163:
+        out << '_';
+        break;
+    default:
+        out << algol_to_utf8[ch & 0177];
+        break;
+    }
 }
-- 
2.43.0


From f307e4e535bc5b7fca0ad1e90d6054b755103d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 32/51] fix: every newline in the program text was delivered
 twice

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 1d6dbab..615b0a9 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -208,7 +208,7 @@ _L1:
         input_pos = 0;
         /*writeln('---');*/
         /*for debug*/
-        return 119; /*newline*/
+        goto _L1; /*getline() keeps the newline*/
     }
     i = read_next_byte();
     if (i < 128) {
-- 
2.43.0


From b7e8485ce57954223ba9cd5f7382568a2174b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 33/51] fix: unneeded procedures with zero rows were not
 skipped correctly on a library tape

---
 compiler/x1algc.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 615b0a9..161484b 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3398,14 +3398,10 @@ Static Void program_loader()
                     printf("Tape %s: skipping unneeded procedure %d\n",
                            P_argv[optind-1], i);
                 }
-                do {
-                    do {
-                        if (EOF == (V.ll = read_byte_from_lib_tape()))
-                            break;
-                    } while (V.ll != 0);
-                    if (EOF == (V.ll = read_byte_from_lib_tape()))
-                        break;
-                } while (V.ll != 0);
+                /*zero heptades can stand inside the procedure, too*/
+                for (; V.ll > 0; V.ll--)
+                    read_binary_word(&V);
+                test_bit_stock();
             }
             prepare_read_bit_string3(&V);
             if (feof(lib_tape))
-- 
2.43.0


From e34e8b821936d7d8dcd3a2f7c6447566abe4abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 34/51] fix: arguments after -- were ignored

---
 simulator/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index d059f0a..5207e0d 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -100,6 +100,11 @@ int main(int argc, char *argv[])
         break;
     }
 
+    // Arguments after "--".
+    while (optind < argc) {
+        machine.add_input_file(argv[optind++]);
+    }
+
     // Must specify an Algol file or an object file.
     if (machine.input_file_count() < 1) {
         print_usage(std::cerr, prog_name);
-- 
2.43.0


From 231c5c25d69a141bf58bbe55c47f8a2757cc1126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 35/51] fix: a partly written object program was run

---
 compiler/x1algc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 161484b..668069a 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3897,6 +3897,10 @@ int main(int argc, char *argv[])
     for (ii = mcpe; ii < FORLIM; ii++)
         printf("%5d%10d\n", ii, store[ii]);
     free(input_line);
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("Cannot write object program");
+        exit(EXIT_FAILURE);
+    }
     exit(EXIT_SUCCESS);
 }
 
-- 
2.43.0


From e942ecc9d41db74fe63f453e0436fe1552fc5df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 36/51] fix: malformed object files were run or crashed the
 simulator

---
 simulator/machine.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 63eb1cc..671fc11 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -367,7 +367,9 @@ void Machine::load_object_program(const std::string &obj_filename)
 
         char name[16];
         unsigned addr, value, a, b, c;
-        if (std::sscanf(line.c_str(), "%9s %u %u %u", name, &a, &b, &c) == 4) {
+        int len = 0; // Only spaces may follow the last item
+        if (std::sscanf(line.c_str(), "%9s %u %u %u %n", name, &a, &b, &c, &len) == 4 &&
+            line[len] == 0) {
             //
             // Symbol definition, for example:
             // "A       00 00 02"
@@ -375,7 +377,8 @@ void Machine::load_object_program(const std::string &obj_filename)
             addr               = (a * 32 + b) * 32 + c;
             symbol_table[name] = addr;
 
-        } else if (std::sscanf(line.c_str(), "%u %u %u", &a, &b, &c) == 3) {
+        } else if (std::sscanf(line.c_str(), "%u %u %u %n", &a, &b, &c, &len) == 3 &&
+                   line[len] == 0) {
             //
             // Entry address, for example:
             // " 9 26  0"
@@ -383,7 +386,8 @@ void Machine::load_object_program(const std::string &obj_filename)
             addr = (a * 32 + b) * 32 + c;
             entry_table.push_back(addr);
 
-        } else if (std::sscanf(line.c_str(), "%u %u", &addr, &value) == 2) {
+        } else if (std::sscanf(line.c_str(), "%u %u %n", &addr, &value, &len) == 2 &&
+                   line[len] == 0 && addr <= BITS(15) && value <= BITS(27)) {
             //
             // One word of object code, for example:
             // "10048       96"
@@ -393,6 +397,9 @@ void Machine::load_object_program(const std::string &obj_filename)
             throw std::runtime_error("Bad line: '" + line + "'");
         }
     }
+    if (entry_table.empty()) {
+        throw std::runtime_error("No entry address in " + obj_filename);
+    }
 }
 
 //
-- 
2.43.0


From d39d29895636a3bdf36e87a0b14c5b274b05bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:18 +0000
Subject: [PATCH 37/51] fix: addresses of local variables overflowed with more
 than 1023 cells in a block

---
 compiler/x1algc.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 668069a..76f4d9a 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1475,6 +1475,14 @@ Local Void new_block_by_declaration()
     new_block_by_declaration1();
 } /*new_block_by_declaration*/
 
+/* reserve room in the stack for local variables */
+Local Void reserve_local(int size)
+{
+    pnlv += size;
+    if (pnlv >= d15 + d5) /*offset does not fit in a dynamic address*/
+        stop(25, "Too many variables");
+} /*reserve_local*/
+
 Local Void fill_name_list()
 {
     /*HN*/
@@ -1553,7 +1561,7 @@ Local Void reservation_of_arrays()
                 fill_result_list(93, 0);
             /*IVA*/
             store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
-            pnlv += 256; /*at most 5 indices*/
+            reserve_local(256); /*at most 5 indices*/
         }
         if ((store[rlab - 2] & (d3 - 1)) == 0)
             rlab -= 2;
@@ -2405,7 +2413,7 @@ _L101: /*]*/
                 arra -= 2;
             else
                 arra -= 3;
-            pnlv += (ic + 3) * d5;
+            reserve_local((ic + 3) * d5);
             aic--;
         } while (aic != 0);
         read_until_next_delimiter();
@@ -2559,10 +2567,10 @@ _L1083: /*dynamic addressing*/
     id = pnlv + d15;
     if (ibd == 1) {
         id += d19;
-        pnlv += 32;
+        reserve_local(32);
         lvc++;
     } else {
-        pnlv += 64;
+        reserve_local(64);
         lvc += 2;
     }
     fill_name_list();
@@ -2716,7 +2724,7 @@ _L112: /*procedure*/
         read_until_next_delimiter();
         id = pnlv + d15 + d16;
         fill_name_list();
-        pnlv += d5 * 2; /*reservation PARD*/
+        reserve_local(d5 * 2); /*reservation PARD*/
     } while (dl == 87);
     read_until_next_delimiter(); /*for ; after )*/
 _L1121:
-- 
2.43.0


From 2822ba2e3bffb95b621834727aaf5dd005143523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:33 +0000
Subject: [PATCH 38/51] fix: malformed programs made the compiler loop or
 access memory outside its store

---
 compiler/x1algc.c | 96 ++++++++++++++++++++++++-----------------------
 1 file changed, 49 insertions(+), 47 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 76f4d9a..ddea7ce 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -777,9 +777,9 @@ _L3:
         goto _L2;
     }
     if (dl == 91) {                   /*;*/
-        while (store[tlsc - 1] < 0) { /*block-begin marker*/
+        while (Rstore(tlsc - 1) < 0) { /*block-begin marker*/
             tlsc -= 2;
-            V.bc = store[tlsc];
+            V.bc = Rstore(tlsc);
         }
         if (rht != 0)
             stop(22, "In prescan after ;");
@@ -828,9 +828,9 @@ _L3:
         goto _L3;
     }
     if (dl == 105) {                  /*end*/
-        while (store[tlsc - 1] < 0) { /*block-begin marker*/
+        while (Rstore(tlsc - 1) < 0) { /*block-begin marker*/
             tlsc -= 2;
-            V.bc = store[tlsc];
+            V.bc = Rstore(tlsc);
         }
         if (rht != 0)
             stop(22, "In prescan after end");
@@ -1344,7 +1344,7 @@ Local Void unload_t_list_element(int *variable)
 {
     /*ZU*/
     tlsc--;
-    *variable = store[tlsc];
+    *variable = Rstore(tlsc);
 } /*unload_t_list_element*/
 
 Local Void fill_output(int c)
@@ -1388,7 +1388,7 @@ Local Void label_declaration()
     /*FY*/
     int id1, id2, i, w;
 
-    id1 = store[nlib + nid];
+    id1 = Rstore(nlib + nid);
     if (((id1 / d15) & 1) == 0) /*preceding applied occurrences*/
         fill_future_list(flib + (id1 & (d15 - 1)), rlsc);
     else
@@ -1398,6 +1398,8 @@ Local Void label_declaration()
     if ((id1 & (d3 - 1)) == 0) { /*at most 4 letters/digits*/
         i = 4;
         id1 /= d3;
+        if (id1 == 0)
+            stop(7, "Identifier not declared");
         while ((id1 & (d6 - 1)) == 0) { /*void*/
             i--;
             id1 /= d6;
@@ -1460,7 +1462,7 @@ Local Void new_block_by_declaration1()
 Local Void new_block_by_declaration()
 {
     /*HU*/
-    if (store[tlsc - 2] == 161) /*block-begin marker*/
+    if (Rstore(tlsc - 2) == 161) /*block-begin marker*/
         return;
     tlsc--; /*remove 'begin'*/
     /*2A 0 A*/
@@ -1546,10 +1548,10 @@ Local Void reservation_of_arrays()
     if (vlam == 0)
         return;
     vlam = 0;
-    if (store[tlsc - 1] == 161) /*block-begin marker*/
-        rlaa = nlib + store[tlsc - 2];
+    if (Rstore(tlsc - 1) == 161) /*block-begin marker*/
+        rlaa = nlib + Rstore(tlsc - 2);
     else
-        rlaa = nlib + store[tlsc - 3];
+        rlaa = nlib + Rstore(tlsc - 3);
     rlab = nlib + nlsc;
     while (rlab != rlaa) {
         id = Rstore(rlab - 1);
@@ -1563,7 +1565,7 @@ Local Void reservation_of_arrays()
             store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
             reserve_local(256); /*at most 5 indices*/
         }
-        if ((store[rlab - 2] & (d3 - 1)) == 0)
+        if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
@@ -1626,10 +1628,10 @@ Local Void production_of_object_program(int opht, struct LOC_main_scan *LINK)
         if (pflag == 0) {
             if (jflag == 0) {
                 address_to_register();
-                if (oh > ((store[tlsc - 1] / d8) & 15))
+                if (oh > ((Rstore(tlsc - 1) / d8) & 15))
                     operator_ = 315; /*5*63*/
                 else {
-                    operator_ = store[tlsc - 1] & (d8 - 1);
+                    operator_ = Rstore(tlsc - 1) & (d8 - 1);
                     if (operator_ <= 63 || operator_ > 67)
                         operator_ = 315; /*5*63*/
                     else {
@@ -1674,9 +1676,9 @@ Local Void production_of_object_program(int opht, struct LOC_main_scan *LINK)
         aflag = 0; /*TAR*/
         fill_result_list(58, 0);
     }
-    while (oh <= ((store[tlsc - 1] / d8) & 15)) {
+    while (oh <= ((Rstore(tlsc - 1) / d8) & 15)) {
         tlsc--;
-        operator_ = store[tlsc] & (d8 - 1);
+        operator_ = Rstore(tlsc) & (d8 - 1);
         if (operator_ > 63 && operator_ <= 80) {
             fill_result_list(operator_ - 5, 0);
             continue;
@@ -1689,7 +1691,7 @@ Local Void production_of_object_program(int opht, struct LOC_main_scan *LINK)
         if (operator_ < 132 && operator_ > 127) { /*ST,STA,STP,STAP*/
             if (operator_ > 129) {                /*STP,STAP*/
                 tlsc--;                           /*2B 'BN' A*/
-                fill_result_list(0, store[tlsc] + 71827456);
+                fill_result_list(0, Rstore(tlsc) + 71827456);
             }
             fill_result_list(operator_ - 43, 0);
             continue;
@@ -1712,9 +1714,9 @@ Local Void production_of_object_program(int opht, struct LOC_main_scan *LINK)
 Local boolean thenelse()
 {
     /*ZN*/
-    if (store[tlsc - 1] % 255 == 83 || store[tlsc - 1] % 255 == 84) { /*then*/
+    if (Rstore(tlsc - 1) % 255 == 83 || Rstore(tlsc - 1) % 255 == 84) { /*then*/
         tlsc -= 2;
-        fill_future_list(flib + store[tlsc], rlsc);
+        fill_future_list(flib + Rstore(tlsc), rlsc);
         unload_t_list_element(&eflag);
         return true;
     }
@@ -1735,12 +1737,12 @@ Local Void empty_t_list_through_thenelse(struct LOC_main_scan *LINK)
 Local boolean do_in_t_list()
 {
     /*ER*/
-    if (store[tlsc - 1] % 255 == 86) {
+    if (Rstore(tlsc - 1) % 255 == 86) {
         tlsc -= 5;
-        nlsc = store[tlsc + 2];
+        nlsc = Rstore(tlsc + 2);
         bn--;
-        fill_future_list(flib + store[tlsc + 1], rlsc + 1); /*2T 0X0 A*/
-        fill_result_list(1, store[tlsc] + 88604672);
+        fill_future_list(flib + Rstore(tlsc + 1), rlsc + 1); /*2T 0X0 A*/
+        fill_result_list(1, Rstore(tlsc) + 88604672);
         return true;
     } else
         return false;
@@ -2053,7 +2055,7 @@ _L83: /*then*/
         production_of_object_program(1, &V);
     } while (thenelse());
     tlsc--;
-    eflag = store[tlsc - 1];   /*CAC*/
+    eflag = Rstore(tlsc - 1);   /*CAC*/
     fill_result_list(30, 0); /*N 2T 'flsc'*/
     fill_result_list(2, flsc + 88178688);
 _L8301:
@@ -2064,17 +2066,17 @@ _L8301:
 _L84: /*else*/
     /*FZ*/
     production_of_object_program(1, &V);
-    if ((store[tlsc - 1] & (d8 - 1)) == 84) { /*else*/
+    if ((Rstore(tlsc - 1) & (d8 - 1)) == 84) { /*else*/
         if (thenelse())
             goto _L84;
     }
 _L8401:
     if (do_in_t_list())
         goto _L8401;
-    if (store[tlsc - 1] == 161) { /*block-begin marker*/
+    if (Rstore(tlsc - 1) == 161) { /*block-begin marker*/
         tlsc -= 3;
-        nlsc = store[tlsc + 1];
-        fill_future_list(flib + store[tlsc], rlsc + 1); /*RET*/
+        nlsc = Rstore(tlsc + 1);
+        fill_future_list(flib + Rstore(tlsc), rlsc + 1); /*RET*/
         fill_result_list(12, 0);
         bn--;
         goto _L8401;
@@ -2112,7 +2114,7 @@ _L8601:          /*returned from DDEL ,*/
     fill_result_list(27, 0);
     fill_future_list(flib + fora, rlsc); /*FOR0*/
     fill_result_list(19, 0);               /*2T 0X0 A*/
-    fill_result_list(1, store[tlsc - 2] + 88604672);
+    fill_result_list(1, Rstore(tlsc - 2) + 88604672);
     fill_future_list(flib + forc, rlsc);
     eflag = 0;
     intro_new_block1();
@@ -2134,12 +2136,12 @@ _L87: /*,*/
         production_of_object_program(1, &V);
     } while (thenelse());
 _L8701:
-    if ((store[tlsc - 1] & (d8 - 1)) == 85) /*for*/
+    if ((Rstore(tlsc - 1) & (d8 - 1)) == 85) /*for*/
         fill_result_list(21, 0);
     /*for2*/
     else { /*while*/
         tlsc--;
-        if ((store[tlsc] & (d8 - 1)) == 96) /*for4*/
+        if ((Rstore(tlsc) & (d8 - 1)) == 96) /*for4*/
             fill_result_list(23, 0);
         else {
             fill_result_list(26, 0);
@@ -2153,9 +2155,9 @@ _L8702:
     if (mflag == 0)
         goto _L8705;
     /*actual parameter separator:*/
-    if ((store[tlsc - 1] & (d8 - 1)) == 87) { /*,*/
+    if ((Rstore(tlsc - 1) & (d8 - 1)) == 87) { /*,*/
         if (aflag == 0) {
-            if (store[tlsc - 2] == rlsc && (fflag == 0 || pass_formals) &&
+            if (Rstore(tlsc - 2) == rlsc && (fflag == 0 || pass_formals) &&
                 jflag == 0 && nflag == 1) {
                 if (nid > nlscop) {
                     if (pflag == 1 && fflag == 0) /*non-formal procedure:*/
@@ -2218,7 +2220,7 @@ _L8704:
         unload_t_list_element(&pstb);
     }
     tlsc--;
-    fill_future_list(flib + store[tlsc], rlsc); /*2A 'psta' A*/
+    fill_future_list(flib + Rstore(tlsc), rlsc); /*2A 'psta' A*/
     fill_result_list(0, psta + 4718592);
     bn--;
     unload_t_list_element(&fflag);
@@ -2468,7 +2470,7 @@ _L102: /*|<*/
 
 _L104: /*begin*/
     /*LZ*/
-    if (store[tlsc - 1] != 161) /*block-begin marker*/
+    if (Rstore(tlsc - 1) != 161) /*block-begin marker*/
         reservation_of_arrays();
     goto _L8501;
 
@@ -2479,10 +2481,10 @@ _L105: /*end*/
         empty_t_list_through_thenelse(&V);
     } while (do_in_t_list());
     if (sflag == 0) {
-        if (store[tlsc - 1] == 161) { /*blok-begin marker*/
+        if (Rstore(tlsc - 1) == 161) { /*blok-begin marker*/
             tlsc -= 3;
-            nlsc = store[tlsc + 1];
-            fill_future_list(flib + store[tlsc], rlsc + 1); /*RET*/
+            nlsc = Rstore(tlsc + 1);
+            fill_future_list(flib + Rstore(tlsc), rlsc + 1); /*RET*/
             fill_result_list(12, 0);
             bn--;
             goto _L105;
@@ -2492,14 +2494,14 @@ _L105: /*end*/
         do {
             tlsc -= 2;
             /*2T 'stacked RLSC' A*/
-            fill_result_list(1, store[tlsc] + 88604672); /*switch comma*/
-        } while (store[tlsc - 1] == 160);
+            fill_result_list(1, Rstore(tlsc) + 88604672); /*switch comma*/
+        } while (Rstore(tlsc - 1) == 160);
         tlsc--;
         unload_t_list_element(&nid);
         label_declaration(); /*1T 16X1*/
         fill_result_list(0, 85983280);
         tlsc--;
-        fill_future_list(flib + store[tlsc], rlsc);
+        fill_future_list(flib + Rstore(tlsc), rlsc);
     }
     /*end of switch declaration*/
     eflag = 0;
@@ -2638,7 +2640,7 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw;
-            arrc = (arrc - arrd * store[tlsc - 1]) & (d26 - 1);
+            arrc = (arrc - arrd * Rstore(tlsc - 1)) & (d26 - 1);
             /*upper bound:*/
             read_until_next_delimiter();
             if (nflag == 0) {
@@ -2651,12 +2653,12 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw - arrd;
-            if (arrd >= klie || (arrd + 1L) * store[tlsc - 1] > klie)
+            if (arrd >= klie || (arrd + 1L) * Rstore(tlsc - 1) > klie)
                 stop(25, "Too large array");
             if (dl == 101) /*[*/
-                fill_t_list(-(((arrd + 1) * store[tlsc - 1]) & (d26 - 1)));
+                fill_t_list(-(((arrd + 1) * Rstore(tlsc - 1)) & (d26 - 1)));
             else
-                fill_t_list(((arrd + 1) * store[tlsc - 1]) & (d26 - 1));
+                fill_t_list(((arrd + 1) * Rstore(tlsc - 1)) & (d26 - 1));
         } while (dl != 101);
         /*]*/
         arrd = nlsc;
@@ -2666,10 +2668,10 @@ _L1102: /*static bounds, constants only:*/
             fill_constant_list(gvc + arrc);
             tlsc = arrb;
             do {
-                fill_constant_list(store[tlsc]);
+                fill_constant_list(Rstore(tlsc));
                 tlsc++;
-            } while (store[tlsc - 1] > 0);
-            gvc -= store[tlsc - 1];
+            } while (Rstore(tlsc - 1) > 0);
+            gvc -= Rstore(tlsc - 1);
             if (gvc > klie)
                 stop(25, "Too many variables");
             tlsc = arrb;
-- 
2.43.0


From 4b0ba6ad15086d885502c7e66b9123165a84a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 39/51] fix: unbalanced declarations and programs without begin
 were accepted

---
 compiler/x1algc.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index ddea7ce..4e3de4f 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -754,7 +754,9 @@ Static Void prescan()
     qc          = 0;
     rht         = 0;
     vht         = 0;
-    fill_t_list(dl); /*dl should be 'begin'*/
+    if (dl != 104) /*begin*/
+        stop(8, "Program should start with begin");
+    fill_t_list(dl);
     augment_prescan_list(&V);
 _L1:
     bflag = 0;
@@ -876,8 +878,22 @@ _L4:
 _L5:
     read_until_next_delimiter();
 _L6:
+    if (dl == 98) /*(*/
+        rht++;
+    if (dl == 99) /*)*/
+        rht--;
+    if (dl == 100) /*[*/
+        vht++;
+    if (dl == 101) /*]*/
+        vht--;
+    if (dl == 104 || dl == 105) /*begin,end*/
+        stop(8, "Unexpected begin or end in declaration");
     if (dl != 91) /*;*/
         goto _L4;
+    if (rht != 0)
+        stop(22, "In prescan of declaration");
+    if (vht != 0)
+        stop(23, "In prescan of declaration");
     goto _L2;
 _L7:;
 } /*prescan*/
-- 
2.43.0


From 5c497192501d3baa9ccdac87dcfdd1f85e31751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 40/51] fix: delimiters after a real constant without exponent
 digits were swallowed

---
 compiler/x1algc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 4e3de4f..1e0b866 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -588,10 +588,12 @@ _L1:
         if (dl == 64) { /*plus*/
             read_next_symbol();
             dflag = dl;
-        } else {
+        } else if (dl == 65) { /*minus*/
             read_next_symbol();
             dflag = -dl - 1;
         }
+        if (dl > 9)
+            stop(3, "Digit expected in exponent");
         break;
     case retFALSE:
         dflag = dl;
-- 
2.43.0


From 124e41048d9e28805101a036645e0169803a99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 41/51] fix: a bad code on a library tape indexed outside the
 opc table

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 1e0b866..5ee1283 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3163,6 +3163,8 @@ Local int read_binary_word(struct LOC_program_loader *LINK)
             w -= 366;
             /*011xxxxxxx*/
         }
+        if (w > 112)
+            stop(108, "Bad code on library tape");
         return (opc_table[w]);
     } /*0*/
     else {
-- 
2.43.0


From 332725ec8ec0dffbc1a350e04a4d48d0ae18fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:02 +0000
Subject: [PATCH 42/51] fix: constants in place of declared names corrupted the
 name list

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 5ee1283..130b164 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1506,6 +1506,8 @@ Local Void reserve_local(int size)
 Local Void fill_name_list()
 {
     /*HN*/
+    if (nflag == 1 && kflag == 1)
+        stop(16, "Name expected in declaration");
     nlsc += dflag + 2;
     if (nlsc + nlib > plib)
         stop(16, "Too many names");
-- 
2.43.0


From e051880f884dd732824b6e8defdf218e3a357697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:02 +0000
Subject: [PATCH 43/51] fix: constants in place of labels, switches and
 procedures corrupted the prescan list

---
 compiler/x1algc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 130b164..24f1750 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -724,6 +724,13 @@ Local Void fill_prescan_list(int n, struct LOC_prescan *LINK)
     store[k] = inw;
 } /*fill_prescan_list*/
 
+Local Void add_prescan_name(int n, struct LOC_prescan *LINK)
+{
+    if (nflag == 1 && kflag == 1)
+        stop(16, "Name expected in declaration");
+    fill_prescan_list(n, LINK);
+} /*add_prescan_name*/
+
 Local Void augment_prescan_list(struct LOC_prescan *LINK)
 {
     /*HH*/
@@ -777,7 +784,7 @@ _L3:
         goto _L1;
     /*skip:*/
     if (dl == 90) { /*:*/
-        fill_prescan_list(0, &V);
+        add_prescan_name(0, &V);
         goto _L2;
     }
     if (dl == 91) {                   /*;*/
@@ -855,7 +862,7 @@ _L3:
     if (dl == 111) {      /*switch*/
         if (bflag == 0) { /*declarator*/
             read_until_next_delimiter();
-            fill_prescan_list(0, &V);
+            add_prescan_name(0, &V);
             goto _L6;
         }
         /*for switch identifier*/
@@ -868,7 +875,7 @@ _L4:
         if (bflag == 0) { /*declarator*/
             bflag = 1;    /*for procedure identifier*/
             read_until_next_delimiter();
-            fill_prescan_list(1, &V);
+            add_prescan_name(1, &V);
             block_introduction(&V);
             goto _L6;
         } else
-- 
2.43.0


From fd5095058790637bcfb1fd155db656ca3b7377b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:29 +0000
Subject: [PATCH 44/51] fix: counting jump was taken when the count was
 negative

---
 simulator/processor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a1db005..3b1983e 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -245,7 +245,7 @@ bool Processor::step()
         // 4T addr 0 P
         unsigned w = machine.mem_load(0);
         machine.mem_store(0, (w + 0777777776 + (w > 1)) & BITS(27));
-        if (w > 1) { // therefore the decremented value is > 0
+        if (w > 1 && !(w & ONEBIT(26))) { // therefore the decremented value is > 0
             OT = addr;
         }
         break;
-- 
2.43.0


From 9a3d37d64cc69ce29cb977572c0972bab8fe7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:47 +0000
Subject: [PATCH 45/51] hook: X1_STACK_LIMIT sets the stack limit of
 verification builds

---
 simulator/virtual_stack.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/virtual_stack.h b/simulator/virtual_stack.h
index f459b06..1ad72b8 100644
--- a/simulator/virtual_stack.h
+++ b/simulator/virtual_stack.h
@@ -70,7 +70,11 @@ private:
     std::vector<Stack_Cell> storage;
 
     // Some arbitrary limit on stack size.
+#ifdef X1_STACK_LIMIT
+    static unsigned const SIZE_LIMIT = X1_STACK_LIMIT; // verification builds
+#else
     static unsigned const SIZE_LIMIT = 0x100000;
+#endif
 
 public:
     // How many items are on stack?
-- 
2.43.0


From 5a81a7dca24467227ec26e83e2d90d0bdb884b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:13 +0000
Subject: [PATCH 46/51] fix: go to out of an actual parameter lost stack cells
 or failed

A jump from an implicit subroutine rolled back only to the frame which was
called by the subroutine, and failed when a function was called before.
---
 simulator/opcodes.cpp   |  1 -
 simulator/processor.cpp | 29 +++++++++++++++--------------
 simulator/processor.h   |  6 +++++-
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index a718d27..eb73b7d 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -245,7 +245,6 @@ bool Processor::call_opc(unsigned opc)
     case OPC_GTA:
         // goto adjustment
         // Exit to block level given in register B.
-        frame_ptr = last_frame_ptr;
         roll_back(display[core.B]);
         break;
 
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 3b1983e..b173128 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -389,7 +389,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
 
     // Default post-operation is to leave value on stack.
     eis_operation[stack_base] = Formal_Op::PUSH_VALUE;
-    last_frame_ptr = frame_ptr;
+    frames.push_back(frame_ptr);
 }
 
 //
@@ -410,7 +410,9 @@ unsigned Processor::frame_release()
     // Update display[BN...0] by unwinding stack.
     update_display(get_block_level(), frame_ptr);
 
-    last_frame_ptr = frame_ptr;
+    while (!frames.empty() && frames.back() >= new_stack_ptr) {
+        frames.pop_back();
+    }
     return ret_addr;
 }
 
@@ -430,18 +432,17 @@ void Processor::allocate_stack(unsigned nwords)
 //
 void Processor::roll_back(unsigned goto_frame)
 {
-    unsigned fp = frame_ptr;
-    while (fp > 0) {
-        unsigned prev_fp = stack.get(fp + Frame_Offset::FP).get_addr();
-        if (prev_fp == goto_frame) {
-            frame_ptr = fp;
-            frame_release();
-            // Drop the place for result, together with partial results
-            // of the expressions which have been abandoned.
-            stack.erase(stack_base);
-            return;
-        }
-        fp = prev_fp;
+    // Find the frame next to the 'goto' frame. An implicit subroutine
+    // runs with the frame pointer of its environment, so the chain
+    // of frame pointers can bypass it.
+    auto next = std::upper_bound(frames.begin(), frames.end(), goto_frame);
+    if (next != frames.end()) {
+        frame_ptr = *next;
+        frame_release();
+        // Drop the place for result, together with partial results
+        // of the expressions which have been abandoned.
+        stack.erase(stack_base);
+        return;
     }
     throw std::runtime_error("Cannot find goto frame");
 }
diff --git a/simulator/processor.h b/simulator/processor.h
index ad6aa7f..446bc99 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include "virtual_stack.h"
 #include "x1_arch.h"
@@ -78,7 +79,10 @@ private:
 
     // Pointer to a procedure frame in stack.
     unsigned frame_ptr{};
-    unsigned last_frame_ptr{};
+
+    // All the frames in stack, including implicit subroutines
+    // which run with the frame pointer of their environment.
+    std::vector<unsigned> frames;
 
     // Base of stack in current block.
     unsigned stack_base{};
-- 
2.43.0


From 00f53838b2369edc3fe55fe31510690b4c524278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 47/51] fix: array reservation was wrong when the name list
 moved meanwhile

The indices of names were absolute, but fill_result_list() can move the list
to make room for object code.
---
 compiler/x1algc.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 24f1750..d92ac88 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1575,13 +1575,14 @@ Local Void reservation_of_arrays()
     if (vlam == 0)
         return;
     vlam = 0;
+    /* Indices are relative to nlib: fill_result_list() can move the name list. */
     if (Rstore(tlsc - 1) == 161) /*block-begin marker*/
-        rlaa = nlib + Rstore(tlsc - 2);
+        rlaa = Rstore(tlsc - 2);
     else
-        rlaa = nlib + Rstore(tlsc - 3);
-    rlab = nlib + nlsc;
+        rlaa = Rstore(tlsc - 3);
+    rlab = nlsc;
     while (rlab != rlaa) {
-        id = Rstore(rlab - 1);
+        id = Rstore(nlib + rlab - 1);
         if (id >= d26 && id < d25 + d26) { /*value array:*/
             address_to_register();
             if (((id / d19) & 1) == 0) /*RVA*/
@@ -1589,18 +1590,18 @@ Local Void reservation_of_arrays()
             else
                 fill_result_list(93, 0);
             /*IVA*/
-            store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
+            store[nlib + rlab - 1] = id / d15 * d15 - d16 + pnlv;
             reserve_local(256); /*at most 5 indices*/
         }
-        if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
+        if ((Rstore(nlib + rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
     }
-    rlab = nlib + nlsc;
+    rlab = nlsc;
     while (rlab != rlaa) {
-        if (Rstore(rlab - 1) >= d26) {
-            id = store[rlab - 1] - d26;
+        if (Rstore(nlib + rlab - 1) >= d26) {
+            id = store[nlib + rlab - 1] - d26;
             if (id < d25) {
                 address_to_register(); /*VAP*/
                 fill_result_list(95, 0);
@@ -1610,7 +1611,7 @@ Local Void reservation_of_arrays()
                 fill_result_list(94, 0);
             }
         }
-        if ((store[rlab - 2] & (d3 - 1)) == 0)
+        if ((store[nlib + rlab - 2] & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
-- 
2.43.0


From dbec46edf2da61ab8fe047bf694c8e5bffe43192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:18 +0000
Subject: [PATCH 48/51] fix: declarators between parentheses were accepted
 since parentheses in declarations are counted

---
 compiler/x1algc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index d92ac88..67cdb90 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -859,6 +859,10 @@ _L3:
     }
     if (dl <= 105) /*dl = |>*/
         goto _L1;
+    if (dl <= 115 && rht != 0) /*declarator or specifier between parentheses*/
+        stop(22, "In prescan of declaration");
+    if (dl <= 115 && vht != 0)
+        stop(23, "In prescan of declaration");
     if (dl == 111) {      /*switch*/
         if (bflag == 0) { /*declarator*/
             read_until_next_delimiter();
-- 
2.43.0


From 619f8683741076f72a7375bab8cb6fd12f8db08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:33 +0000
Subject: [PATCH 49/51] fix: negative numbers on a library tape were accepted

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 67cdb90..3ef9bdf 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2853,7 +2853,7 @@ Local int read_byte_from_lib_tape()
     } else if (fscanf(lib_tape, "%d", &w) <= 0) {
         return EOF;
     }
-    if (w >= 128) {
+    if (w >= 128 || w < EOF) {
         printf("Stray punch on library tape, current offset is %d\n", (int)ftell(lib_tape));
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From 143e4da7760ac5f80ff944625b024934f19bb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:06 +0000
Subject: [PATCH 50/51] fix: local variables declared after others or after a
 procedure were reserved again

---
 compiler/x1algc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 3ef9bdf..0172a73 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1536,6 +1536,7 @@ Local Void reservation_of_local_variables()
     fill_result_list(0, lvc + 4718592); /*4A 17X1*/
     fill_result_list(0, 8388657);       /*4A 18X1*/
     fill_result_list(0, 8388658);
+    lvc = 0; /*these are reserved, others may follow*/
 } /*reservation_of_local_variables*/
 
 Local Void address_to_register()
-- 
2.43.0


From 1b180ac527b5d1de8a1a0227ebeafa6ca50f3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:33 +0000
Subject: [PATCH 51/51] fix: variables declared after a procedure in an inner
 block were misplaced

---
 compiler/x1algc.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 0172a73..0926cbf 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1499,6 +1499,7 @@ Local Void new_block_by_declaration()
     fill_result_list(1, rlsc + 71827459); /*ETMP*/
     fill_result_list(9, 0);              /*2T 'flsc'*/
     fill_result_list(2, flsc + 88080384);
+    fill_t_list(pnlv);
     fill_t_list(flsc);
     flsc++;
     intro_new_block(); /*begin*/
@@ -2107,9 +2108,10 @@ _L8401:
     if (do_in_t_list())
         goto _L8401;
     if (Rstore(tlsc - 1) == 161) { /*block-begin marker*/
-        tlsc -= 3;
-        nlsc = Rstore(tlsc + 1);
-        fill_future_list(flib + Rstore(tlsc), rlsc + 1); /*RET*/
+        tlsc -= 4;
+        nlsc = Rstore(tlsc + 2);
+        pnlv = Rstore(tlsc);
+        fill_future_list(flib + Rstore(tlsc + 1), rlsc + 1); /*RET*/
         fill_result_list(12, 0);
         bn--;
         goto _L8401;
@@ -2515,9 +2517,10 @@ _L105: /*end*/
     } while (do_in_t_list());
     if (sflag == 0) {
         if (Rstore(tlsc - 1) == 161) { /*blok-begin marker*/
-            tlsc -= 3;
-            nlsc = Rstore(tlsc + 1);
-            fill_future_list(flib + Rstore(tlsc), rlsc + 1); /*RET*/
+            tlsc -= 4;
+            nlsc = Rstore(tlsc + 2);
+            pnlv = Rstore(tlsc);
+            fill_future_list(flib + Rstore(tlsc + 1), rlsc + 1); /*RET*/
             fill_result_list(12, 0);
             bn--;
             goto _L105;
@@ -2721,9 +2724,10 @@ _L1102: /*static bounds, constants only:*/
     eflag = 0;
     goto _L1;
 _L1103:        /*dynamic bounds,arithmetic expressions:*/
-    ic  = 0;
-    aic = 0;
-    id  = 0;
+    vlam = pnlv;
+    ic   = 0;
+    aic  = 0;
+    id   = 0;
     do {
         aic++;
         read_until_next_delimiter();
@@ -2745,6 +2749,7 @@ _L112: /*procedure*/
     reservation_of_arrays();
     new_block_by_declaration(); /*2T 'flsc'*/
     fill_result_list(2, flsc + 88080384);
+    fill_t_list(pnlv);
     fill_t_list(flsc);
     flsc++;
     read_until_next_delimiter();
-- 
2.43.0

