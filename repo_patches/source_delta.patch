From ceb369e677acbbacb6b5d0d2a1d53d58b95d5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 01/34] fix: don't read past the collected lines when a
 snippet's target line is beyond the end of the file

A frame whose line number is larger than the number of lines in its source file (stale or edited source, #line
directives) made get_lines() index an empty or exhausted vector while trimming leading blank lines.
---
 src/snippets/snippet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index cee92e6..9bf6168 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -123,7 +123,7 @@ namespace detail {
             lines.push_back(manager.get_line(line));
         }
         // trim blank lines
-        while(begin < target_line && lines[begin - original_begin].empty()) {
+        while(begin <= end && begin < target_line && lines[begin - original_begin].empty()) {
             begin++;
         }
         while(end > target_line && lines[end - original_begin].empty()) {
-- 
2.43.0


From ed616a071cbb487a5a2269d8d36acae9fe81764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 02/34] fix: overflow in the snippet window for very large
 context sizes

target_line + context_size and context_size + 1 wrapped around, so a request for all of the context (e.g. SIZE_MAX)
produced an empty snippet.
---
 src/snippets/snippet.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index 9bf6168..d94c8af 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -115,9 +115,10 @@ namespace detail {
         if(!manager.ok()) {
             return nullopt;
         }
-        auto begin = target_line <= context_size + 1 ? 1 : target_line - context_size;
+        auto begin = target_line <= context_size ? 1 : target_line - context_size;
         auto original_begin = begin;
-        auto end = std::min(target_line + context_size, manager.num_lines() - 1);
+        const auto last_line = manager.num_lines() - 1;
+        auto end = target_line >= last_line ? last_line : target_line + std::min(context_size, last_line - target_line);
         std::vector<std::string> lines;
         for(auto line = begin; line <= end; line++) {
             lines.push_back(manager.get_line(line));
-- 
2.43.0


From 4428de6688018b81563722ce30ea8f91d08097ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 03/34] fix: honor color=false when the formatter's color mode
 is always

The color parameter is documented to override the configured color mode, but color_mode::always won over it.
---
 src/formatting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index faa7a3a..1c70dcb 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -207,7 +207,7 @@ CPPTRACE_BEGIN_NAMESPACE
         }
 
         bool should_do_color(std::ostream& stream, detail::optional<bool> color_override) const {
-            bool do_color = options.color == color_mode::always || color_override.value_or(false);
+            bool do_color = color_override.value_or(options.color == color_mode::always);
             if(
                 (options.color == color_mode::automatic || options.color == color_mode::always) &&
                 (!color_override || color_override.unwrap() != false) &&
-- 
2.43.0


From c88c6fef726ad5c5739683bf93a7d67680700029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 04/34] fix: self-assignment of formatters

Copy-assigning a formatter to itself copied from the options it had just deleted.
---
 src/formatting.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index 1c70dcb..266e1aa 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -391,17 +391,18 @@ CPPTRACE_BEGIN_NAMESPACE
     formatter::formatter(formatter&& other) : pimpl(detail::exchange(other.pimpl, nullptr)) {}
     formatter::formatter(const formatter& other) : pimpl(new impl(*other.pimpl)) {}
     formatter& formatter::operator=(formatter&& other) {
-        if(pimpl) {
+        if(this != &other) {
             delete pimpl;
+            pimpl = detail::exchange(other.pimpl, nullptr);
         }
-        pimpl = detail::exchange(other.pimpl, nullptr);
         return *this;
     }
     formatter& formatter::operator=(const formatter& other) {
-        if(pimpl) {
+        if(this != &other) {
+            auto* copy = new impl(*other.pimpl);
             delete pimpl;
+            pimpl = copy;
         }
-        pimpl = new impl(*other.pimpl);
         return *this;
     }
 
-- 
2.43.0


From dd9876a4bfd6247d4428035c1290a4cc18f09425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 05/34] fix: capture with execinfo for any skip value

A skip larger than the stack made n_frames - skip wrap around (std::length_error), and a large one allocated a
buffer entry per skipped frame.
---
 src/unwind/unwind_with_execinfo.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/unwind/unwind_with_execinfo.cpp b/src/unwind/unwind_with_execinfo.cpp
index ef6e205..05dcd02 100644
--- a/src/unwind/unwind_with_execinfo.cpp
+++ b/src/unwind/unwind_with_execinfo.cpp
@@ -16,9 +16,20 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         skip++;
-        std::vector<void*> addrs(skip + std::min(hard_max_frames, max_depth), nullptr);
+        const std::size_t depth = std::min(hard_max_frames, max_depth);
+        const std::size_t limit = static_cast<std::size_t>(INT_MAX);
+        const std::size_t wanted = skip > limit - depth ? limit : skip + depth;
+        // skip can be any value, the buffer only grows as far as there are frames
+        std::vector<void*> addrs(std::min(wanted, 2 * hard_max_frames), nullptr);
         // thread safe
-        const int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        while(static_cast<std::size_t>(n_frames) == addrs.size() && addrs.size() < wanted) {
+            addrs.resize(addrs.size() > wanted / 2 ? wanted : addrs.size() * 2);
+            n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        }
+        if(static_cast<std::size_t>(n_frames) <= skip) {
+            return {};
+        }
         // I hate the copy here but it's the only way that isn't UB
         std::vector<frame_ptr> frames(n_frames - skip, 0);
         for(int i = skip; i < n_frames; i++) {
-- 
2.43.0


From 2345fe4f2b1473bbc7fd634ab82c9e4be53fefa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 06/34] fix: capture with _Unwind_Backtrace for a max_depth of
 zero

The callback asserts that it is not called beyond max_depth, which it always is when max_depth is zero.
---
 src/unwind/unwind_with_unwind.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unwind/unwind_with_unwind.cpp b/src/unwind/unwind_with_unwind.cpp
index fddae8e..64e5085 100644
--- a/src/unwind/unwind_with_unwind.cpp
+++ b/src/unwind/unwind_with_unwind.cpp
@@ -55,6 +55,9 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unwind_state state{skip + 1, max_depth, frames};
         _Unwind_Backtrace(unwind_callback, &state); // presumably thread-safe
         return frames;
-- 
2.43.0


From de794ff86e9b72a35c21ca048cd55a7077256600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 07/34] fix: keep addresses when no symbols are resolved

The symbols-with-nothing back end returned frames without their addresses.
---
 src/symbols/symbols_with_nothing.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/symbols/symbols_with_nothing.cpp b/src/symbols/symbols_with_nothing.cpp
index 571e1e7..0bb2630 100644
--- a/src/symbols/symbols_with_nothing.cpp
+++ b/src/symbols/symbols_with_nothing.cpp
@@ -4,17 +4,27 @@
 #include "symbols/symbols.hpp"
 #include "utils/common.hpp"
 
+#include <cstddef>
 #include <vector>
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
 namespace nothing {
     std::vector<stacktrace_frame> resolve_frames(const std::vector<frame_ptr>& frames) {
-        return std::vector<stacktrace_frame>(frames.size(), null_frame());
+        std::vector<stacktrace_frame> trace(frames.size(), null_frame());
+        for(std::size_t i = 0; i < frames.size(); i++) {
+            trace[i].raw_address = frames[i];
+        }
+        return trace;
     }
 
     std::vector<stacktrace_frame> resolve_frames(const std::vector<object_frame>& frames) {
-        return std::vector<stacktrace_frame>(frames.size(), null_frame());
+        std::vector<stacktrace_frame> trace(frames.size(), null_frame());
+        for(std::size_t i = 0; i < frames.size(); i++) {
+            trace[i].raw_address = frames[i].raw_address;
+            trace[i].object_address = frames[i].object_address;
+        }
+        return trace;
     }
 }
 }
-- 
2.43.0


From 5e1e263ac1940fc3fdb95e8623124389a1550b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 08/34] fix: exclude ctrace_safe_generate_raw_trace itself from
 its trace

Unlike every other capture function, ctrace_safe_generate_raw_trace reported its own frame unless the compiler turned
its call into a tail call.
---
 src/ctrace.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index a81841f..e125010 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -296,8 +296,14 @@ extern "C" {
     }
 
     // ctrace::safe:
+    CTRACE_FORCE_NO_INLINE
     size_t ctrace_safe_generate_raw_trace(ctrace_frame_ptr* buffer, size_t size, size_t skip, size_t max_depth) {
-        return cpptrace::safe_generate_raw_trace(buffer, size, skip, max_depth);
+        try { // try/catch can never be hit but it's needed to prevent TCO
+            return cpptrace::detail::safe_capture_frames(buffer, size, skip + 1, max_depth);
+        } catch(...) { // NOSONAR
+            // Don't check rethrow condition, it's risky.
+            return 0;
+        }
     }
 
     void ctrace_get_safe_object_frame(ctrace_frame_ptr address, ctrace_safe_object_frame* out) {
-- 
2.43.0


From 5352f3cbee7fabe282eeac48c27284240827bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 09/34] fix: escape sequences in quoted strings when pruning
 symbols

---
 src/prune_symbol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index fc54cf0..50d0df1 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -243,10 +243,10 @@ namespace detail {
                 cursor++;
                 while(cursor != source.end() && *cursor != closing_quote) {
                     if(*cursor == '\\') {
-                        if(cursor + 1 == source.end()) {
+                        cursor++;
+                        if(cursor == source.end()) {
                             return parse_error{};
                         }
-                        cursor += 2;
                     }
                     cursor++;
                 }
-- 
2.43.0


From 52c6c887468c15c82372f7ba16fffefb8ef37de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 10/34] fix: pruning of conversion functions and functions
 returning function pointers

The name of a conversion function lost everything before the third word of its type and any pointer that followed
template arguments or qualifiers. A function returning a function pointer was pruned to the type that pointer returns
when that was itself a pointer or had template arguments.
---
 src/prune_symbol.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index 50d0df1..07dbc07 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -649,9 +649,13 @@ namespace detail {
                     // There is a bit of a grammer hack here, it doesn't properly "nest," but it works
                     TRY_PARSE(parse_symbol(), (void)0);
                     // In the case of a member function pointer, there will be a type symbol followed by a symbol for
-                    // the type that the member pointer points to
-                    TRY_TOK(maybe_ident, tokenizer.peek());
-                    if(maybe_ident && maybe_ident.unwrap().type == token_type::identifier) {
+                    // the type that the member pointer points to. Builtin types may also consist of multiple words,
+                    // e.g. unsigned long long.
+                    while(true) {
+                        TRY_TOK(maybe_ident, tokenizer.peek());
+                        if(!maybe_ident || maybe_ident.unwrap().type != token_type::identifier) {
+                            break;
+                        }
                         TRY_PARSE(parse_symbol(), (void)0);
                     }
                     return true;
@@ -883,6 +887,26 @@ namespace detail {
             return false;
         }
 
+        // Template arguments, abi tags, qualifiers, and pointers directly following a name. Pointers are part of the
+        // name in the case of a conversion operator.
+        NODISCARD Result<bool, parse_error> accept_name_suffix() {
+            bool did_accept = false;
+            while(true) {
+                TRY_TOK(token, tokenizer.peek());
+                if(
+                    token
+                    && token.unwrap().type == token_type::punctuation
+                    && is_any(token.unwrap().str, "<", "[")
+                ) {
+                    TRY_PARSE(accept_balanced_punctuation(), {did_accept = true; continue;});
+                }
+                TRY_PARSE(accept_ignored_identifier(), {did_accept = true; continue;});
+                TRY_PARSE(accept_pointer_ref(true), {did_accept = true; continue;});
+                break;
+            }
+            return did_accept;
+        }
+
         NODISCARD Result<bool, parse_error> consume_punctuation_and_trailing_modifiers() {
             bool did_consume = false;
             while(true) {
@@ -907,6 +931,9 @@ namespace detail {
                 }
                 bool did_match_term = false;
                 TRY_PARSE(parse_symbol_term(), did_match_term = true);
+                if(did_match_term) {
+                    TRY_PARSE(accept_name_suffix(), (void)0);
+                }
                 if(lookahead_is_function_pointer()) {
                     TRY_PARSE(parse_function_pointer(), did_match_term = true);
                 }
@@ -915,7 +942,6 @@ namespace detail {
                 } else {
                     break;
                 }
-                TRY_PARSE(accept_pointer_ref(true), made_progress = true);
                 TRY_PARSE(consume_punctuation_and_trailing_modifiers(), made_progress = true);
                 TRY_TOK(scope_resolution, tokenizer.accept({token_type::punctuation, "::"}));
                 if(scope_resolution) {
-- 
2.43.0


From e86b2c50a3dc640071708c9dce73011d5f59b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:38 +0000
Subject: [PATCH 11/34] fix: pruning of functions returning pointers to members

The name was taken to be the return type, or to include it.
---
 src/prune_symbol.cpp | 92 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 90 insertions(+), 2 deletions(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index 07dbc07..40dc00a 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -416,6 +416,7 @@ namespace detail {
                  | unnamed
 
     function-pointer := "(" pointer-refs-junk symbol ")"
+                      | "(" { function-pointer-modifier } symbol ")" // where symbol starts with S::*
 
     pointer-refs-junk := { function-pointer-modifier } { pointer-refs } { ignored-identifier }
 
@@ -652,8 +653,11 @@ namespace detail {
                     // the type that the member pointer points to. Builtin types may also consist of multiple words,
                     // e.g. unsigned long long.
                     while(true) {
-                        TRY_TOK(maybe_ident, tokenizer.peek());
-                        if(!maybe_ident || maybe_ident.unwrap().type != token_type::identifier) {
+                        TRY_TOK(next, tokenizer.peek());
+                        if(
+                            !next
+                            || !is_any(next.unwrap().type, token_type::identifier, token_type::anonymous_namespace)
+                        ) {
                             break;
                         }
                         TRY_PARSE(parse_symbol(), (void)0);
@@ -838,6 +842,74 @@ namespace detail {
             return res.unwrap_value();
         }
 
+        // "S::*name", as in "(S::*name", as opposed to e.g. function parameters
+        NODISCARD Result<bool, parse_error> parse_member_pointer_declarator() {
+            while(true) {
+                TRY_TOK(next, tokenizer.peek());
+                if(next && is_microsoft_calling_convention(next.unwrap().str)) {
+                    tokenizer.advance();
+                } else {
+                    break;
+                }
+            }
+            while(true) {
+                bool did_match_term = false;
+                TRY_PARSE(parse_symbol_term(), did_match_term = true);
+                if(!did_match_term) {
+                    return false;
+                }
+                TRY_PARSE(consume_punctuation_and_trailing_modifiers(), (void)0);
+                TRY_TOK(scope_resolution, tokenizer.accept({token_type::punctuation, "::"}));
+                if(!scope_resolution) {
+                    return false;
+                }
+                TRY_TOK(star, tokenizer.accept({token_type::punctuation, "*"}));
+                if(star) {
+                    TRY_PARSE(accept_name_suffix(), (void)0);
+                    TRY_TOK(closing_parenthesis, tokenizer.accept({token_type::punctuation, ")"}));
+                    return !closing_parenthesis;
+                }
+            }
+        }
+
+        // lookahead to match "(S::*name"
+        NODISCARD bool lookahead_is_member_function_pointer() const {
+            symbol_tokenizer tokenizer_copy = tokenizer;
+            auto opening_parenthesis = tokenizer_copy.accept({token_type::punctuation, "("});
+            if(opening_parenthesis.is_error() || !opening_parenthesis.unwrap_value()) {
+                return false;
+            }
+            symbol_parser parser(tokenizer_copy);
+            auto res = parser.parse_member_pointer_declarator();
+            return !res.is_error() && res.unwrap_value();
+        }
+
+        NODISCARD Result<bool, parse_error> parse_member_function_pointer() {
+            TRY_TOK(opening_parenthesis, tokenizer.accept({token_type::punctuation, "("}));
+            if(!opening_parenthesis) {
+                return false;
+            }
+            while(true) {
+                TRY_TOK(next, tokenizer.peek());
+                if(next && is_microsoft_calling_convention(next.unwrap().str)) {
+                    tokenizer.advance();
+                } else {
+                    break;
+                }
+            }
+            bool did_parse = false;
+            reset_output_flag = true;
+            TRY_PARSE(parse_symbol(), did_parse = true);
+            if(!did_parse) {
+                return parse_error{};
+            }
+            TRY_TOK(closing_parenthesis, tokenizer.accept({token_type::punctuation, ")"}));
+            if(!closing_parenthesis) {
+                return parse_error{};
+            }
+            return true;
+        }
+
         NODISCARD Result<bool, parse_error> parse_function_pointer() {
             ASSERT(lookahead_is_function_pointer());
             TRY_TOK(opening_parenthesis, tokenizer.accept({token_type::punctuation, "("}));
@@ -936,6 +1008,8 @@ namespace detail {
                 }
                 if(lookahead_is_function_pointer()) {
                     TRY_PARSE(parse_function_pointer(), did_match_term = true);
+                } else if(lookahead_is_member_function_pointer()) {
+                    TRY_PARSE(parse_member_function_pointer(), did_match_term = true);
                 }
                 if(did_match_term) {
                     made_progress = true;
@@ -951,6 +1025,20 @@ namespace detail {
                     TRY_TOK(star, tokenizer.accept({token_type::punctuation, "*"}));
                     if(star) {
                         append_output(star.unwrap());
+                        TRY_PARSE(accept_name_suffix(), (void)0);
+                        // If a name follows then this was the type of what's being named
+                        TRY_TOK(next, tokenizer.peek());
+                        if(
+                            next
+                            && is_any(
+                                next.unwrap().type,
+                                token_type::identifier,
+                                token_type::literal,
+                                token_type::anonymous_namespace
+                            )
+                        ) {
+                            reset_output_flag = true;
+                        }
                     }
                 } else {
                     break;
-- 
2.43.0


From 0b79621e1d6f295fd5ce4c770d918712b80d8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 12/34] fix: don't prettify strings of other character types to
 std::string

---
 src/formatting.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index 266e1aa..95467cf 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -37,11 +37,11 @@ CPPTRACE_BEGIN_NAMESPACE
         // rules to replace std::basic_string -> std::string and std::basic_string_view -> std::string
         // rule to replace ", std::allocator<whatever>"
         static const std::pair<std::regex, std::string> basic_string = {
-            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string<char)"), "std::string"
+            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string<char(?=\s*[,>]))"), "std::string"
         };
         detail::replace_all_template(symbol, basic_string);
         static const std::pair<std::regex, std::string> basic_string_view = {
-            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string_view<char)"), "std::string_view"
+            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string_view<char(?=\s*[,>]))"), "std::string_view"
         };
         detail::replace_all_template(symbol, basic_string_view);
         static const std::pair<std::regex, std::string> allocator = {
-- 
2.43.0


From e5c43d078bdd476d2a28ba1bb6db91a4490f7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:23 +0000
Subject: [PATCH 13/34] fix: prettify_symbol removed allocator and deleter
 function parameters

---
 src/formatting.cpp        |  4 ++--
 src/utils/replace_all.cpp | 36 +++++++++++++++++++++++++++++++++++-
 src/utils/replace_all.hpp |  9 +++++++--
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index 95467cf..f2ce4d5 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -47,11 +47,11 @@ CPPTRACE_BEGIN_NAMESPACE
         static const std::pair<std::regex, std::string> allocator = {
             std::regex(R"(,\s*std(::[a-zA-Z0-9_]+)?::allocator<)"), ""
         };
-        detail::replace_all_template(symbol, allocator);
+        detail::replace_all_template(symbol, allocator, true);
         static const std::pair<std::regex, std::string> default_delete = {
             std::regex(R"(,\s*std(::[a-zA-Z0-9_]+)?::default_delete<)"), ""
         };
-        detail::replace_all_template(symbol, default_delete);
+        detail::replace_all_template(symbol, default_delete, true);
         // replace std::__cxx11 -> std:: for gcc dual abi
         // https://gcc.gnu.org/onlinedocs/libstdc++/manual/using_dual_abi.html
         detail::replace_all_dynamic(symbol, "std::__cxx11::", "std::");
diff --git a/src/utils/replace_all.cpp b/src/utils/replace_all.cpp
index ebf6e02..a2d7b7c 100644
--- a/src/utils/replace_all.cpp
+++ b/src/utils/replace_all.cpp
@@ -29,7 +29,37 @@ namespace detail {
         }
     }
 
-    void replace_all_template(std::string& str, const std::pair<std::regex, string_view>& rule) {
+    // whether the text in [begin, end) is a whole argument in a template argument list, as opposed to e.g. a function
+    // parameter or a part of an argument
+    static bool is_template_argument(const std::string& str, std::size_t begin, std::size_t end) {
+        auto next = str.find_first_not_of(" ", end);
+        if(next == std::string::npos || (str[next] != ',' && str[next] != '>')) {
+            return false;
+        }
+        int angles = 0;
+        int groups = 0;
+        while(begin > 0) {
+            char c = str[--begin];
+            if(c == ')' || c == ']' || c == '}') {
+                groups++;
+            } else if(c == '(' || c == '[' || c == '{') {
+                if(groups == 0) {
+                    return false;
+                }
+                groups--;
+            } else if(groups == 0 && c == '>') {
+                angles++;
+            } else if(groups == 0 && c == '<') {
+                if(angles == 0) {
+                    return true;
+                }
+                angles--;
+            }
+        }
+        return false;
+    }
+
+    void replace_all_template(std::string& str, const std::pair<std::regex, string_view>& rule, bool only_arguments) {
         const auto& re = rule.first;
         const auto& replacement = rule.second;
         std::smatch match;
@@ -45,6 +75,10 @@ namespace detail {
                     c--;
                 }
             }
+            if(only_arguments && !is_template_argument(str, match_begin, end)) {
+                cursor = match_begin + match.length();
+                continue;
+            }
             // make the replacement
             str.replace(match_begin, end - match_begin, replacement.data(), replacement.size());
             cursor = match_begin + replacement.size();
diff --git a/src/utils/replace_all.hpp b/src/utils/replace_all.hpp
index a4cd8c0..1c54558 100644
--- a/src/utils/replace_all.hpp
+++ b/src/utils/replace_all.hpp
@@ -17,8 +17,13 @@ namespace detail {
     // replace all instances of substr with the replacement, including new instances introduced by the replacement
     void replace_all_dynamic(std::string& str, string_view substr, string_view replacement);
 
-    // replace all matches of a regex including template parameters
-    void replace_all_template(std::string& str, const std::pair<std::regex, string_view>& rule);
+    // replace all matches of a regex including template parameters, optionally only those which are themselves arguments
+    // in a template argument list
+    void replace_all_template(
+        std::string& str,
+        const std::pair<std::regex, string_view>& rule,
+        bool only_arguments = false
+    );
 }
 CPPTRACE_END_NAMESPACE
 
-- 
2.43.0


From 4550b7e6f410d48f6155acb4d08489a39703f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:10 +0000
Subject: [PATCH 14/34] fix: empty JIT code sections hid the code around them

---
 src/jit/jit_objects.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 8488bab..7de6b76 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -55,6 +55,9 @@ namespace detail {
             }
             auto& ranges = ranges_res.unwrap_value();
             for(auto range : ranges) {
+                if(range.low >= range.high) {
+                    continue; // an empty range contains no pc and must not hide the range around it
+                }
                 range_entry entry{range.low, range.high, object.data(), object_file};
                 // TODO: Perf
                 range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);
-- 
2.43.0


From dd1435b8a6d77c0878fa783017f2da28a56d3938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:59 +0000
Subject: [PATCH 15/34] fix: signed overflow when formatting the smallest
 integer

---
 src/utils/microfmt.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/microfmt.hpp b/src/utils/microfmt.hpp
index 9dc3edf..577fb2a 100644
--- a/src/utils/microfmt.hpp
+++ b/src/utils/microfmt.hpp
@@ -163,12 +163,12 @@ namespace microfmt {
                     case value_type::int64_value:
                         {
                             std::string str;
-                            std::int64_t val = int64_value;
-                            if(val < 0) {
+                            std::uint64_t val = static_cast<std::uint64_t>(int64_value);
+                            if(int64_value < 0) {
                                 str += '-';
-                                val *= -1;
+                                val = 0 - val;
                             }
-                            str += to_string(static_cast<std::uint64_t>(val), options);
+                            str += to_string(val, options);
                             do_write(out, str.begin(), str.end(), options);
                         }
                         break;
-- 
2.43.0


From de3eba3b4a5ed4b389e34d4e8c391782bd20a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:59 +0000
Subject: [PATCH 16/34] fix: out of bounds read when the end of a memory file
 read wraps around

---
 src/utils/io/memory_file_view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/memory_file_view.cpp b/src/utils/io/memory_file_view.cpp
index 30d11fb..df88334 100644
--- a/src/utils/io/memory_file_view.cpp
+++ b/src/utils/io/memory_file_view.cpp
@@ -10,7 +10,7 @@ namespace detail {
         if(offset < 0) {
             return internal_error("Illegal read in memory file {}: offset {}", path(), offset);
         }
-        if(offset + buffer.size() > data.size()) {
+        if(static_cast<std::size_t>(offset) > data.size() || buffer.size() > data.size() - offset) {
             return internal_error(
                 "Illegal read in memory file {}: offset = {}, size = {}, file size = {}",
                 path(), offset, buffer.size(), data.size()
-- 
2.43.0


From 2336526869fa6b5ada8c51b1f9e39184483c006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:51 +0000
Subject: [PATCH 17/34] fix: out of bounds read for ELF names outside the
 string table

---
 src/binary/elf.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 655fa9f..70a066e 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -143,7 +143,7 @@ namespace detail {
         if(it == symtab.entries.end()) {
             return nullopt;
         }
-        if(pc <= it->st_value + it->st_size) {
+        if(pc <= it->st_value + it->st_size && it->st_name < strtab.size()) {
             return strtab.data() + it->st_name;
         }
         return nullopt;
@@ -167,7 +167,7 @@ namespace detail {
         }
         const auto& sections = sections_res.unwrap_value();
         for(const auto& section : sections) {
-            if(string_view(strtab.data() + section.sh_name) == ".text") {
+            if(section.sh_name < strtab.size() && string_view(strtab.data() + section.sh_name) == ".text") {
                 vec.push_back(
                     pc_range{to<frame_ptr>(section.sh_addr), to<frame_ptr>(section.sh_addr + section.sh_size)}
                 );
@@ -204,7 +204,9 @@ namespace detail {
         std::vector<symbol_entry> res;
         for(const auto& entry : info.entries) {
             res.push_back({
-                strtab.has_value() ? strtab.unwrap().data() + entry.st_name : "<strtab error>",
+                strtab.has_value() && entry.st_name < strtab.unwrap().size()
+                    ? strtab.unwrap().data() + entry.st_name
+                    : "<strtab error>",
                 entry.st_shndx,
                 entry.st_value,
                 entry.st_size
-- 
2.43.0


From 9ab8df8aa1c4e4de370359561da2c0b964ba2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:51 +0000
Subject: [PATCH 18/34] fix: corrupt ELF section sizes made registering an
 object throw

---
 src/binary/elf.cpp | 15 +++++++++++++++
 src/binary/elf.hpp |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 70a066e..4acfcd0 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -307,6 +307,15 @@ namespace detail {
         return sections;
     }
 
+    // checks the extent of a section before its size is relied on
+    bool elf::section_is_readable(const section_info& section) {
+        if(section.sh_size == 0) {
+            return true;
+        }
+        const auto last = section.sh_offset + (section.sh_size - 1);
+        return last >= section.sh_offset && file->read<char>(last).has_value();
+    }
+
     Result<const std::vector<char>&, internal_error> elf::get_strtab(std::size_t index) {
         auto res = strtab_entries.insert({index, {}});
         auto it = res.first;
@@ -333,6 +342,9 @@ namespace detail {
         if(section.sh_type != SHT_STRTAB) {
             return internal_error("requested strtab section not a strtab (requested {} of {})", index, file->path());
         }
+        if(!section_is_readable(section)) {
+            return internal_error("strtab section outside of file {}", file->path());
+        }
         entry.data.resize(section.sh_size + 1);
         auto read_res = file->read_bytes(
             span<char>{entry.data.data(), to<std::size_t>(section.sh_size)},
@@ -425,6 +437,9 @@ namespace detail {
                 if(section.sh_size % section.sh_entsize != 0) {
                     return internal_error("elf seems corrupted, sym entry vs section size mismatch {}", file->path());
                 }
+                if(!section_is_readable(section)) {
+                    return internal_error("elf seems corrupted, symbol table outside of file {}", file->path());
+                }
                 std::vector<SymEntry> buffer(section.sh_size / section.sh_entsize);
                 auto res = file->read_span(make_span(buffer.begin(), buffer.end()), section.sh_offset);
                 if(!res) {
diff --git a/src/binary/elf.hpp b/src/binary/elf.hpp
index 02c68df..6bc14c5 100644
--- a/src/binary/elf.hpp
+++ b/src/binary/elf.hpp
@@ -127,6 +127,8 @@ namespace detail {
         template<std::size_t Bits>
         Result<const std::vector<section_info>&, internal_error> get_sections_impl();
 
+        bool section_is_readable(const section_info& section);
+
         Result<const std::vector<char>&, internal_error> get_strtab(std::size_t index);
 
         Result<const optional<symtab_info>&, internal_error> get_symtab();
-- 
2.43.0


From 5756a6d1f788801cb54591133d8ab76014bde7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 19/34] fix: ELF files of the other byte order were always
 rejected

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 4acfcd0..886bf3e 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -248,7 +248,7 @@ namespace detail {
             return std::move(loaded_header).unwrap_error();
         }
         const Header& file_header = loaded_header.unwrap_value();
-        if(file_header.e_ehsize != sizeof(Header)) {
+        if(byteswap_if_needed(file_header.e_ehsize) != sizeof(Header)) {
             return internal_error("ELF file header size mismatch {}", file->path());
         }
         header_info info;
-- 
2.43.0


From 012c9b4372aebecbb5ae697a7b9f2913d128b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 20/34] fix: CPPTRACE_WRAP lost the wrapping function's frame
 in optimized builds

---
 include/cpptrace/exceptions_macros.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cpptrace/exceptions_macros.hpp b/include/cpptrace/exceptions_macros.hpp
index 82f66c7..c29d0b9 100644
--- a/include/cpptrace/exceptions_macros.hpp
+++ b/include/cpptrace/exceptions_macros.hpp
@@ -10,7 +10,14 @@
         } \
     } while(0)
 
-#define CPPTRACE_WRAP(expression) [&] () -> decltype((expression)) { \
+// The lambda's frame is skipped, so it must have one
+#ifdef _MSC_VER
+ #define CPPTRACE_WRAP_LAMBDA_ATTRIBUTE
+#else
+ #define CPPTRACE_WRAP_LAMBDA_ATTRIBUTE __attribute__((noinline))
+#endif
+
+#define CPPTRACE_WRAP(expression) [&] () CPPTRACE_WRAP_LAMBDA_ATTRIBUTE -> decltype((expression)) { \
         try { \
             return expression; \
         } catch(...) { \
-- 
2.43.0


From 1e371b5690788b5cd485a9f4e81f0ebcafe944c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 21/34] fix: self-assignment of traced exceptions used their
 destroyed trace

---
 src/exceptions.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 4009c64..b73f2ad 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -32,16 +32,13 @@ CPPTRACE_BEGIN_NAMESPACE
             }
         }
         lazy_trace_holder& lazy_trace_holder::operator=(const lazy_trace_holder& other) {
-            clear();
-            resolved = other.resolved;
-            if(other.resolved) {
-                new (&resolved_trace) stacktrace(other.resolved_trace);
-            } else {
-                new (&trace) raw_trace(other.trace);
-            }
-            return *this;
+            // copy first: other may be *this, and the copy may throw
+            return *this = lazy_trace_holder(other);
         }
         lazy_trace_holder& lazy_trace_holder::operator=(lazy_trace_holder&& other) noexcept {
+            if(this == &other) {
+                return *this;
+            }
             clear();
             resolved = other.resolved;
             if(other.resolved) {
-- 
2.43.0


From dddadcde8bdc1a9eb4e8f66785d2715fcf763710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 22/34] fix: addr2line could hang, leak and misattribute lines

Addresses are now passed as arguments: writing them to the child could block for
good (long traces, a child that died, concurrent resolutions). Interrupted reads
and waits are retried, a failing read is an error instead of a huge count,
descriptors and children are released on every path, a failed fork is reported
and doesn't disable addr2line for good, and output that ends in the middle of a
line is not used.
---
 src/symbols/symbols_with_addr2line.cpp | 190 ++++++++++++++-----------
 1 file changed, 109 insertions(+), 81 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index d5f430e..bfb8dd9 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -6,6 +6,7 @@
 #include "utils/microfmt.hpp"
 #include "utils/utils.hpp"
 
+#include <algorithm>
 #include <cstdint>
 #include <cstdio>
 #include <functional>
@@ -16,6 +17,8 @@
 #include <vector>
 
 #if IS_LINUX || IS_APPLE
+ #include <cerrno>
+ #include <fcntl.h>
  #include <unistd.h>
  #include <sys/types.h>
  #include <sys/wait.h>
@@ -34,7 +37,6 @@ namespace addr2line {
         static bool checked = false;
         std::lock_guard<std::mutex> lock(mutex);
         if(!checked) {
-            checked = true;
             // Detects if addr2line exists by trying to invoke addr2line --help
             constexpr int magic = 42;
             const pid_t pid = fork();
@@ -56,9 +58,10 @@ namespace addr2line {
                 #endif
                 _exit(magic);
             }
-            int status;
-            waitpid(pid, &status, 0);
-            has_addr2line = WEXITSTATUS(status) == 0;
+            int status = 0; // kept if the status isn't available because SIGCHLD is ignored
+            while(waitpid(pid, &status, 0) == -1 && errno == EINTR) {}
+            has_addr2line = WIFEXITED(status) && WEXITSTATUS(status) == 0;
+            checked = true;
         }
         return has_addr2line;
     }
@@ -76,71 +79,91 @@ namespace addr2line {
     };
     static_assert(sizeof(pipe_t) == 2 * sizeof(int), "Unexpected struct packing");
 
+    // closes the output and reaps the child on every path
+    struct child_process {
+        pid_t pid;
+        int output;
+        ~child_process() {
+            close(output);
+            while(waitpid(pid, nullptr, 0) == -1 && errno == EINTR) {}
+        }
+    };
+
+    // The addresses are arguments and not the child's input: Writing them to a pipe can block for good if the child is gone
+    // or itself blocked on its output, and the child only sees the end of its input once no concurrently forked child
+    // holds a copy of the pipe
     std::string resolve_addresses(const std::string& addresses, const std::string& executable) {
+        const auto address_list = split(trim(addresses), "\n");
+        #ifdef CPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH
+         #if !IS_APPLE
+          const char* const program = "addr2line";
+         #else
+          const char* const program = "atos";
+         #endif
+        #else
+         #ifndef CPPTRACE_ADDR2LINE_PATH
+         #error "CPPTRACE_ADDR2LINE_PATH must be defined if CPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH is not"
+         #endif
+         const char* const program = CPPTRACE_ADDR2LINE_PATH;
+        #endif
+        #if !IS_APPLE
+         std::vector<const char*> args{program, "-e", executable.c_str(), "-f", "-C", "-p"};
+        #else
+         std::vector<const char*> args{program, "-o", executable.c_str(), "-fullPath"};
+        #endif
+        for(const auto& address : address_list) {
+            args.push_back(address.c_str());
+        }
+        args.push_back(nullptr);
         pipe_t output_pipe;
-        pipe_t input_pipe;
-        if(pipe(output_pipe.data) != 0 || pipe(input_pipe.data) != 0) {
+        #if IS_LINUX
+         const auto pipe_res = pipe2(output_pipe.data, O_CLOEXEC);
+        #else
+         const auto pipe_res = pipe(output_pipe.data);
+        #endif
+        if(pipe_res != 0) {
             throw internal_error("call to pipe failed: {}", errno);
         }
         const pid_t pid = fork();
-        if(pid == -1) { return ""; } // error? TODO: Diagnostic
-        if(pid == 0) { // child
-            dup2(output_pipe.end.write, STDOUT_FILENO);
-            dup2(input_pipe.end.read, STDIN_FILENO);
+        if(pid == -1) {
+            const auto error = errno;
             close(output_pipe.end.read);
             close(output_pipe.end.write);
-            close(input_pipe.end.read);
-            close(input_pipe.end.write);
+            throw internal_error("call to fork failed: {}", error);
+        }
+        if(pid == 0) { // child
+            close(output_pipe.end.read);
+            if(output_pipe.end.write != STDOUT_FILENO) {
+                dup2(output_pipe.end.write, STDOUT_FILENO);
+                close(output_pipe.end.write);
+            } else {
+                fcntl(STDOUT_FILENO, F_SETFD, 0);
+            }
             close(STDERR_FILENO); // TODO: Might be worth conditionally enabling or piping
+            // arguments to exec functions are const in all but type
             #ifdef CPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH
-            #if !IS_APPLE
-            execlp("addr2line", "addr2line", "-e", executable.c_str(), "-f", "-C", "-p", nullptr);
+             execvp(program, const_cast<char* const*>(args.data()));
             #else
-            execlp("atos", "atos", "-o", executable.c_str(), "-fullPath", nullptr);
-            #endif
-            #else
-            #ifndef CPPTRACE_ADDR2LINE_PATH
-            #error "CPPTRACE_ADDR2LINE_PATH must be defined if CPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH is not"
-            #endif
-            #if !IS_APPLE
-            execl(
-                CPPTRACE_ADDR2LINE_PATH,
-                CPPTRACE_ADDR2LINE_PATH,
-                "-e",
-                executable.c_str(),
-                "-f",
-                "-C",
-                "-p",
-                nullptr
-            );
-            #else
-            execl(
-                CPPTRACE_ADDR2LINE_PATH,
-                CPPTRACE_ADDR2LINE_PATH,
-                "-o", executable.c_str(),
-                "-fullPath",
-                nullptr
-            );
-            #endif
+             execv(program, const_cast<char* const*>(args.data()));
             #endif
             _exit(1); // TODO: Diagnostic?
         }
-        if(write(input_pipe.end.write, addresses.data(), addresses.size()) == -1) {
-            throw internal_error("call to write failed: {}", errno);
-        }
-        close(input_pipe.end.read);
-        close(input_pipe.end.write);
+        child_process child{pid, output_pipe.end.read};
         close(output_pipe.end.write);
         std::string output;
         constexpr int buffer_size = 4096;
         char buffer[buffer_size];
-        std::size_t count = 0;
-        while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0) {
-            output.insert(output.end(), buffer, buffer + count);
+        while(true) {
+            const auto count = read(output_pipe.end.read, buffer, buffer_size);
+            if(count > 0) {
+                output.append(buffer, static_cast<std::size_t>(count));
+            } else if(count == 0) {
+                break;
+            } else if(errno != EINTR) {
+                throw internal_error("call to read failed: {}", errno);
+            }
         }
         // TODO: check status from addr2line?
-        waitpid(pid, nullptr, 0);
-        close(output_pipe.end.read);
         return output;
     }
     #elif IS_WINDOWS
@@ -285,38 +308,43 @@ namespace addr2line {
         if(has_addr2line()) {
             const auto entries = collate_frames(frames, trace);
             for(const auto& entry : entries) {
-                try {
-                    const auto& object_name = entry.first;
-                    if(object_name.empty()) {
-                        continue;
-                    }
-                    const auto& entries_vec = entry.second;
-                    // You may ask why it'd ever happen that there could be an empty entries_vec array, if there're
-                    // no addresses why would get_addr2line_targets do anything? The reason is because if things in
-                    // get_addr2line_targets fail it will silently skip. This is partly an optimization but also an
-                    // assertion below will fail if addr2line is given an empty input.
-                    if(entries_vec.empty()) {
-                        continue;
-                    }
-                    std::string address_input;
-                    for(const auto& pair : entries_vec) {
-                        address_input += microfmt::format(
-                            "{:h}{}",
-                            pair.first.get().object_address,
-                        #if !IS_WINDOWS
-                            '\n'
-                        #else
-                            ' '
-                        #endif
-                        );
-                    }
-                    auto output = split(trim(resolve_addresses(address_input, object_name)), "\n");
-                    VERIFY(output.size() == entries_vec.size());
-                    for(std::size_t i = 0; i < output.size(); i++) {
-                        update_trace(output[i], i, entries_vec);
+                const auto& object_name = entry.first;
+                if(object_name.empty()) {
+                    continue;
+                }
+                // You may ask why it'd ever happen that there could be an empty entries_vec array, if there're
+                // no addresses why would get_addr2line_targets do anything? The reason is because if things in
+                // get_addr2line_targets fail it will silently skip. This is partly an optimization but also an
+                // assertion below will fail if addr2line is given an empty input.
+                const auto& entries_vec = entry.second;
+                // batches keep command lines well within system limits
+                constexpr std::size_t batch_size = 2048;
+                for(std::size_t start = 0; start < entries_vec.size(); start += batch_size) {
+                    try {
+                        const auto count = (std::min)(batch_size, entries_vec.size() - start);
+                        std::string address_input;
+                        for(std::size_t i = start; i < start + count; i++) {
+                            address_input += microfmt::format(
+                                "{:h}{}",
+                                entries_vec[i].first.get().object_address,
+                            #if !IS_WINDOWS
+                                '\n'
+                            #else
+                                ' '
+                            #endif
+                            );
+                        }
+                        const auto raw_output = resolve_addresses(address_input, object_name);
+                        // the last line is incomplete if the child died while writing it
+                        VERIFY(!raw_output.empty() && raw_output.back() == '\n');
+                        auto output = split(trim(raw_output), "\n");
+                        VERIFY(output.size() == count);
+                        for(std::size_t i = 0; i < count; i++) {
+                            update_trace(output[i], start + i, entries_vec);
+                        }
+                    } catch(...) { // NOSONAR
+                        detail::log_and_maybe_propagate_exception(std::current_exception());
                     }
-                } catch(...) { // NOSONAR
-                    detail::log_and_maybe_propagate_exception(std::current_exception());
                 }
             }
         }
-- 
2.43.0


From c83b6c617db9cc760a2fe631f3f0bb87ac03b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 23/34] fix: an empty log callback made reporting an error
 throw bad_function_call

---
 src/logging.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 98045ef..e517d77 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -24,7 +24,10 @@ namespace detail {
         if(level < current_log_level) {
             return;
         }
-        log_callback()(level, message);
+        // an empty function can be set, to turn logging off
+        if(const auto& callback = log_callback()) {
+            callback(level, message);
+        }
     }
 
     namespace log {
-- 
2.43.0


From 558aefc4eff45b4f0715427939c180f0e3b8f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 24/34] fix: absorbed errors escaped when there was no memory
 to describe them

---
 src/logging.hpp     | 13 ++++++++++++-
 src/utils/error.cpp | 30 ++++++++++++++++++------------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/logging.hpp b/src/logging.hpp
index 23801ca..ac9a5e5 100644
--- a/src/logging.hpp
+++ b/src/logging.hpp
@@ -5,6 +5,9 @@
 
 #include "utils/microfmt.hpp"
 
+#include <new>
+#include <string>
+
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
 namespace log {
@@ -12,7 +15,15 @@ namespace log {
     CPPTRACE_EXPORT void error(const char*);
     template<typename... Args>
     void error(const char* format, Args&&... args) {
-        error(microfmt::format(format, args...).c_str());
+        std::string message;
+        try {
+            message = microfmt::format(format, args...);
+        } catch(const std::bad_alloc&) {
+            // errors are reported by code which must not fail, not even for lack of memory
+            error(format);
+            return;
+        }
+        error(message.c_str());
     }
 
     CPPTRACE_EXPORT void warn(const char*);
diff --git a/src/utils/error.cpp b/src/utils/error.cpp
index b24ce3d..6adeafc 100644
--- a/src/utils/error.cpp
+++ b/src/utils/error.cpp
@@ -3,6 +3,7 @@
 #include <cpptrace/utils.hpp>
 
 #include <exception>
+#include <new>
 
 #include "platform/exception_type.hpp"
 #include "logging.hpp"
@@ -61,19 +62,24 @@ namespace detail {
 
     void log_and_maybe_propagate_exception(std::exception_ptr ptr) {
         try {
-            if(ptr) {
-                std::rethrow_exception(ptr);
+            try {
+                if(ptr) {
+                    std::rethrow_exception(ptr);
+                }
+            } catch(const internal_error& e) {
+                log::error("Unhandled cpptrace internal error: {}", e.what());
+            } catch(const std::exception& e) {
+                log::error(
+                    "Unhandled cpptrace internal error of type {}: {}",
+                    cpptrace::demangle(typeid(e).name()),
+                    e.what()
+                );
+            } catch(...) {
+                log::error("Unhandled cpptrace internal error of type {}", detail::exception_type_name());
             }
-        } catch(const internal_error& e) {
-            log::error("Unhandled cpptrace internal error: {}", e.what());
-        } catch(const std::exception& e) {
-            log::error(
-                "Unhandled cpptrace internal error of type {}: {}",
-                cpptrace::demangle(typeid(e).name()),
-                e.what()
-            );
-        } catch(...) {
-            log::error("Unhandled cpptrace internal error of type {}", detail::exception_type_name());
+        } catch(const std::bad_alloc&) {
+            // not even enough memory to describe the error
+            log::error("Unhandled cpptrace internal error");
         }
         if(!should_absorb_trace_exceptions()) {
             if(ptr) {
-- 
2.43.0


From 84bd6348bf6160595e9ae5ee042a44695b794b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 25/34] fix: a failed capture left an earlier exception's trace
 for the current one

---
 src/from_current.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index c620523..ab7b20e 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -56,6 +56,8 @@ namespace detail {
              #endif
              save_current_trace(std::move(trace));
          } catch(...) {
+             // the trace of an earlier exception must not be taken for this one's
+             save_current_trace(raw_trace{});
              detail::log_and_maybe_propagate_exception(std::current_exception());
          }
      }
@@ -65,6 +67,8 @@ namespace detail {
              auto trace = raw_trace{detail::capture_frames(skip + 1, SIZE_MAX)};
              save_current_trace(std::move(trace));
          } catch(...) {
+             // the trace of an earlier exception must not be taken for this one's
+             save_current_trace(raw_trace{});
              detail::log_and_maybe_propagate_exception(std::current_exception());
          }
      }
-- 
2.43.0


From ac662400cd7a09637f21d74b545dc83d8a957f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 26/34] fix: libbacktrace errors lost the raw address of their
 frame

---
 src/symbols/symbols_with_libbacktrace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbols/symbols_with_libbacktrace.cpp b/src/symbols/symbols_with_libbacktrace.cpp
index 5233654..134c363 100644
--- a/src/symbols/symbols_with_libbacktrace.cpp
+++ b/src/symbols/symbols_with_libbacktrace.cpp
@@ -88,7 +88,9 @@ namespace libbacktrace {
             return frame;
         } catch(...) { // NOSONAR
             detail::log_and_maybe_propagate_exception(std::current_exception());
-            return null_frame();
+            stacktrace_frame frame = null_frame();
+            frame.raw_address = addr;
+            return frame;
         }
     }
 
-- 
2.43.0


From bc38fac59ada8c2da13a091df913cec717d3bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 27/34] fix: libunwind traces through a signal handler were off
 by one at the interrupted frame

---
 src/unwind/unwind_with_libunwind.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unwind/unwind_with_libunwind.cpp b/src/unwind/unwind_with_libunwind.cpp
index f33a5f2..91c227c 100644
--- a/src/unwind/unwind_with_libunwind.cpp
+++ b/src/unwind/unwind_with_libunwind.cpp
@@ -29,6 +29,9 @@ namespace detail {
             unw_get_reg(&cursor, UNW_REG_SP, &sp);
             if(skip) {
                 skip--;
+            } else if(unw_is_signal_frame(&cursor) > 0) {
+                // pc is the instruction that caused the signal
+                frames.push_back(to_frame_ptr(pc));
             } else {
                 // pc is the instruction after the `call`, adjust back to the previous instruction
                 frames.push_back(to_frame_ptr(pc) - 1);
-- 
2.43.0


From d115d0ee99d1779211fb5ffc63f0e5ee50f85af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 28/34] fix: C API crashed on NULL strings, traces and frames

---
 src/ctrace.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index e125010..da7cb40 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -116,8 +116,8 @@ CTRACE_FORMAT_EPILOGUE
         new_frame.object_address = frame.object_address;
         new_frame.line      = nullable_type{is_empty(frame.line)   ? null_v : frame.line};
         new_frame.column    = nullable_type{is_empty(frame.column) ? null_v : frame.column};
-        new_frame.filename  = frame.filename;
-        new_frame.symbol    = frame.symbol;
+        new_frame.filename  = frame.filename ? frame.filename : "";
+        new_frame.symbol    = frame.symbol ? frame.symbol : "";
         new_frame.is_inline = bool(frame.is_inline);
         return new_frame;
     }
@@ -149,7 +149,7 @@ CTRACE_FORMAT_EPILOGUE
 extern "C" {
     // ctrace::string
     ctrace_owning_string ctrace_generate_owning_string(const char* raw_string) {
-        return ctrace::generate_owning_string(raw_string);
+        return ctrace::generate_owning_string(raw_string ? raw_string : "");
     }
 
     void ctrace_free_owning_string(ctrace_owning_string* string) {
@@ -340,7 +340,7 @@ extern "C" {
             cpptrace::detail::enable_virtual_terminal_processing_if_needed();
         }
         ctrace::ffprintf(to, "Stack trace (most recent call first):\n");
-        if(trace->count == 0 || !trace->frames) {
+        if(!trace || trace->count == 0 || !trace->frames) {
             ctrace::ffprintf(to, "<empty trace>\n");
             return;
         }
@@ -438,6 +438,9 @@ extern "C" {
     }
 
     ctrace_object_frame ctrace_get_object_info(const ctrace_stacktrace_frame* frame) {
+        if(!frame) {
+            return {0, 0, nullptr};
+        }
         try {
             cpptrace::object_frame new_frame = cpptrace::detail::get_frame_object_info(frame->raw_address);
             return ctrace::convert_object_frame(new_frame);
-- 
2.43.0


From 038c6128dfe9026229e2d83376c2a7a352c872fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 29/34] fix: ctrace_resolve_object_trace ignored the object
 addresses and paths it was given

---
 src/ctrace.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index da7cb40..0119fb3 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -1,6 +1,7 @@
 #include <ctrace/ctrace.h>
 #include <cpptrace/cpptrace.hpp>
 #include <algorithm>
+#include <iterator>
 
 #include "symbols/symbols.hpp"
 #include "unwind/unwind.hpp"
@@ -278,13 +279,14 @@ extern "C" {
             return { nullptr, 0 };
         }
         try {
-            std::vector<cpptrace::frame_ptr> frames(trace->count, 0);
+            std::vector<cpptrace::object_frame> frames;
+            frames.reserve(trace->count);
             std::transform(
                 trace->frames,
                 trace->frames + trace->count,
-                frames.begin(),
-                [] (const ctrace_object_frame& frame) -> cpptrace::frame_ptr {
-                    return frame.raw_address;
+                std::back_inserter(frames),
+                [] (const ctrace_object_frame& frame) -> cpptrace::object_frame {
+                    return {frame.raw_address, frame.obj_address, frame.obj_path ? frame.obj_path : ""};
                 }
             );
             std::vector<cpptrace::stacktrace_frame> resolved = cpptrace::detail::resolve_frames(frames);
-- 
2.43.0


From 6f37a4671e8f8773f69b8070356c37883ed4b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 30/34] fix: C API terminated or leaked when memory ran out
 while converting results

---
 src/ctrace.cpp | 72 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 0119fb3..19d589d 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -68,7 +68,7 @@ CTRACE_FORMAT_EPILOGUE
         return !str || std::char_traits<char>::length(str) == 0;
     }
 
-    static ctrace_owning_string generate_owning_string(cpptrace::detail::string_view raw_string) noexcept {
+    static ctrace_owning_string generate_owning_string(cpptrace::detail::string_view raw_string) {
         // Returns length to the null terminator.
         char* new_string = new char[raw_string.size() + 1];
         std::char_traits<char>::copy(new_string, raw_string.data(), raw_string.size());
@@ -92,19 +92,30 @@ CTRACE_FORMAT_EPILOGUE
 
     static ctrace_object_trace c_convert(const std::vector<cpptrace::object_frame>& trace) {
         std::size_t count = trace.size();
-        auto* frames = new ctrace_object_frame[count];
-        std::transform(trace.begin(), trace.end(), frames, convert_object_frame);
-        return { frames, count };
+        ctrace_object_trace new_trace{ new ctrace_object_frame[count](), count };
+        try {
+            std::transform(trace.begin(), trace.end(), new_trace.frames, convert_object_frame);
+        } catch(...) {
+            ctrace_free_object_trace(&new_trace);
+            throw;
+        }
+        return new_trace;
     }
 
     static ctrace_stacktrace_frame convert_stacktrace_frame(const cpptrace::stacktrace_frame& frame) {
         ctrace_stacktrace_frame new_frame;
+        std::string symbol = cpptrace::detail::demangle(frame.symbol, true);
         new_frame.raw_address    = frame.raw_address;
         new_frame.object_address = frame.object_address;
         new_frame.line      = frame.line.value_or(invalid_pos);
         new_frame.column    = frame.column.value_or(invalid_pos);
         new_frame.filename  = generate_owning_string(frame.filename).data;
-        new_frame.symbol    = generate_owning_string(cpptrace::detail::demangle(frame.symbol, true)).data;
+        try {
+            new_frame.symbol = generate_owning_string(symbol).data;
+        } catch(...) {
+            free_owning_string(new_frame.filename);
+            throw;
+        }
         new_frame.is_inline = ctrace_bool(frame.is_inline);
         return new_frame;
     }
@@ -125,13 +136,18 @@ CTRACE_FORMAT_EPILOGUE
 
     static ctrace_stacktrace c_convert(const std::vector<cpptrace::stacktrace_frame>& trace) {
         std::size_t count = trace.size();
-        auto* frames = new ctrace_stacktrace_frame[count];
-        std::transform(
-            trace.begin(),
-            trace.end(), frames,
-            static_cast<ctrace_stacktrace_frame(*)(const cpptrace::stacktrace_frame&)>(convert_stacktrace_frame)
-        );
-        return { frames, count };
+        ctrace_stacktrace new_trace{ new ctrace_stacktrace_frame[count](), count };
+        try {
+            std::transform(
+                trace.begin(),
+                trace.end(), new_trace.frames,
+                static_cast<ctrace_stacktrace_frame(*)(const cpptrace::stacktrace_frame&)>(convert_stacktrace_frame)
+            );
+        } catch(...) {
+            ctrace_free_stacktrace(&new_trace);
+            throw;
+        }
+        return new_trace;
     }
 
     static cpptrace::stacktrace cpp_convert(const ctrace_stacktrace* ptrace) {
@@ -150,7 +166,11 @@ CTRACE_FORMAT_EPILOGUE
 extern "C" {
     // ctrace::string
     ctrace_owning_string ctrace_generate_owning_string(const char* raw_string) {
-        return ctrace::generate_owning_string(raw_string ? raw_string : "");
+        try {
+            return ctrace::generate_owning_string(raw_string ? raw_string : "");
+        } catch(...) { // NOSONAR
+            return { nullptr };
+        }
     }
 
     void ctrace_free_owning_string(ctrace_owning_string* string) {
@@ -324,12 +344,16 @@ extern "C" {
 
     // ctrace::io:
     ctrace_owning_string ctrace_stacktrace_to_string(const ctrace_stacktrace* trace, ctrace_bool use_color) {
-        if(!trace || !trace->frames) {
-            return ctrace::generate_owning_string("<empty trace>");
+        try {
+            if(!trace || !trace->frames) {
+                return ctrace::generate_owning_string("<empty trace>");
+            }
+            auto cpp_trace = ctrace::cpp_convert(trace);
+            std::string trace_string = cpp_trace.to_string(bool(use_color));
+            return ctrace::generate_owning_string(trace_string);
+        } catch(...) { // NOSONAR
+            return { nullptr };
         }
-        auto cpp_trace = ctrace::cpp_convert(trace);
-        std::string trace_string = cpp_trace.to_string(bool(use_color));
-        return ctrace::generate_owning_string(trace_string);
     }
 
     void ctrace_print_stacktrace(const ctrace_stacktrace* trace, FILE* to, ctrace_bool use_color) {
@@ -401,11 +425,15 @@ extern "C" {
 
     // utility::demangle:
     ctrace_owning_string ctrace_demangle(const char* mangled) {
-        if(!mangled) {
-            return ctrace::generate_owning_string("");
+        try {
+            if(!mangled) {
+                return ctrace::generate_owning_string("");
+            }
+            std::string demangled = cpptrace::demangle(mangled);
+            return ctrace::generate_owning_string(demangled);
+        } catch(...) { // NOSONAR
+            return { nullptr };
         }
-        std::string demangled = cpptrace::demangle(mangled);
-        return ctrace::generate_owning_string(demangled);
     }
 
     // utility::io
-- 
2.43.0


From 31a7557431168d512cbae4a3e69691b3d4e872bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 31/34] fix: image base of shared objects linked at a nonzero
 address was taken to be zero Shared objects don't have PT_PHDR as a rule, so
 get_module_image_base fell back to 0.

---
 src/binary/elf.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 886bf3e..d2b8cd9 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -18,6 +18,7 @@
 #include <unordered_map>
 
 #include <elf.h>
+#include <unistd.h>
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
@@ -87,21 +88,20 @@ namespace detail {
             return std::move(header).unwrap_error();
         }
         const auto& header_info = header.unwrap_value();
-        // PT_PHDR will occur at most once
-        // Should be somewhat reliable https://stackoverflow.com/q/61568612/15675011
-        // It should occur at the beginning but may as well loop just in case
+        // The image is mapped from the page of its first loadable segment, loadable segments are in ascending order.
+        // PT_PHDR isn't reliable for this: Shared objects usually don't have it.
+        const auto page_size = static_cast<std::uintptr_t>(sysconf(_SC_PAGESIZE));
         for(unsigned i = 0; i < header_info.e_phnum; i++) {
             auto loaded_ph = file->read<PHeader>(header_info.e_phoff + header_info.e_phentsize * i);
             if(loaded_ph.is_error()) {
                 return std::move(loaded_ph).unwrap_error();
             }
             const PHeader& program_header = loaded_ph.unwrap_value();
-            if(byteswap_if_needed(program_header.p_type) == PT_PHDR) {
-                return byteswap_if_needed(program_header.p_vaddr) -
-                    byteswap_if_needed(program_header.p_offset);
+            if(byteswap_if_needed(program_header.p_type) == PT_LOAD) {
+                const auto vaddr = static_cast<std::uintptr_t>(byteswap_if_needed(program_header.p_vaddr));
+                return vaddr - vaddr % page_size;
             }
         }
-        // Apparently some objects like shared objects can end up missing this header. 0 as a base seems correct.
         return 0;
     }
 
-- 
2.43.0


From f572ed70c91d30e606c35300a9c7f55ee42837db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 32/34] fix: dl back end took the image base of the executable
 from the file argv[0] happens to name

---
 src/symbols/symbols_with_dl.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/symbols/symbols_with_dl.cpp b/src/symbols/symbols_with_dl.cpp
index 7887d51..dc900ae 100644
--- a/src/symbols/symbols_with_dl.cpp
+++ b/src/symbols/symbols_with_dl.cpp
@@ -2,7 +2,7 @@
 
 #include <cpptrace/basic.hpp>
 #include "symbols/symbols.hpp"
-#include "binary/module_base.hpp"
+#include "binary/object.hpp"
 
 #include <cstdint>
 #include <memory>
@@ -16,12 +16,10 @@ namespace libdl {
     stacktrace_frame resolve_frame(const frame_ptr addr) {
         Dl_info info;
         if(dladdr(reinterpret_cast<void*>(addr), &info)) { // thread-safe
-            auto base = get_module_image_base(info.dli_fname);
+            // dli_fname may not lead to the object's file, it is argv[0] for the main executable
             return {
                 addr,
-                base.has_value()
-                    ? addr - reinterpret_cast<std::uintptr_t>(info.dli_fbase) + base.unwrap_value()
-                    : 0,
+                get_frame_object_info(addr).object_address,
                 nullable<std::uint32_t>::null(),
                 nullable<std::uint32_t>::null(),
                 info.dli_fname ? info.dli_fname : "",
-- 
2.43.0


From d4f89a54a250103d272687f4c4bb8997e0ea3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 33/34] fix: frames resolved by libbacktrace or by no back end
 lacked their object addresses

---
 src/symbols/symbols_core.cpp              | 5 +++--
 src/symbols/symbols_with_libbacktrace.cpp | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/symbols/symbols_core.cpp b/src/symbols/symbols_core.cpp
index 83e021d..2df5825 100644
--- a/src/symbols/symbols_core.cpp
+++ b/src/symbols/symbols_core.cpp
@@ -124,7 +124,8 @@ namespace detail {
 
     std::vector<stacktrace_frame> resolve_frames(const std::vector<frame_ptr>& frames) {
         #if defined(CPPTRACE_GET_SYMBOLS_WITH_LIBDWARF) \
-            || defined(CPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE)
+            || defined(CPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE) \
+            || defined(CPPTRACE_GET_SYMBOLS_WITH_NOTHING)
          auto dlframes = get_frames_object_info(frames);
         #endif
         #if defined(CPPTRACE_GET_SYMBOLS_WITH_LIBDWARF) && defined(CPPTRACE_GET_SYMBOLS_WITH_DBGHELP)
@@ -148,7 +149,7 @@ namespace detail {
           return libbacktrace::resolve_frames(frames);
          #endif
          #ifdef CPPTRACE_GET_SYMBOLS_WITH_NOTHING
-          return nothing::resolve_frames(frames);
+          return nothing::resolve_frames(dlframes);
          #endif
         #endif
     }
diff --git a/src/symbols/symbols_with_libbacktrace.cpp b/src/symbols/symbols_with_libbacktrace.cpp
index 134c363..27adef7 100644
--- a/src/symbols/symbols_with_libbacktrace.cpp
+++ b/src/symbols/symbols_with_libbacktrace.cpp
@@ -2,6 +2,7 @@
 
 #include <cpptrace/basic.hpp>
 #include "symbols/symbols.hpp"
+#include "binary/object.hpp"
 #include "platform/program_name.hpp"
 #include "utils/error.hpp"
 #include "utils/common.hpp"
@@ -68,6 +69,7 @@ namespace libbacktrace {
         try {
             stacktrace_frame frame = null_frame();
             frame.raw_address = addr;
+            frame.object_address = get_frame_object_info(addr).object_address;
             backtrace_pcinfo(
                 get_backtrace_state(),
                 addr,
-- 
2.43.0


From 4cea95192f9dd54f9a27f3effcefee4ed694c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 34/34] fix: get_safe_object_frame left a path longer than its
 buffer without a terminator

---
 src/binary/safe_dl.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/binary/safe_dl.cpp b/src/binary/safe_dl.cpp
index 0ccfd78..3d8f5e9 100644
--- a/src/binary/safe_dl.cpp
+++ b/src/binary/safe_dl.cpp
@@ -26,11 +26,9 @@ namespace detail {
             out->address_relative_to_object_start = address - to_frame_ptr(result.dlfo_link_map->l_addr);
             if(result.dlfo_link_map->l_name != nullptr && result.dlfo_link_map->l_name[0] != 0) {
                 std::size_t path_length = std::strlen(result.dlfo_link_map->l_name);
-                std::memcpy(
-                    out->object_path,
-                    result.dlfo_link_map->l_name,
-                    std::min(path_length + 1, std::size_t(CPPTRACE_PATH_MAX + 1))
-                );
+                path_length = std::min(path_length, std::size_t(CPPTRACE_PATH_MAX));
+                std::memcpy(out->object_path, result.dlfo_link_map->l_name, path_length);
+                out->object_path[path_length] = 0;
             } else {
                 // empty l_name, this means it's the currently running executable
                 memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);
-- 
2.43.0

